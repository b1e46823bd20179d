"""Honest peers with random data, and the scenarios of the other suites."""
import json

import lib
import scram
from lib import *

PRINTABLE = [chr(x) for x in range(33, 127)]


def text(r, lo=0, hi=20, extra=""):
    pool = "abcdefXYZ0189 ,=-_./+\"\\{}:;<>@!#%&'()*?[]^`|~" + extra
    return "".join(r.choice(pool) for _ in range(r.randint(lo, hi)))


def token(r):
    if lib.LONG[0]:
        return r.choice(["", "", "", "", "\u00fc", "a b", "\1", "\n"]) + lib.unguessable(r)
    return r.choice(["ya29.vF9dft4qmTc2Nvb3RlckBhdHRhdmlzdGEuY29tCg==", "t", "a.b.c", "x" * 300, "abc,def=ghi", "Bearer x",
                     "to ken", "\u00fc", text(r, 1, 40), odd_text(r)])


def kvs(r):
    def k():
        return "".join(r.choice("abcXYZ") for _ in range(r.randint(1, 6)))

    def v():
        return r.choice(["", "a", "server.example.com", "143", "a=b", "a,b", "=", "\u00fc", text(r, 0, 15)])
    out = [(k(), v()) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
    return [(a, w) for a, w in out if a.lower() != "auth"]


def anytoken(r):
    """A trace string of ANONYMOUS"""
    return r.choice(["", "sirhc", "a@b", "\u00fc\u20ac", "a,b=c", text(r, 0, 60), odd_text(r)])


def oauth_error(r):
    f = lambda: r.choice(["invalid_token", "s", "a b", "quote\"", "back\\slash", "\u00fc", "a/b", "line\nfeed", "\u0001",
                          "\u20ac\U0001d11e", "x" * 200, "null", "}", "{\"a\":1}", "", "1"])
    return (f(), r.choice([None, f()]), r.choice([None, f()]))


def xoauth_error(r):
    return r.choice(["e", "{\"status\":\"401\",\"schemes\":\"bearer mac\",\"scope\":\"https://mail.example.com/\"}",
                     "\u0001", "\u00fc", "x" * 500, text(r, 1, 80), " "])


def honest(r, mech, val=None, rejects=False, tricky=True, extra_client=(), extra_server=(), secret=None, data=None):
    """Configurations of a client and a server that agree. Returns (client cfg, server cfg, client pcb, server pcb)"""
    nm = name if tricky else plain_name
    val = [fin("outcome")] if val is None else val
    pcbs = ([], [])
    cs, ss = [], []
    cb = False
    regs = [mech]
    if mech == "PLAIN":
        pw = r.choice(["pencil", "p,=", "x" * 80, "\u00fc", b"\xff\xfe", b"p\xc3"])
        if lib.LONG[0]:
            pw = lib.unguessable(r).encode() + r.choice([b"", b"", "\u00fc".encode(), b"\xff\xfe", b"\xc3", b"\1", b"\x7f", "\u202e".encode()]) + lib.unguessable(r).encode()
        un = plain_name(r)
        if not lib.LONG[0] and r.random() < 0.08:
            pw = un
        cs = [sat("AuthId", un), sat("Password", pw)]
        if r.random() < 0.5:
            cs.append(sat("AuthzId", lib.another(r, un, r.choice(["", "z", "a,b", "\u00fc", odd_text(r)]))))
    elif mech == "LOGIN":
        un = nm(r)
        cs = [sat("AuthId", un), sat("Password", r.choice([lib.secret(r).encode(), b"\xff\xfe", b"a\0b", un.encode()]) if not lib.LONG[0]
                                               else lib.unguessable(r).encode() + r.choice([b"", b"\xff", b"\0", b"\n"]) + b"x")]
    elif mech == "ANONYMOUS":
        if r.random() < 0.8:
            cs = [sat("AnonymousToken", anytoken(r))]
    elif mech == "EXTERNAL":
        if r.random() < 0.8:
            cs = [sat("AuthzId", r.choice(["", nm(r)]))]
    elif mech == "XOAUTH2":
        cs = [sat("AuthId", nm(r)), sat("OAuthBearerToken", token(r)), act("XOAuth2Error")]
        ss = [xval(xoauth_error(r) if rejects else None, kind=r.choice(["sat", "satw"]))]
    elif mech == "OAUTHBEARER":
        cs = [sat("OAuthBearerToken", token(r)), act("OAuthBearerErrored")]
        if r.random() < 0.6:
            cs.append(sat("AuthzId", nm(r)))
        if r.random() < 0.7:
            cs.append(kv(kvs(r)))
        ss = [oval(oauth_error(r) if rejects else None)]
    elif mech in SCRAM + PLUS:
        un, pw = nm(r), lib.secret(r)
        if not lib.LONG[0] and r.random() < 0.05:
            pw = un
        salt = salt_of(r)
        it = r.choice([1, 2, 7, 100, 4096 if r.random() < 0.2 else 3])
        cs = [sat("AuthId", un)]
        sec = secret or r.choice(["pw", "pw", "salted", "keys"])
        if sec == "pw":
            cs.append(sat("Password", pw))
        else:
            a = alg_of(mech)
            sp = salted(a, pw.encode(), salt, it)
            cs.append(sat("SaltedPassword", sp) if sec == "salted" else cached(*keys(a, sp)))
        if r.random() < 0.4:
            cs.append(sat("AuthzId", lib.another(r, un, nm(r))))
        if r.random() < 0.5:
            cs.append(act("ScramCachedPassword"))
        ss = [stored([user(mech, un, pw, salt, it)])]
        if mech in PLUS:
            cb = True
            d = bytes(r.randrange(256) for _ in range(r.choice([1, 12, 32, 64])))
            t = r.choice(["tls-exporter", "tls-unique", "tls-server-end-point", "x-own.1"])
            if t in ("tls-exporter", "tls-unique"):
                if r.random() < 0.7:
                    pcbs = ([[t, d]], [[t, d]])
                    if r.random() < 0.3:
                        cs.append(sat("OverrideCBType", t))
                else:
                    # the callbacks answer for any type
                    cs += [sat("OverrideCBType", t), sat("ChannelBindings", d)]
                    ss.append(sat("ChannelBindings", d))
            else:
                cs.append(sat("OverrideCBType", t))
                if r.random() < 0.5:
                    pcbs = ([[t, d]], [[t, d]])
                else:
                    cs.append(sat("ChannelBindings", d))
                    ss.append(sat("ChannelBindings", d))
            if r.random() < 0.5:
                regs = [mech, mech.replace("-PLUS", "")]
    elif mech == "GSSAPI":
        cs = [sat("GssService", r.choice(["imap", "smtp", ""])), sat("Hostname", r.choice(["mail.example.org", "h", "\u00fc"]))]
        layer = r.choice([1, 2, 4])
        for x in (cs, ss):
            if r.random() < 0.7:
                x.append(sat("GssSecurityLayer", bytes([layer | r.choice([0, 0, 1, 2, 4, 7])])))
    else:
        raise ValueError(mech)
    cs += extra_client
    ss += extra_server
    r.shuffle(cs)
    r.shuffle(ss)
    if data is not None:
        data.update(client=cs, server=ss)
    return cfg([mech], cs, cb=cb), cfg(regs, ss, val), pcbs[0], pcbs[1]


def pair(r, mech, **k):
    """cfgs and sess of a client (0) and a server (1)"""
    g, legs = mech.startswith("GSSAPI"), 0
    if g:
        mech, legs = "GSSAPI", int(mech[6:]) if mech[6:] else r.randint(1, 4)
    c, s, cp, sp = honest(r, mech, **k)
    sess = [client(0, [mech], cp), server(1, mech, sp)]
    if g:
        lib = dict(flags=62, legs=legs, key=r.randrange(256), fail="", src=b(r.choice(["user@EXAMPLE.ORG", "u", "\u00fc@R"])))
        sess[0]["gss"] = sess[1]["gss"] = lib
    return [c, s], sess


# ---------------------------------------------------------------- Exchange model
VALS = {
    "none": [], "fin": [fin(ctx="AuthId")], "fin-fin": [fin("first"), fin("second")], "other-fin": [fin("b", t="B"), fin("a")],
    "other": [fin("b", t="B")], "err": [verr("denied")], "err-missing": [verr()], "fin-err": [fin("x"), verr("late")],
    "with": [vwith("w")], "with-fin": [vwith("w"), fin("f")], "witherr": [vwith("w", f="no")],
    "withother-err": [vwith("w", t="B", f="no")],
}
VALNAME = {"err-missing": "err", "other": "none", "withother-err": "none"}
CALLS = {"enc": enc, "dec": dec, "has": has, "info": info, "validation": validation}
WRITERS = {
    "w-bytes": lambda r: [1] * 2000, "w-int": lambda r: ["int"] * r.randint(1, 3) + [r.randint(1, 9)] + ["int"],
    "w-mixed": lambda r: [x for _ in range(300) for x in (["int"] if r.random() < 0.4 else []) + [r.choice([1, 2, 3, 5, 30])]],
    "w-err": lambda r: r.choice([["err"], ["int", "err"], ["full"]]), "w-zero": lambda r: r.choice([["zero"], ["int", "zero"]]),
}


REQUIRED = {"AuthId", "Password", "OAuthBearerToken", "XOAuth2Error", "OAuthBearerErrored", "GssService", "Hostname", "XOAuth2Validate",
            "OAuthBearerValidate"}


def via_of(via, k):
    return via if via != "mix" else ("step64" if k % 2 == 0 else "step")


def bad64(r):
    return r.choice([[dict(m="app", b=b("="))], [dict(m="app", b=b("A"))], [dict(m="app", b=b("\n"))], [dict(m="pre", b=b(" "))],
                     [dict(m="app", b=b("A==="))], [dict(m="pre", b=b("=AAA"))], [dict(m="ins", at=1, b=b("$"))],
                     [dict(m="app", b=b("AB=="))], [dict(m="app", b=b("QQ"))], [dict(m="ins", at=0, b=b("-_--"))]])


def exchange(S, suite, beh, r):
    mech = beh["mech"] if beh["mech"] != "SCRAM" else r.choice(SCRAM + SCRAM + PLUS)
    val = VALS[beh["val"]]
    # with a password where it matters that it is asked for
    cfgs, sess = pair(r, mech, val=val, rejects=beh["rejects"], secret="pw" if any(o.get("p") for o in beh["ops"]) else None)
    ops = []
    wfail = lambda: dict(w=WRITERS["w-err"](r)) if r.random() < 0.2 else {}
    for k, o in enumerate(beh["ops"]):
        j = 0 if o["s"] == "c" else 1
        via = via_of(beh["via"], k)
        what = o["op"]
        if what in CALLS:
            ops.append(CALLS[what](j))
            continue
        x = dict(last=1 - j) if o["m"] == "full" else None
        if what == "none":
            ops.append(step(j, None, via))
        elif what == "bad64":
            ops.append(step(j, x, "step64", mut64=bad64(r)))
        elif what == "step":
            ops.append(step(j, x, via))
        elif what == "garbled":
            g = r.choice([dict(b=b(b"\xff")), dict(b=b(b"\xc3(")), x if mech == "PLAIN" else dict(x, mut=[dict(m="app", b=[255])]), dict(x, mut=[dict(m="pre", b=[255])])])
            ops.append(step(j, x if g is x else g, via, **wfail()) if g is not x else step(j, dict(b=[]), via))
        elif what in ("silent", "refusing"):
            # from the beginning: it is only asked here
            sc = cfgs[j]["script"]
            at = min([i for i, o_ in enumerate(sc) if o_["p"] == o["p"]], default=len(sc))
            sc[:] = [o_ for o_ in sc if o_["p"] != o["p"]]
            if what == "refusing":
                sc.insert(min(at, len(sc)), errp(o["p"], *r.choice([("boxed", "no \u00fc"), ("boxed", ""), ("cb", "x"), ("nocb", ""), ("mutual", ""), ("io", ""), ("novalue", "")][:6 + (o["p"] in REQUIRED)])))
            ops.append(step(j, x, via, **wfail()))
        else:
            ops.append(step(j, x, via, w=WRITERS[what](r)))
    ops += [validation(1), validation(1), validation(0), has(0), has(1), enc(0), dec(1)]
    # whether a server has a rejected token validated, too, is open
    open_ = beh["rejects"] and any(v["op"] == "err" or v["f"] for v in val)
    S.add(suite, cfgs, sess, ops, exp=[] if open_ else [[0, beh["client"]], [1, beh["server"]]], beh=beh)


def sample(xs, n, r):
    return list(xs) if len(xs) <= n else r.sample(xs, n)


def strata(xs, n, r, key):
    """n of xs, every stratum represented as evenly as possible"""
    if len(xs) <= n:
        return list(xs)
    g = {}
    for x in xs:
        g.setdefault(json.dumps(key(x)), []).append(x)
    pools = [r.sample(v, len(v)) for _, v in sorted(g.items())]
    r.shuffle(pools)
    out = []
    while len(out) < n:
        for p in pools:
            if p and len(out) < n:
                out.append(p.pop())
    return out


def exkey(x):
    return [x["mech"], x["rejects"], [(o["s"], o["op"], o.get("p"), o["m"]) for o in x["ops"] if o["op"] != "step"]]
