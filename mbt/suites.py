"""Turns the behaviours of the smaller models into scenarios."""
import json

import gen
import lib
from lib import *

TOKBYTES = {"<0>": b"\0", "<1>": b"\1", "<255>": b"\xff", "<ue>": "\u00fc".encode(), "<half>": b"\xc3", "<shy>": "\u00ad".encode(),
            "<tab>": b"\t", "<nl>": b"\n", "<q>": b'"'}


VALUES = ("<c>", "<r>", "<p>", "<v>", "<rc>")

# ---------------------------------------------------------------- MessageModel
def message(S, beh, r, suite=None):
    kind = beh["kind"]
    lits = [t if isinstance(t, list) else b(TOKBYTES.get(t, t.encode())) for t in beh["toks"]]
    toks = [t[1:-1] if t in VALUES else x for t, x in zip(beh["toks"], lits)]
    lit = sum(lits, [])
    via = lambda: r.choice(["step", "step", "step64"])
    suite = suite or "msg-" + kind
    val = [fin("outcome")]
    exp = []

    def srv(mech, script=(), regs=None, pre=(), pcb=(), **k):
        ops = [*pre, step(0, dict(b=lit), via()), validation(0)]
        S.add(suite, [cfg(regs or [mech], script, val)], [server(0, mech, pcb)], ops, beh=beh, exp=exp)
    if kind == "plain":
        exp = [[0, dict(ok="ok", bad="fail")[beh["form"]]]] if beh["form"] != "dc" else []
        srv("PLAIN")
    elif kind == "login":
        S.add(suite, [cfg(["LOGIN"], (), val)], [server(0, "LOGIN")],
              [step(0, None), step(0, dict(b=lit), via()), step(0, dict(b=lit[::-1]), via()), validation(0)], beh=beh)
    elif kind == "text":
        srv(r.choice(["ANONYMOUS", "EXTERNAL"]))
    elif kind == "xoauth2":
        e = r.choice([None, "no\u00fc"])
        ops = [step(0, dict(b=lit), via()), step(0, r.choice([None, b""])), validation(0)]
        S.add(suite, [cfg(["XOAUTH2"], [xval(e)], val)], [server(0, "XOAUTH2")], ops, beh=beh)
    elif kind == "oauthbearer":
        e = gen.oauth_error(r) if r.random() < 0.3 else None
        ops = [step(0, dict(b=lit), via()), step(0, r.choice([None, b"\x01"])), validation(0)]
        S.add(suite, [cfg(["OAUTHBEARER"], [oval(e)], val)], [server(0, "OAUTHBEARER")], ops, beh=beh)
    elif kind in ("cfirst", "cfirst-plus"):
        mech = r.choice(PLUS if kind == "cfirst-plus" else SCRAM)
        users = [user(mech, n, "pw", b"salt", 2) for n in ("u", "uu", ",", "=", "u,", "\u00fc")]
        pcb = [["tls-unique", b"data"]] if r.random() < 0.9 else []
        # go on as the user, so that what the server took the message for shows
        ops = [step(0, dict(b=lit), via()),
               step(0, dict(scram="cfinal", of=0, pw=b("pw"), cbdata=b("data") if b"p=tls-unique," in bytes(lit) else []), via()),
               validation(0)]
        S.add(suite, [cfg([mech], [stored(users)], val)], [server(0, mech, pcb)], ops, beh=beh)
    elif kind == "cfinal":
        mech = r.choice(SCRAM + PLUS)
        users = [user(mech, "u", "pw", b"salt", 2)]
        d = [] if mech in SCRAM else b("data")
        first = "n,,n=u,r=" if mech in SCRAM else "p=tls-unique,,n=u,r="
        ops = [step(0, dict(b=b(first + "fyko+d2lbbFgONRv9qkxdawL"))),
               step(0, dict(tokens=toks, of=0, pw=b("pw"), cbdata=d), via()), validation(0)]
        S.add(suite, [cfg([mech], [stored(users)], val)], [server(0, mech, [["tls-unique", b"data"]])], ops, beh=beh)
    elif kind in ("sfirst", "sfinal"):
        mech = r.choice(SCRAM)
        script = [sat("AuthId", "u"), sat("Password", "pw"), act("ScramCachedPassword")]
        ops = [step(0, None)]
        if kind == "sfirst":
            ops += [step(0, dict(tokens=toks, of=0), via()), step(0, dict(scram="sfinal", of=0, pw=b("pw")), via())]
        else:
            ops += [step(0, dict(scram="sfirst", of=0, ext=b("srv"), salt=b("salt"), iter=b("3"))),
                    step(0, dict(tokens=toks, of=0, pw=b("pw")), via())]
        S.add(suite, [cfg([mech], script)], [client(0, [mech])], ops, beh=beh)
    elif kind == "json":
        ops = [step(0, None), step(0, dict(b=lit), via())]
        if beh["form"] in ("ok", "bad"):
            exp = [[0, "ok" if beh["form"] == "ok" else "fail"]] if lit else []
        S.add(suite, [cfg(["OAUTHBEARER"], [sat("OAuthBearerToken", "t"), act("OAuthBearerErrored")])],
              [client(0, ["OAUTHBEARER"])], ops, beh=beh, exp=exp)
    else:
        raise ValueError(kind)


def msgkey(x):
    return [x["kind"], x["form"], x["n"], len(x["toks"])]


# messages that show everything their grammar has
RICH = {
    "plain": [["z", "<0>", "user", "<0>", "pw"], ["<0>", "u", "<0>", "w"]],
    "login": [["user"]], "text": [["tok@en"]],
    "xoauth2": [["user=", "u@x", "<1>", "auth=Bearer ", "to.k=", "<1>", "<1>"]],
    "oauthbearer": [["n,a=z@x,", "<1>", "host=h", "<1>", "port=14", "<1>", "auth=Bearer t=", "<1>", "<1>"], ["n,,", "<1>", "auth=Bearer t", "<1>", "<1>"]],
    "cfirst": [["n,a=z=2Cz,n=u,r=nonce,x=y"], ["y,,n=u,r=fyko+d2lbbFg"], ["n,,n==2C,r=no/nce"]],
    "cfirst-plus": [["p=tls-unique,a=z,n=u,r=nonce"]],
    "cfinal": [["c=", "<c>", ",r=", "<r>", ",x=y,p=", "<p>"], ["c=", "<c>", ",r=", "<r>", ",p=", "<p>"]],
    "sfirst": [["r=", "<rc>", "ext,s=c2FsdA==,i=17,x=y"], ["r=", "<rc>", "e,s=c2FsdHNhbHQ=,i=5"]],
    "sfinal": [["v=", "<v>", ",x=y"], ["v=", "<v>"], ["e=other-error"]],
    "json": [['{"status":"e","scope":"s t","openid-configuration":"c","x":[1,null,{"y":-0.5e1}]}'], ['{ "scope" : null , "status" : "\\u00fc\\n" }']],
}


def everybyte(S, r, kinds, n):
    """Any byte put in, or in the place of another, anywhere"""
    x = []
    for kind in kinds:
        for seed in RICH[kind]:
            parts = []
            for t in seed:
                parts += [t] if t in VALUES else [[y] for y in TOKBYTES.get(t, t.encode())]
            for at in range(len(parts) + 1):
                for v in range(256):
                    x.append((kind, v, parts[:at] + [[v]] + parts[at:]))
                    if at < len(parts) and parts[at] != [v]:
                        x.append((kind, v, parts[:at] + [[v]] + parts[at + 1:]))
    for kind, v, toks in gen.strata(x, n, r, lambda y: y[:2]):
        message(S, dict(kind=kind, toks=toks, form="dc", n=1), r, "byte-" + kind)


# where SCRAM messages can carry more than they need: any attribute there, and any value of one
OPEN = {
    "cfirst": [["n,,n=u,r=nonce,", 0, "=1"], ["n,,n=u,r=nonce,x=", 0], ["n,,", 0, "=1,n=u,r=nonce"], ["n,,n=u,r=nonce,x=y,", 0, "=1,z=,Z=z"]],
    "cfinal": [["c=", "<c>", ",r=", "<r>", ",", 0, "=1,p=", "<p>"], ["c=", "<c>", ",r=", "<r>", ",x=", 0, ",p=", "<p>"],
               ["c=", "<c>", ",r=", "<r>", ",x=y,", 0, "=,z=z,p=", "<p>"]],
    "sfirst": [["r=", "<rc>", "ext,s=c2FsdA==,i=17,", 0, "=1"], ["r=", "<rc>", "ext,s=c2FsdA==,i=17,x=", 0], [0, "=1,r=", "<rc>", "ext,s=c2FsdA==,i=17"],
               ["r=", "<rc>", "ext,s=c2FsdA==,i=17,x=y,", 0, "=,z=z"]],
    "sfinal": [["v=", "<v>", ",", 0, "=1"], ["v=", "<v>", ",x=", 0], ["v=", "<v>", ",x=y,", 0, "=,z=z"]],
}


def attributes(S, r, kinds):
    """Extensions of every name, and of every value of one byte"""
    for kind in kinds:
        for form in OPEN[kind]:
            for v in range(256):
                message(S, dict(kind=kind, toks=[[v] if t == 0 else t for t in form], form="dc", n=1), r, "attr-" + kind)


def onebyte(S, r, n):
    """Honest exchanges, one byte of one message another"""
    for _ in range(n):
        mech = r.choice(SCRAM + PLUS + SIMPLE + ["GSSAPI"])
        cfgs, sess = gen.pair(r, mech, rejects=r.random() < 0.5)
        mu = dict(m=r.choice(["set", "set", "ins", "del"]), at=r.randint(-120, 120), x=r.randrange(256), b=[r.randrange(256)])
        S.add("onebyte", cfgs, sess, [talk(0, 1, r.choice(["step", "step64"]), [dict(at=r.randint(1, 4), mut=[mu])]), validation(1)])


SHORT = [" ", "\n", "\t", "\r\n", "\0", "\1", ",", "=", '"', "{", "}", "{}", "[]", '""', "null", "true", "0", "-1", "ok", "OK", "v=", "e=", "n", "*",
         "{}\n", ".", "\1\1", "n,,", "status"]


def short(S, r, n, mechs=None):
    """Honest exchanges in which one side says next to nothing in the place of a message"""
    mechs = mechs or SCRAM + PLUS + SIMPLE + ["GSSAPI"]
    x = [(m, at, t) for m in mechs for at in (1, 2, 3, 4) for t in SHORT]
    r.shuffle(x)
    while len(x) < n:
        t = r.choice(SHORT) * r.choice([2, 3, 8]) if r.random() < 0.3 else "".join(r.choice(SHORT) for _ in range(r.randint(2, 4)))
        x.append((r.choice(mechs), r.randint(1, 4), t))
    for mech, at, t in x[:n]:
        cfgs, sess = gen.pair(r, mech, rejects=r.random() < 0.9)
        S.add("short", cfgs, sess, [talk(0, 1, r.choice(["step", "step64"]), [dict(at=at, mut=[dict(m="rep", b=b(t))])]), validation(1), validation(0)])


# ---------------------------------------------------------------- SelectModel, ServeModel, ConfigModel
def anyscript(r, mech=None):
    """Answers to everything a client may be asked"""
    return [sat("AuthId", "user"), sat("Password", "pencil"), sat("OAuthBearerToken", "tok"), act("XOAuth2Error"),
            act("OAuthBearerErrored"), sat("GssService", "imap"), sat("Hostname", "h")]


def offer(r, names):
    """The names in any order, some repeated"""
    o = list(names) + [r.choice(names) for _ in range(r.choice([0, 0, 1, 3])) if names]
    r.shuffle(o)
    return o


def select(S, beh, r):
    pref = {m: k for m, k in beh["prefer"][0]} if beh["prefer"] else None
    o = offer(r, beh["offers"])
    c = cfg(beh["regs"], anyscript(r), cb=beh["cb"], prefer=pref)
    pcb = [["tls-exporter", b"d"]]
    # twice, as nothing of an attempt may be left behind
    S.add("select", [c], [client(0, o, pcb), client(0, offer(r, beh["offers"]), pcb)],
          [info(0), step(0, None), info(0), info(1)], beh=beh)


def serve(S, beh, r):
    m, f = beh["sel"], beh["flag"]
    regs = beh["regs"]
    script = [xval(None), oval(None), sat("ChannelBindings", "cbd")]
    base = m.replace("-PLUS", "")
    if f:
        script.append(stored([user(m, "user", "pencil", b"salt", 2)]))
    sess = [server(0, m)]
    cfgs = [cfg(regs, script, [fin(ctx="AuthId")], cb=r.random() < 0.5)]
    ops = [info(0)]
    exp = []
    if beh["res"] == "noshared":
        pass
    elif f:
        hdr = {"n": "n,,", "y": "y,,", "p": "p=tls-unique,,"}[f]
        ops += [step(0, dict(b=b(hdr + "n=user,r=fyko+d2lbbFgONRv9qkxdawL"))),
                step(0, dict(scram="cfinal", of=0, pw=b("pencil"), cbdata=b("cbd") if f == "p" else [])), validation(0)]
        exp = [[0, beh["res"]]]
    elif m in SIMPLE:
        cfgs.append(cfg([m], anyscript(r)))
        sess.append(client(1, [m]))
        ops += [talk(1, 0, r.choice(["step", "step64"])), validation(0)]
        exp = [[0, "ok"], [1, "ok"]]
    else:
        ops += [step(0, r.choice([None, b"x"]), plan=[dict(do="write", b=b("hello")), dict(do="ret", r="finY")])]
        exp = [[0, "ok"]]
    S.add("serve", cfgs, sess, ops, beh=beh, exp=exp)


def config(S, beh, r):
    kind = beh["kind"]
    authz = r.choice(["", gen.plain_name(r), "a,b", "=", "\u00fc", odd_text(r)]) if kind == "cred-authz" else None
    u, w = r.choice([plain_name(r), plain_name(r), "a,b", "u=", "\u00fc", "x y", " u", "u "]), password(r)
    if beh["allowed"] and beh["allowed"][0] in SCRAM:
        w = lib.secret(r)
    if authz:
        authz = lib.another(r, u, authz)
    o = offer(r, beh["offers"])
    if kind.startswith("cred"):
        c = cfg(cred=(authz, u, w))
    else:
        c = cfg(default=kind[0] == "d", static=kind[0] == "s", script=[sat("AuthId", u), sat("Password", w), sat("OAuthBearerToken", "tok"), act("XOAuth2Error")],
                cb=kind.endswith("-cb"))
    started = beh["allowed"]
    regs = started or ["PLAIN"]
    script = [xval(None), oval(None)]
    salt, it = salt_of(r), r.choice([1, 2, 5])
    cfgs, sess = [c], [client(0, o)]
    ops = [info(0)]
    # whichever of the allowed ones is started, a server of that name is there; the others' ops are skipped
    for m in started[:1] if len(started) == 1 and started[0] != "X-BOTH" else []:
        sc = script + ([stored([user(m, u, w, salt, it)])] if m in SCRAM else [])
        cfgs.append(cfg([m], sc, [fin(ctx="AuthId")]))
        sess.append(server(1, m))
        ops += [talk(0, 1, r.choice(["step", "step64", "mix"])), validation(1)]
    exp = [[0, "ok"], [1, "ok"]] if len(sess) == 2 and not badprep(started[0], u, w, authz) else []
    # as a server
    sess.append(server(0, r.choice(beh["offers"] or ["PLAIN"])))
    ops.append(info(len(sess) - 1))
    if kind[0] == "s":      # everything that was compiled in
        for m in r.sample(STATIC, 3):
            sess += [client(0, offer(r, [m] + r.sample(ALLMECHS, r.randint(0, 4)))), server(0, m)]
            ops += [info(len(sess) - 2), info(len(sess) - 1)]
    S.add("config", cfgs, sess, ops, beh=beh, exp=exp)


def badprep(mech, u, w, authz):
    """May these credentials be refused?"""
    return (mech in SCRAM and authz == "") or mech == "PLAIN" and not (u.isascii() and w.isascii())


# ---------------------------------------------------------------- WriterModel
def writer(S, beh, r):
    n, w = beh["len"], [int(x) if x.isdigit() else x for x in beh["sched"]]
    via = "step64" if n == 8 else "step"
    c = cfg(["PLAIN"], [sat("AuthId", "u"), sat("Password", "w")] + ([sat("AuthzId", "z")] if n in (5, 8) else []))
    S.add("writer", [c], [client(0, ["PLAIN"])], [step(0, None, via, w=w)], beh=beh, exp=[[0, beh["res"].rstrip("!")]])


def writers(S, r, n):
    """Every message of every mechanism, in pieces, and failing anywhere"""
    for _ in range(n):
        mech = r.choice(SCRAM + PLUS + SIMPLE + SIMPLE + ["GSSAPI"])
        cfgs, sess = gen.pair(r, mech, rejects=r.random() < 0.5)
        if mech == "OAUTHBEARER" and r.random() < 0.5:
            cfgs[0]["script"] = [o for o in cfgs[0]["script"] if o["p"] != "OAuthBearerKV"] + [kv([("k" * r.randint(1, 9), "v" * r.randint(0, 40)) for _ in range(r.randint(1, 6))])]
        inj = []
        for at in range(5):
            k = r.random()
            if k < 0.3:
                continue
            w = [x for _ in range(r.randint(0, 8)) for x in [r.choice([1, 2, 3, 4, 5, 7, 16, 30, 64, "int"])]]
            if k > 0.8:
                w = w + [r.choice(["err", "zero", "full"])]
            inj.append(dict(at=at, w=w))
        S.add("writers", cfgs, sess, [talk(0, 1, r.choice(["step", "step64", "mix"]), inj), validation(1)])


# ---------------------------------------------------------------- NameModel
def names(S, behs, r, per=60):
    xs = [x["name"] for x in behs]
    extra = [[k] for k in range(256)] + [b("SCRAM-SHA-256-PLUS"), b("PLAIN_"), b("A" * 20), b("A" * 21), b("A" * 300), b("9"), b("-"), b("_")]
    extra += [b(x) for x in ("PLAIN\n", " PLAIN", "PLAIN ", "plain", "Plain", "PL\u00c4IN", "A\0B", "A,B")]
    xs = xs + extra
    for k in range(0, len(xs), per):
        S.add("mechname", [], [], [], names=xs[k:k + per], pairs=[])
    valid = [bytes(x) for x in xs if x and all(65 <= y <= 90 or 48 <= y <= 57 or y in (45, 95) for y in x)]
    pairs = []
    for a in valid:
        for c in [a, a[:-1], a + b"A", a[1:], a.lower(), a + b"\0", bytes([a[0] ^ 1]) + a[1:], a[:-1] + bytes([a[-1] ^ 1]), b"", a[::-1],
                  r.choice(valid), bytes([a[0] ^ 0x80]) + a[1:], a + a]:
            pairs.append([b(a), b(c)])
    for k in range(0, len(pairs), 150):
        S.add("mechname", [], [], [], names=[], pairs=pairs[k:k + 150])


def randnames(S, r, n, per=60):
    pool = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
    xs = []
    for _ in range(n):
        x = bytearray(r.choice(pool) for _ in range(r.choice([1, 2, 5, 19, 20, 21, 64, 200])))
        for _ in range(r.choice([0, 0, 1, 2])):
            x[r.randrange(len(x))] = r.choice([r.randrange(256), ord("a"), 0, 0x2e, 0x60, 0x5b, 0x40, 0x2f, 0x3a])
        xs.append(b(bytes(x)))
    for k in range(0, len(xs), per):
        S.add("mechname", [], [], [], names=xs[k:k + per], pairs=[])


# ---------------------------------------------------------------- Base64Model
def base64(S, behs, r, per=12):
    """Wrong texts don't harm; the first right one is taken"""
    bad = [x["s"] for x in behs if not x["ok"]]
    good = [x["s"] for x in behs if x["ok"]]
    r.shuffle(bad)
    r.shuffle(good)
    k = 0
    while k < len(bad) or good:
        part = bad[k:k + per]
        k += per
        g = good.pop() if good else b("QUJD")
        mech = r.choice(["ANONYMOUS", "EXTERNAL", "PLAIN", "LOGIN", "XOAUTH2"])
        ops = [step(0, None, "step64")] if mech == "LOGIN" else []
        ops += [step(0, dict(b=x), "step64", raw64=True) for x in part]
        ops += [step(0, dict(b=g), "step64", raw64=True), validation(0)]
        S.add("base64", [cfg([mech], [xval(None)], [fin("v")])], [server(0, mech)], ops)


# ---------------------------------------------------------------- SecretModel
def secret(S, beh, r):
    mech = r.choice(SCRAM + PLUS)
    a = alg_of(mech)
    pw = password(r)
    wrong = pw + "x"
    salt, it = salt_of(r), r.choice([1, 2, 10])
    sp, wsp = salted(a, pw.encode(), salt, it), salted(a, wrong.encode(), salt, it)
    P = "ScramCachedPassword"
    script = [sat("AuthId", "user")]
    c, s, p, of = beh["c"], beh["s"], beh["p"], beh["offer"]
    n = hlen(mech)
    offered = []
    if c == "right":
        offered = [cached(*keys(a, sp))]
    elif c == "wrong":
        offered = [cached(*keys(a, wsp))]
    elif c == "size":
        ck, sk = keys(a, sp)
        offered = [r.choice([cached(ck[:-1], sk), cached(ck, sk[:-1]), cached(b"", b""), cached(ck + b"\0", sk), cached(ck, sk + b"\0"),
                             cached(ck[:1], sk), cached(ck, b""), cached(b"", sk), cached(ck * 2, sk * 2)])]
    elif c == "novalue":
        offered = [errp(P, "novalue")]
    elif c == "error":
        offered = [errp(P, "boxed", "cached")]
    if c in ("right", "wrong", "size", "no"):
        if of == "take":
            offered.append(act(P))
        elif of == "error" and c != "no":
            offered.append(errp(P, r.choice(["boxed", "cb"]), "offer"))
        elif of == "none" and c != "no":
            offered.append(errp(P, "novalue"))
    if of == "take" and r.random() < 0.3:
        offered.append(act(P))
    salts = {"no": [], "right": [sat("SaltedPassword", sp)], "wrong": [sat("SaltedPassword", wsp)], "size": [sat("SaltedPassword", b"")],
             "novalue": [errp("SaltedPassword", "novalue")], "error": [errp("SaltedPassword", "boxed", "salted")]}[s]
    plain = {"no": [], "right": [sat("Password", pw)], "wrong": [sat("Password", wrong)], "novalue": [errp("Password", "novalue")],
             "error": [errp("Password", "boxed", "plain")]}[p]
    parts = [offered, salts, plain]
    r.shuffle(parts)
    script += sum(parts, [])
    d = b"data"
    cc = cfg([mech], script, cb=mech in PLUS)
    sc = cfg([mech], [stored([user(mech, "user", pw, salt, it)])], [fin(ctx="AuthId")])
    pcb = [["tls-unique", d]] if mech in PLUS else []
    exp = [[1, "ok"], [0, "ok"]] if beh["res"] == "ok" else [[1, "fail"]] if beh["used"] else [[0, "fail"], [1, "open"]]
    S.add("secret", [cc, sc], [client(0, [mech], pcb), server(1, mech, pcb)],
          [talk(0, 1, r.choice(["step", "step64"])), validation(1)], beh=beh, exp=exp)


# ---------------------------------------------------------------- RequestModel and the framework
def item(do, p, v=b"", cl=None, prov=((), ())):
    return dict(do=do, p=p, v=b(v), cl=[cl] if cl else [], prov=[[[n, b(x)] for n, x in q] for q in prov])


def request(S, beh, r):
    side = r.choice(["client", "server"])
    cl = [beh["cl"][0]] if beh["cl"] and beh["kind"] != "action" else []
    first = dict(do=beh["kind"], p="Iterations", v=b("77"), cl=cl, prov=[[], []])
    # afterwards a request for something else: nothing of the first one is left
    second = item(r.choice(["need", "maybe", "action"]), "AuthId", "act", prov=((("Hostname", "h"),), ()))
    c = cfg(["X-CF"], beh["script"], [fin("x")])
    sess = [client(0, ["X-CF"])] if side == "client" else [server(0, "X-CF")]
    ops = [step(0, None, r.choice(["step", "step64"]), plan=[first]), step(0, r.choice([None, b"in"]), plan=[second, first])]
    fails = beh["fails"]
    S.add("request", [c], sess, ops, beh=beh, exp=[[0, "fail"]] if fails else [])


PROPS = ["AuthId", "AuthzId", "Hostname", "Realm", "Salt", "Password", "Iterations"]


def provs(r):
    def one():
        out = []
        for n in r.sample(PROPS, r.choice([0, 1, 2, 3, 7])):
            out.append([n, b(str(r.randint(0, 9999)) if n == "Iterations" else r.choice(["", "v1", "v2", "\u00fc", "x" * 30])
                             if n not in ("Salt", "Password") else bytes(r.randrange(256) for _ in range(r.randint(0, 6))))])
        return out
    return [one(), one()]


def randscript(r, n=4):
    out = []
    for _ in range(r.randint(0, n)):
        k = r.random()
        q = r.random() < 0.7
        if k < 0.5:
            p = r.choice(["AuthId", "AuthzId", "Password", "Iterations", "Hostname", "ChannelBindings"])
            out.append(sat(p, str(r.randint(0, 99)) if p == "Iterations" else r.choice(["", "a", "b"]), q=q))
        elif k < 0.65:
            f = fault(r.choice(["boxed", "novalue", "nocb", "mutual"]), "f") if r.random() < 0.5 else None
            out.append(satw("Iterations", str(r.randint(0, 99)), q=True if f else q, f=f))
        elif k < 0.8:
            out.append(act(r.choice(["AuthId", "Password", "Iterations", "Hostname"])))
        elif k < 0.9:
            out.append(errp(r.choice(["AuthId", "AuthzId", "Password", "Iterations", "ChannelBindings"]),
                            r.choice(["novalue", "boxed", "nocb", "cb", "mutual"]), "name"))
        elif k < 0.95:
            out.append(err(r.choice(["novalue", "boxed", "nocb", "mutual", "cb"]), "all"))
        else:
            out.append(ret())
    return out


def randplan(r, side):
    out = []
    if r.random() < 0.3:
        out.append(dict(do="input"))
    for _ in range(r.randint(1, 4)):
        k = r.random()
        pv = provs(r)
        if k < 0.65:
            do = r.choice(["need", "maybe", "action"])
            if do == "action":
                p = r.choice(["AuthId", "Password", "Iterations"])
            else:
                p = r.choice(["AuthId", "AuthzId", "Password", "Iterations"])
            cl = fault(r.choice(["boxed", "novalue", "mutual"]), "c") if do != "action" and r.random() < 0.25 else None
            out.append(dict(do=do, p=p, v=b(str(r.randint(1, 999)) if p == "Iterations" else r.choice(["", "act", "x"])),
                            cl=[cl] if cl else [], prov=pv))
        elif k < 0.8:
            out.append(dict(do="cbdata", name=b(r.choice(["tls-unique", "tls-exporter", "x"])), must=r.random() < 0.5, prov=[pv[0], []]))
        elif k < 0.9:
            out.append(dict(do="write", b=b(r.choice(["", "m", "message"]))))
        elif side == "server":
            out.append(dict(do="validate", prov=pv))
    if r.random() < 0.2:
        out.append(dict(do="ret", r=r.choice(["run", "finY", "finN"])))
    return out


def framework(S, r, n):
    """Random plans against random scripts"""
    for _ in range(n):
        mech = r.choice(["X-CF", "X-SF", "X-LOW"])
        side = r.choice(["client", "server"])
        val = gen.VALS[r.choice(list(gen.VALS))]
        pcb = [[x, r.choice([b"", b"d1", b"d2"])] for x in ("tls-unique", "tls-exporter") if r.random() < 0.4]
        c = cfg([mech], randscript(r), val)
        sess = [client(0, [mech], pcb)] if side == "client" else [server(0, mech, pcb, val=r.choice(["A", "A", "N"]))]
        ops = []
        for _ in range(r.randint(1, 4)):
            ops.append(step(0, r.choice([None, b"", b"input"]), r.choice(["step", "step64"]), plan=randplan(r, side)))
            if r.random() < 0.2:
                ops.append(r.choice([info, has, enc, dec])(0))
        if sess[0]["val"] == "A":
            ops += [validation(0), validation(0)]
        S.add("framework", [c], sess, ops)


# ---------------------------------------------------------------- ShareModel
def share(S, beh, r, steps):
    n = len(beh["fate"])
    if steps == 5:
        mechs = [r.choice(SCRAM + PLUS[1:2] + ["LOGIN"]) for _ in range(n)]
        if r.random() < 0.7:
            mechs = [r.choice(SCRAM)] * n      # contend for one configuration
    else:
        mechs = [r.choice(["PLAIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER"]) for _ in range(n)]
        if r.random() < 0.5:
            mechs = [mechs[0]] * n
    sharedclient = len(set(mechs)) == 1 and r.random() < 0.4
    users = [(plain_name(r) + str(x), password(r), salt_of(r, [8]), r.choice([1, 2, 3])) for x in range(n)]
    cfgs, sess = [], []
    regs, script = [], [xval(None), oval(None)]
    stores = {}
    for x, mm in enumerate(mechs):
        if mm not in regs:
            regs.append(mm)
        u = users[0] if sharedclient else users[x]
        if mm in SCRAM + PLUS:
            stores.setdefault(mm, []).append(user(mm, u[0], u[1], u[2], u[3]))
    # a callback can't tell the mechanisms apart: one server configuration for each set of keys
    servers = {}
    for x, mm in enumerate(mechs):
        if mm not in servers:
            sc = [xval(None), oval(None)] + ([stored(stores[mm])] if mm in stores else [])
            r.shuffle(sc)
            servers[mm] = len(cfgs)
            cfgs.append(cfg([mm], sc, [fin(ctx={"ANONYMOUS": "AnonymousToken", "EXTERNAL": "AuthzId", "OAUTHBEARER": "OAuthBearerToken"}.get(mm, "AuthId"))]))
    shared = None
    for x, mm in enumerate(mechs):
        u = users[0] if sharedclient else users[x]
        if sharedclient and shared is not None:
            ci = shared
        else:
            ci = shared = len(cfgs)
            cfgs.append(cfg([mm], [sat("AuthId", u[0]), sat("Password", u[1]), sat("OAuthBearerToken", "tok%d" % x), sat("AnonymousToken", "anon%d" % x),
                                   sat("AuthzId", "z%d" % x) if mm in ("EXTERNAL", "OAUTHBEARER") else act("AuthId")], cb=mm in PLUS))
        pcb = [["tls-exporter", b"d%d" % x]] if mm in PLUS else []
        sess += [client(ci, [mm], pcb), server(servers[mm], mm, pcb)]
    pos = [0] * n
    ops = []
    for x, what in beh["order"]:
        x -= 1
        c, v = 2 * x, 2 * x + 1
        mm = mechs[x]
        first = v if mm == "LOGIN" else c
        j = first if pos[x] % 2 == 0 else (c + v - first)
        other = c + v - j
        if what == "leave":
            continue
        src = None if pos[x] == 0 else dict(last=other)
        if what == "spoil":
            src = r.choice([dict(b=b(r.choice(["", "garbage", "\xff\0"]))), dict(last=other, mut=[dict(m="flip", at=r.randint(0, 60), x=r.choice([1, 64, 128]))])])
        ops.append(step(j, src, r.choice(["step", "step", "step64"])))
        pos[x] += 1
    for x in range(n):
        ops += [validation(2 * x + 1)]
    exp = []
    for x, f in enumerate(beh["fate"]):
        if f == "ok":
            exp += [[2 * x, "ok" if mechs[x] not in ("XOAUTH2", "OAUTHBEARER") else "open"], [2 * x + 1, "ok"]]
    S.add("share", cfgs, sess, ops, beh=beh, exp=exp)


def threads(S, r, n, groups=6):
    """Exchanges on several threads at once"""
    for _ in range(n):
        mech = r.choice(SCRAM * 2 + ["LOGIN", "PLAIN", "XOAUTH2", "OAUTHBEARER"])
        users = [(plain_name(r) + str(x), password(r), salt_of(r, [8]), r.choice([1, 2, 3])) for x in range(groups)]
        sc = [xval(None), oval(None), stored([user(mech, *u) for u in users])] if mech in SCRAM else [xval(None), oval(None)]
        cfgs = [cfg([mech], sc, [fin(ctx="AuthId" if mech != "OAUTHBEARER" else "OAuthBearerToken")])]
        sess, ops, exp = [], [], []
        shared = r.random() < 0.4
        for x, u in enumerate(users):
            if x == 0 or not shared:
                cfgs.append(cfg([mech], [sat("AuthId", u[0]), sat("Password", u[1]), sat("OAuthBearerToken", "tok%d" % x)]))
            for _ in range(2):
                k = len(sess)
                sess += [client(len(cfgs) - 1, [mech], g=x), server(0, mech, g=x)]
                fine = r.random() < 0.7
                # the thread's talks follow one another
                ops += [talk(k, k + 1, r.choice(["step", "step64"]), [] if fine else [dict(at=r.randint(1, 3), mut=[dict(m="flip", at=3, x=1)])]),
                        validation(k + 1)]
                if fine:
                    exp += [[k, "ok"], [k + 1, "ok"]]
        S.add("threads", cfgs, sess, ops, exp=exp)


# ---------------------------------------------------------------- garbage
DEEP = [b"[" * 20000, b"{\"status\":" * 3000, b"{" * 100000, b"{\"status\":\"a\",\"x\":" + b"[" * 5000 + b"]" * 5000 + b"}",
        b"{\"status\":\"" + b"\\u" * 50 + b"\"}", b"{\"status\":1e999999}", b"-" * 100]


def garbage(r, mech):
    k = r.random()
    if k < 0.08:
        return None
    if k < 0.15:
        return dict(b=b(r.choice(DEEP)))
    if k < 0.35:
        return dict(b=[r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 5, 17, 100, 1000]))])
    if k < 0.6:
        parts = ["n,,", "y,,", "p=", "p=tls-unique,,", "n=", "r=", "s=", "i=", "c=", "p=", "v=", "e=", "m=", "a=", ",", "=", "=2", "=2C", "biws", "AAAA", "4294967295"[:4], "-1",
                 "0", "\0", "\x01", "user=", "auth=Bearer ", "auth=", "{", "}", "\"", "status", ":", "\\u00", "\u00fc", "\u20ac", "99999999999999999999", " ", "\n"]
        return dict(b=b("".join(r.choice(parts) for _ in range(r.randint(0, 12)))))
    return "mutate"


def prooflens(S, r, every=1):
    """Proofs and signatures of any length, the first octets the right ones"""
    for mech in SCRAM:
        n = hlen(mech)
        for k in range(0, 2 * n + 2, every):
            x = dict(m="trunc", at=k) if k < n else dict(m="app", b=[r.randrange(256) for _ in range(k - n)])
            cfgs, sess = [cfg([mech], [sat("AuthId", "u"), sat("Password", "pw")]), cfg([mech], [stored([user(mech, "u", "pw", b"salt", 2)])], [fin("v")])], \
                [client(0, [mech]), server(1, mech)]
            side = r.random() < 0.5
            ops = [step(0, None), step(1, dict(last=0)), step(0, dict(last=1))]
            if side:
                ops += [step(1, dict(last=0, mut=[dict(x, m={"trunc": "attrcut64", "app": "attrapp64"}[x["m"]], k="p")] if k != n else []), r.choice(["step", "step64"])), validation(1)]
            else:
                ops += [step(1, dict(last=0)), step(0, dict(last=1, mut=[dict(x, m={"trunc": "attrcut64", "app": "attrapp64"}[x["m"]], k="v")] if k != n else []), r.choice(["step", "step64"]))]
            S.add("prooflens", cfgs, sess, ops, exp=[[1 if side else 0, "ok" if k == n else "fail"]])


def emptied(S, r, n):
    """An empty message in place of one of an exchange, by either way in"""
    for _ in range(n):
        mech = r.choice(SCRAM + PLUS + SIMPLE * 2 + ["GSSAPI"])
        cfgs, sess = gen.pair(r, mech, rejects=r.random() < 0.5)
        ops, cur = [], 1 if mech == "LOGIN" else 0
        at = r.randint(0, 4)
        for k in range(5):
            x = None if k == 0 else dict(last=1 - cur)
            if k == at:
                ops.append(step(cur, b"", r.choice(["step", "step64", "step64"])))
            else:
                ops.append(step(cur, x, r.choice(["step", "step64"])))
            cur = 1 - cur
        S.add("emptied", cfgs, sess, ops + [validation(1)])


def randmuts(r):
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        m = r.choice(["flip", "trunc", "app", "pre", "del", "ins", "attr", "attrapp", "attrtrunc", "attrflip", "dropattr", "dupattr", "swapattr"])
        x = dict(m=m, at=r.randint(-60, 120), x=r.choice([1, 2, 4, 32, 64, 128, 255]), k=r.choice("nrsicpvamex"))
        x["b"] = b(r.choice(["", ",", "=", "\0", "\x01", "a", "\u00fc", "=2C", "m=x", ",,,", "x" * 500]) if r.random() < 0.8 else bytes([r.randrange(128, 256)]))
        out.append(x)
    return out


def robust(S, beh, r):
    """The exchange of a behaviour up to some point, then anything"""
    mech = beh["mech"] if beh["mech"] != "SCRAM" else r.choice(SCRAM + SCRAM + PLUS)
    cfgs, sess = gen.pair(r, mech, val=[fin("v")], rejects=beh["rejects"])
    if r.random() < 0.2:
        cfgs[r.randint(0, 1)]["script"] = randscript(r)
    n = len(beh["ops"])
    stop = r.randint(0, n)
    ops = []
    for o in beh["ops"][:stop]:
        j = 0 if o["s"] == "c" else 1
        ops.append(step(j, dict(last=1 - j) if o["m"] == "full" else None, r.choice(["step", "step64"])))
    for _ in range(r.randint(1, 4)):
        j = r.randint(0, 1)
        g = garbage(r, mech)
        if g == "mutate":
            g = dict(last=r.choice([1 - j, 1 - j, j]), mut=randmuts(r))
            if mech in SCRAM and r.random() < 0.3:
                g = dict(scram=r.choice(["cfinal", "sfinal", "sfirst"]), of=r.randint(0, 1), pw=b("pencil"), salt=b("s"), iter=b("3"), ext=b("x"), pmut=randmuts(r)[:1] if r.random() < 0.5 else [],
                         mut=randmuts(r) if r.random() < 0.6 else [])
                if g["scram"] != "sfirst":
                    g["iter"] = 3
        ops.append(step(j, g, r.choice(["step", "step", "step64"])))
        if r.random() < 0.2:
            ops.append(r.choice([enc, dec, has, info])(j))
    ops += [enc(0), dec(1), has(0), info(1)]
    S.add("robust", cfgs, sess, ops)


# ---------------------------------------------------------------- BindModel
def bindings(S, beh, r):
    mech = r.choice(PLUS)
    # the application's own type, which may be easily taken for another
    own = r.choice(["x-own.1", "TLS-EXPORTER", "tls-UNIQUE", "tls-uniqu", "tls-exporter.", "u" * 65, "x"])
    beh = json.loads(json.dumps(beh).replace("x-own.1", own))
    data = {t: t.encode() + b"-data" for t in ("tls-exporter", "tls-unique", own)}
    mine = data[beh["type"]] if beh["source"] == "proto" else b"cb-data"
    if r.random() < 0.3:      # empty data is data
        data[beh["type"]] = mine = bytes(r.randrange(256) for _ in range(32))
        if beh["source"] == "cback":
            data[beh["type"]] = b"?"
    theirs = {"same": mine, "other": mine[:-1] + bytes([mine[-1] ^ r.choice([1, 128])]), "short": mine[:-1], "long": mine + b"\0", "empty": b""}
    c = [sat("AuthId", "user"), sat("Password", "pencil")]
    if beh["ovr"] != "none":
        c.append(sat("OverrideCBType", beh["ovr"]))
    if beh["cback"]:
        c.append(sat("ChannelBindings", mine if beh["source"] == "cback" else b"unused"))
    s = [stored([user(mech, "user", "pencil", b"salt", 2)])]
    if beh["scback"] != "none":
        s.append(sat("ChannelBindings", theirs[beh["scback"]]))
    cpcb = [[t, data[t]] for t in beh["proto"]]
    r.shuffle(cpcb)
    spcb = [[t, b"else"] for t in data if t != beh["type"] and r.random() < 0.5]
    if beh["sproto"] != "none":
        spcb.append([beh["type"], theirs[beh["sproto"]]])
    r.shuffle(spcb)
    exp = {"ok": [[0, "ok"], [1, "ok"]], "client": [[0, "fail"], [1, "open"]], "server": [[1, "fail"]]}[beh["res"]]
    S.add("bindings", [cfg([mech], c, cb=True), cfg(r.choice([[mech], [mech.replace("-PLUS", ""), mech]]), s, [fin("v")])],
          [client(0, [mech], cpcb), server(1, mech, spcb)], [talk(0, 1, r.choice(["step", "step64"])), validation(1)], beh=beh, exp=exp)


# ---------------------------------------------------------------- no input, in every state
def missing(S, beh, r):
    mech = beh["mech"] if beh["mech"] != "SCRAM" else r.choice(SCRAM + SCRAM + PLUS)
    cfgs, sess = gen.pair(r, mech, rejects=beh["rejects"])
    ops = []
    clean = True
    for o in beh["ops"]:
        j = 0 if o["s"] == "c" else 1
        # asking without the message is harmless where one is needed: several times
        harmless = mech in SCRAM + PLUS or (mech.startswith("GSSAPI") and not (mech == "GSSAPI2" and j == 1 and o is beh["ops"][3])) or (j == 1 and mech in ("PLAIN",)) or (j == 1 and mech == "LOGIN" and o["m"] == "full") \
            or (j == 1 and mech in ("XOAUTH2", "OAUTHBEARER") and o["m"] == "full" and not any(q["s"] == "s" for q in beh["ops"][:beh["ops"].index(o)]))
        if o["m"] == "full" and harmless:
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                ops.append(step(j, None, r.choice(["step", "step64"]), **({"w": r.choice([["err"], [1, "err"]])} if r.random() < 0.2 else {})))
        elif o["m"] == "full" and r.random() < 0.15:
            ops.append(step(j, r.choice([None, b""]), r.choice(["step", "step64"])))      # an empty message
            clean = False
        ops.append(step(j, dict(last=1 - j) if o["m"] == "full" else None, r.choice(["step", "step64"])))
    ops += [validation(1), validation(0)]
    S.add("missing", cfgs, sess, ops, beh=beh, exp=[[0, beh["client"]], [1, beh["server"]]] if clean else [])


# ---------------------------------------------------------------- selection: larger configurations and offers
ALLMECHS = SCRAM + PLUS + SIMPLE + ["GSSAPI", "X-CF", "X-SF", "X-CLIENTONLY", "X-SERVERONLY", "X-LOW", "PLAI", "PLAIN-PLUS", "X-CB", "X-NOSTART", "X-BOTH"]


STATIC = SCRAM + SIMPLE + ["GSSAPI", "X-CF", "X-SF", "X-CLIENTONLY", "X-SERVERONLY", "X-BOTH"]


def downgrade(S, r, n):
    """Offers of SCRAM in any order, with repetitions: what the client says of channel bindings"""
    for _ in range(n):
        base = r.choice(SCRAM)
        regs = [base] + r.sample(SCRAM + PLUS, r.randint(0, 3))
        regs = r.sample(sorted(set(regs)), len(set(regs)))
        names = [base, base + "-PLUS"] * 3 + SCRAM + PLUS + ["PLAIN", base[:-1], "X-LOW"]
        o = [r.choice(names) for _ in range(r.choice([1, 2, 3, 3, 4, 6, 10]))]
        c = cfg(regs, anyscript(r), cb=r.random() < 0.9)
        pcb = [["tls-exporter", b"d"]]
        sess = [client(0, o, pcb), client(0, o[::-1], pcb), client(0, r.sample(o, len(o)), pcb), client(0, sorted(set(o)), pcb)]
        S.add("downgrade", [c], sess, [step(k, None) for k in range(4)])


def selects(S, r, n):
    for _ in range(n):
        regs = r.sample(ALLMECHS, r.randint(0, len(ALLMECHS)))
        pref = None
        if r.random() < 0.5:
            pref = {m: r.choice([-1, 0, 1, 5, 5, 9, 200, -7]) for m in r.sample(ALLMECHS, r.randint(0, len(ALLMECHS)))}
        c = cfg(regs, anyscript(r), cb=r.random() < 0.5, prefer=pref, static=r.random() < 0.15)
        pcb = [["tls-unique", b"d"]]
        names = ALLMECHS + ["UNKNOWN", "PLAINX", "SCRAM-SHA-25", "SCRAM-SHA-2566", "-", "A" * 20, "X", "SCRAM-SHA-1-PLU", "SCRAM"]
        sess = [client(0, [r.choice(names) for _ in range(r.choice([0, 1, 2, 3, 8, 30]))], pcb) for _ in range(4)]
        sess += [server(0, r.choice(names), pcb) for _ in range(2)]
        S.add("selects", [c], sess, [x for k in range(6) for x in (info(k),)] + [step(k, None) for k in range(4)])


# ---------------------------------------------------------------- OAuth with any data
def anybytes(r):
    return bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 10, 40])))


def oauth(S, r, n):
    for _ in range(n):
        mech = r.choice(["XOAUTH2", "OAUTHBEARER"])
        rej = r.random() < 0.7
        cfgs, sess = gen.pair(r, mech, rejects=rej)
        k = r.random()
        if k < 0.2:      # the client does not handle the error, or its callback fails
            cfgs[0]["script"] = [o for o in cfgs[0]["script"] if o["op"] != "act"] + (
                [errp({"XOAUTH2": "XOAuth2Error", "OAUTHBEARER": "OAuthBearerErrored"}[mech], r.choice(["boxed", "novalue", "mutual"]), "seen")]
                if r.random() < 0.5 else [])
        inj = []
        if 0.2 < k < 0.4 and mech == "OAUTHBEARER":
            inj = [dict(at=2, mut=randmuts(r))]
        elif 0.4 < k < 0.5:
            inj = [dict(at=0, mut=randmuts(r))]
        elif rej and k > 0.7:      # what the answer to an error says doesn't matter
            inj = [dict(at=3, mut=r.choice([[dict(m="trunc", at=0)], []]) + [dict(m="app", b=r.choice([[1], [1, 1], [0], b(anybytes(r)), b("auth=Bearer x\x01\x01"), b(anybytes(r) * 9)]))])]
        S.add("oauth", cfgs, sess, [talk(0, 1, r.choice(["step", "step64", "mix"]), inj), validation(1), validation(0)])


# ---------------------------------------------------------------- no security layer
def layers(S, r, n):
    for _ in range(n):
        mech = r.choice(SCRAM + PLUS + SIMPLE + ["X-CF", "GSSAPI"])
        if mech == "X-CF":
            cfgs, sess = [cfg([mech], [], [fin("v")])], [client(0, [mech]), server(0, mech)]
            ops = []
            for j in (0, 1):
                ops += [has(j), enc(j), step(j, None, plan=[dict(do="write", b=b("m")), dict(do="ret", r=r.choice(["run", "finY", "finN"]))]), dec(j), has(j)]
        else:
            cfgs, sess = gen.pair(r, mech, rejects=r.random() < 0.3)
            if r.random() < 0.2:
                cfgs[1]["script"] = []      # fails
            d = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 4, 100, 5000])))
            inj = [dict(at=k, ops=[dict(r.choice([enc, dec])(0, d), w=r.choice([[], [1, 1], ["err"], ["zero"]])), has(0)]) for k in range(5)]
            ops = [enc(0, d), dec(1, d), talk(0, 1, r.choice(["step", "step64"]), inj), enc(0, d), enc(1, d), dec(0, d), dec(1, d), has(0), has(1),
                   validation(1), enc(1, d), has(1)]
        S.add("layers", cfgs, sess, ops)


# ---------------------------------------------------------------- replays
def replaykey(x):
    """What is delivered to whom out of order"""
    odd = [(to, frm, same != me) for to, me, frm, same, k in x["log"] if to != "start" and (same != me or frm == to)]
    return [sorted(odd), x["client"], x["server"], x["user"][1]]


def replay(S, x, r):
    n = len(x["user"])
    base = r.choice(SCRAM)
    mech = base + r.choice(["", "", "", "-PLUS"])
    plus = mech != base
    acc = {u: (plain_name(r) + u, password(r) + u, salt_of(r, [4, 16]), r.choice([1, 2, 7])) for u in "ab"}
    pcb = [["tls-exporter", b"d" * 16]] if plus else []
    cfgs, sess, ops = [], [], []
    one = r.random() < 0.5
    mine = {}
    for j in range(n):
        u = x["user"][j]
        if not (one and u in mine):
            mine[u] = len(cfgs)
            cfgs.append(cfg([mech], [sat("AuthId", acc[u][0]), sat("Password", acc[u][1])], cb=plus))
        sess.append(client(mine[u], [mech], pcb))
    k = r.random() < 0.6
    for j in range(n):
        if j == 0 or not k:
            cfgs.append(cfg([mech], [stored([user(mech, *acc[u]) for u in r.sample("ab", 2)])], [fin(ctx="AuthId")], cb=plus))
        sess.append(server(len(cfgs) - 1, mech, pcb))
    pos = lambda side, j: j - 1 + (n if side == "S" else 0)
    for to, me, frm, j, i in x["log"]:
        via = r.choice(["step", "step", "step64"])
        if to == "start":
            ops.append(step(me - 1, None, via))
        else:
            ops.append(step(pos(to, me), dict(rec=[pos(frm, j), i]), via))
    ops += [validation(n + j) for j in range(n)]
    S.add("replay", cfgs, sess, ops, exp=[[j, x["client"][j]] for j in range(n)] + [[n + j, x["server"][j]] for j in range(n)])


def unknown(S, r, n):
    """Servers asked about users they don't know"""
    for _ in range(n):
        mech = r.choice(SCRAM)
        c = cfg([mech], [sat("AuthId", plain_name(r)), sat("Password", "x")])
        s = cfg([mech], [stored([user(mech, "other", "x", b"abcdefgh", 1)])] if r.random() < 0.5 else [], [fin(ctx="AuthId")])
        sess, ops = [], []
        for k in range(4):
            sess += [client(0, [mech]), server(1, mech)]
            ops += [step(2 * k, None), step(2 * k + 1, dict(rec=[2 * k, 0]))]
        S.add("unknown", [c, s], sess, ops)


def samefirst(S, r, n):
    """One message, to one session after the other: what a server adds has nothing to do with what the client sent"""
    pool = [chr(c) for c in range(33, 127) if c != 44]
    for _ in range(n):
        mech = r.choice(SCRAM)
        nonce = "".join(r.choice(pool) for _ in range(r.choice([1, 3, 6, 23, 24, 25, 32, 48, 64, 65, 100, 128, 129, 256, 257, 1024, 3000])))
        u = r.choice(["user", "other", "\u00fc", "a=2Cb"])
        known = r.random() < 0.5
        s = cfg([mech], [stored([user(mech, u.replace("=2C", ","), "x", b"abcdefgh", 1)])] if known else [], [fin(ctx="AuthId")])
        first = step(0, dict(b=b("n,,n=%s,r=%s%s" % (u, nonce, r.choice(["", ",x=y"])))))
        ops = [dict(first, s=k, via=r.choice(["step", "step64"])) for k in range(5)]
        if known:
            ops += [step(0, dict(scram="cfinal", of=0, pw=b("x"))), validation(0)]
        S.add("samefirst", [s], [server(0, mech) for _ in range(5)], ops)


# ---------------------------------------------------------------- round trips
def roundtrip(S, x, r, inj=(), suite="roundtrip"):
    mech = x["mech"]
    if mech == "SCRAM-SHA-256":
        mech = r.choice(SCRAM + PLUS)
    cs, ss = [], [xval(None), oval(None)]
    o = lambda v: v[0] if v else None
    if x["z"]:
        cs.append(sat("AuthzId", bytes(x["z"][0])))
    if x["kv"]:
        cs.append(kv([(bytes(p), bytes(q)) for p, q in x["kv"][0]]))
    if mech in ("PLAIN", "LOGIN", "XOAUTH2") or mech in SCRAM + PLUS:
        cs.append(sat("AuthId", bytes(x["u"])))
    if mech in ("PLAIN", "LOGIN"):
        cs.append(sat("Password", bytes(x["w"])))
    if mech in ("XOAUTH2", "OAUTHBEARER"):
        cs.append(sat("OAuthBearerToken", bytes(x["t"])))
    if mech == "ANONYMOUS":
        cs.append(sat("AnonymousToken", bytes(x["t"])))
    pcb = []
    if mech in SCRAM + PLUS:
        pw = password(r)
        cs.append(sat("Password", pw))
        ss.append(stored([user(mech, bytes(x["u"]), pw, b"saltsalt", r.choice([1, 2, 5]))]))
        if mech in PLUS:
            pcb = [["tls-unique", b"u" * 12]]
    r.shuffle(cs)
    key = {"PLAIN": "AuthId", "LOGIN": "AuthId", "ANONYMOUS": "AnonymousToken", "EXTERNAL": "AuthzId", "XOAUTH2": "AuthId",
           "OAUTHBEARER": "OAuthBearerToken"}.get(mech, "AuthId")
    ops = [talk(0, 1, r.choice(["step", "step64", "mix"]), inj), validation(1)]
    exp = []
    if not x["may"]:
        exp = {"ok": [[0, "ok"], [1, "ok"]], "refused": [[0, "fail"]], "rejected": [[1, "fail"]]}.get(x["out"], [])
    S.add(suite, [cfg([mech], cs, cb=bool(pcb)), cfg([mech], ss, [fin(ctx=r.choice([key, ""]))], cb=bool(pcb))],
          [client(0, [mech], pcb), server(1, mech, pcb)], ops, exp=exp)


def anystring(r, lo=0, hi=60):
    pools = ["abcXYZ019", ",=", "=2C=3D,=2c", " \t\r\n", "\"'\\/{}[]:;<>()", "\u00fc\u00df\u20ac\U0001d11e\u0430\u05d0\u65e5", "\x01\x02\x7f", "\0"]
    ks = r.sample(pools, r.randint(1, 4))
    return "".join(r.choice(r.choice(ks)) for _ in range(r.choice([lo, 1, 2, 3, 7, hi, hi]))) if r.random() < 0.97 else "x" * 2500 + ",="


def roundtrips(S, r, n):
    """Strings of any kind"""
    for _ in range(n):
        mech = r.choice(["PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER", "SCRAM-SHA-256", "SCRAM-SHA-256"])
        g = anystring
        if mech == "PLAIN":
            g = lambda r, lo=0, hi=30: "".join(r.choice(MAPPED) for _ in range(r.randint(lo, hi)))
        enc = lambda s: b(s)
        w = r.choice([enc(g(r, 1)), enc(password(r)), [r.randrange(1, 256) for _ in range(r.choice([1, 8, 50]))] if mech == "LOGIN" else enc("p")])
        z = [enc(g(r, 1))] if r.random() < 0.5 else []
        pairs = [[enc("".join(r.choice("abcdefHOST") for _ in range(r.randint(1, 9)))), enc(anystring(r).replace("\x01", ""))] for _ in range(r.choice([1, 2, 5]))]
        roundtrip(S, dict(mech=mech, z=z, u=enc(g(r, 1)), w=w, t=enc(g(r, 1)), kv=[pairs] if r.random() < 0.6 and mech == "OAUTHBEARER" else [], may=True, out=""), r)


EDGES = [63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 766, 767, 768, 769, 1022, 1023, 1024, 1025, 1026, 1535, 1536, 1537, 2047, 2048, 2049,
         3071, 3072, 3073, 4095, 4096, 4097, 8191, 8192, 8193]


def length(r, huge=0.02):
    return r.choice([16383, 32767, 32768, 65534, 65535, 65536, 65537]) if r.random() < huge else r.choice(EDGES) + r.choice([0, 0, 0, -6, -12, -16, -20, 3, 5])


def longtext(r, n, pool=None):
    pool = pool or r.choice(["x", "abcXYZ019", "a,", "=b,", "a\u00fc", "\u20ac", "a\U0001d11e"])
    s = "".join(r.choice(pool) for _ in range(n)).encode()[:n].decode(errors="ignore").encode()
    return b(s + b"y" * (n - len(s)))


# what SASLprep replaces, drops or keeps
MAPPED = "aZ7 ,=\u00fc\u00aa\u00ad\u2168\u00e9\u00a0\ufb01~"


def bigs(S, r, n, faults=False):
    """Values as long as buffers usually are, or as numbers go"""
    for _ in range(n):
        mech = r.choice(["PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER", "SCRAM-SHA-256"])
        t = lambda pool=None: longtext(r, length(r) if pool != MAPPED else min(length(r, 0), r.randint(900, 1100)), pool)
        short = lambda: b(r.choice(["u", "ab", "x,y=", "w" * 17]) if mech != "PLAIN" else "u")
        ascii_ = r.choice(["abcXYZ019,=", MAPPED]) if mech == "PLAIN" else None
        what = r.choice("zuwtk")
        x = dict(mech=mech, z=[t(ascii_)] if what == "z" else [short()] if r.random() < 0.4 else [], u=t(ascii_) if what == "u" else short(),
                 w=t(ascii_) if what == "w" else b("pencil"), t=t() if what == "t" or mech == "ANONYMOUS" else short(), kv=[], may=True, out="")
        if mech == "OAUTHBEARER" and what in "kuw":
            k = longtext(r, r.choice([1, 30, 255, 256, 257]), "abcXYZ")
            x["kv"] = [[[k, t("abc=,;/")] if r.random() < 0.7 else [b("host"), b("h")] for _ in range(r.choice([1, 1, 2, 60, 300]))]]
            if len(x["kv"][0]) > 2:
                x["kv"] = [[[b("k" * (1 + j % 5)), b("v%d" % j)] for j in range(len(x["kv"][0]))]]
        inj = []
        if faults:
            pieces = lambda: [y for _ in range(r.choice([1, 3, 30])) for y in [r.choice([1, 2, 3, 4, 5, 63, 64, 100, 255, 256, 500, 767, 768, 1000, 1023, 1024, 1025, 4000, "int"])]]
            inj = [dict(at=k, w=pieces() + ([r.choice(["err", "zero", "full"])] if r.random() < 0.3 else [])) for k in range(4) if r.random() < 0.8]
        roundtrip(S, x, r, inj, "bigs")
    for _ in range(n // 3):
        # what a server says may be long, too
        mech = r.choice(["XOAUTH2", "OAUTHBEARER", "SCRAM", "SCRAM"])
        inj = [dict(at=k, w=[r.choice([1, 3, 100, 768, 1024, 1025, "int"]) for _ in range(9)]) for k in range(5) if faults and r.random() < 0.7]
        L = lambda: bytes(longtext(r, length(r))).decode()
        if mech == "SCRAM":
            mech = r.choice(SCRAM + PLUS)
            salt = bytes(r.randrange(256) for _ in range(length(r)))
            pcb = [["tls-unique", bytes(r.randrange(256) for _ in range(length(r)))]] if mech in PLUS else []
            cfgs = [cfg([mech], [sat("AuthId", "u"), sat("Password", "pw")], cb=bool(pcb)), cfg([mech], [stored([user(mech, "u", "pw", salt, 2)])], [fin("v")])]
        else:
            pcb = []
            script = [sat("AuthId", "u"), sat("OAuthBearerToken", "t"), act("XOAuth2Error"), act("OAuthBearerErrored")]
            cfgs = [cfg([mech], script), cfg([mech], [xval(L()), oval((L(), r.choice([None, L()]), r.choice([None, L()])))], [fin("v")])]
        S.add("bigs", cfgs, [client(0, [mech], pcb), server(1, mech, pcb)], [talk(0, 1, r.choice(["step", "step64", "mix"]), inj), validation(1)])


# ---------------------------------------------------------------- accounts
ITERS = [1, 2, 9, 10, 127, 128, 255, 256, 999, 4095, 4096, 4097, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 99999, 600000, 2**24, 2**31 - 1, 2**31, 2**31 + 1,
         10**9, 4 * 10**9, 2**32 - 2, 2**32 - 1]
CBTYPES = ["tls-unique", "tls-exporter", "tls-server-end-point", "x", "A.b-9", "t" * 60, "u" * 64, "v-" * 50, "w" * 300, "TLS-EXPORTER", "Tls-Unique", "tls-exporte", "tls-exporter2"]


def esc(s):
    return s.replace("=", "=3D").replace(",", "=2C")


def octets(r, n):
    return r.choice([lambda: bytes(n), lambda: b"\xff" * n, lambda: b",=" * n, lambda: bytes(range(256)) * (n // 256 + 1)])()[:n] if r.random() < 0.15 \
        else bytes(r.randrange(256) for _ in range(n))


def bit(r, n):
    """One bit of n octets changed: any, or one of the ends"""
    return [dict(m="flip", at=r.choice([0, n - 1, n // 2, r.randrange(n), r.randrange(n)]), x=1 << r.randrange(8))]


def accounts(S, r, n, sides=("both", "client", "server")):
    """Accounts of any iteration count, salt and keys, without a password, and channels of any data"""
    for _ in range(n):
        mech = r.choice(SCRAM + PLUS)
        a, h = alg_of(mech), hlen(mech)
        ck, sk = octets(r, h), octets(r, h)
        known = sat("ScramCachedPassword", ck=b(ck), sk=b(sk))
        if r.random() < 0.35:
            # known by the salted password, which is as long as the account has it
            sp = octets(r, r.choice([1, 2, 7, 8, 15, 16, 17, h - 1, h, h, h + 1, 63, 64, 65, 127, 128, 129, 200]))
            (ck, sk), known = keys(a, sp), sat("SaltedPassword", sp)
        it = r.choice(ITERS) if r.random() < 0.7 else r.randint(1, 10 ** r.randint(1, 9))
        salt = octets(r, r.choice([0, 0, 1, 2, 3, 4, 8, 12, 15, 16, 17, 20, 31, 32, 33, 64, 100, 255, 256, 257, 400]))
        u, z = name(r), name(r) if r.random() < 0.4 else None
        if z:
            z = lib.another(r, u, z)
        acc = dict(user=b(u), salt=b(salt), iter=b(str(it)), stored=b(ALGS[a](ck).digest()), server=b(sk))
        side = r.choice(sides)
        # keys that can't belong to the mechanism are as good as none
        odd = side != "client" and r.random() < 0.1
        if odd:
            k, s = r.choice(["stored", "server"]), r.choice([z for z in [0, 1, h - 1, h + 1, 2 * h] + [x().digest_size for x in ALGS.values()] if z != h])
            acc[k] = b((bytes(acc[k]) * 4)[:s])
        others = [dict(acc, user=b(u + "x"), iter=b("7")), user(mech, "m", "m", b"msalt", 3)]
        users = r.sample([acc] + r.sample(others, r.randint(0, 2)), k=1) if r.random() < 0.3 else [acc] + others[:r.randint(0, 2)]
        if acc not in users:
            users = [acc] + users
        script = [sat("AuthId", u), known] + ([sat("AuthzId", z)] if z else [])
        pcb, d, plus = [], b"", mech in PLUS
        if plus:
            t = r.choice(CBTYPES)
            d = octets(r, r.choice([1, 2, 11, 12, 31, 32, 33, 36, 48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000]))
            if t not in ("tls-unique", "tls-exporter"):
                script.append(sat("OverrideCBType", t))
            pcb = [[t, d]]
        ccfg, scfg = cfg([mech], script, cb=plus or r.random() < 0.5), cfg([mech], [stored(users)], [fin(ctx="AuthId")], cb=r.random() < 0.5)
        via = lambda: r.choice(["step", "step64"])
        if side == "both":
            spcb = pcb
            fine = True
            if plus and r.random() < 0.15:
                # what the server has is of another type, even if it looks like this one
                spcb, fine = [[r.choice([t.swapcase(), t.upper(), t[:-1], t + "x", t[:64] + "-", t[1:]]), d]], False
                fine = spcb[0][0] == t
            elif plus and r.random() < 0.5:
                # the other channel differs in one bit, or its length
                at, fine = r.choice([0, len(d) - 1, r.randrange(len(d))]), False
                d2 = r.choice([d[:at] + bytes([d[at] ^ (1 << r.randrange(8))]) + d[at + 1:], d + bytes([r.choice([0, 255, d[-1]])]), d[:-1]])
                if len(d2) > 0:
                    spcb = [[t, d2]]
                else:
                    fine = True
            exp = [[0, "ok"], [1, "ok"]] if fine and not odd else [[1, "fail"]]
            S.add("accounts", [ccfg, scfg], [client(0, [mech], pcb), server(1, mech, spcb)], [talk(0, 1, r.choice(["step", "step64", "mix"])), validation(1)], exp=exp)
        elif side == "server":
            # a peer that has the keys, and one thing wrong, or none
            f = "p=" + t if plus else r.choice(["n", "y"])
            first = (f + "," + ("a=" + esc(z) if z else "") + ",n=" + esc(u) + ",r=").encode() + bytes(r.choice(b"!\"#$%&'()*+-./09:;<=>?@AZ[\\]^_`az{|}~") for _ in range(r.choice([1, 8, 18, 24, 40, 100])))
            x = dict(scram="cfinal", of=0, ck=b(ck), sk=b(sk), cbdata=b(d))
            wrong = r.choice(["", "", "proof", "ck", "cb", "nonce", "stored"])
            if wrong == "proof":
                x["pmut"] = bit(r, h)
            elif wrong == "ck":
                at = r.randrange(h)
                x["ck"] = b(ck[:at] + bytes([ck[at] ^ (1 << r.randrange(8))]) + ck[at + 1:])
                x["stored"] = r.choice([acc["stored"], b(ALGS[a](bytes(x["ck"])).digest())])
            elif wrong == "cb":
                c = bytearray(first.split(b"n=" + esc(u).encode() + b",r=")[0] + d)
                c[r.choice([0, -1, r.randrange(len(c))])] ^= 1 << r.randrange(8)
                x["cbin"] = b(bytes(c))
            elif wrong == "nonce":
                x["nonce"] = {"sub": r.randrange(200), "how": r.choice(["a", "case", "exch", "bit"])}
            elif wrong == "stored":
                x["ck"], x["stored"] = acc["stored"], acc["stored"]
            ops = [step(0, dict(b=b(first)), via()), step(0, x, via()), validation(0)]
            S.add("accounts", [scfg], [server(0, mech, pcb)], ops, exp=[[0, "fail" if wrong or odd else "ok"]])
        else:
            x = dict(scram="sfirst", of=0, ext=b("!" * r.choice([1, 8, 24, 100, 500])), salt=b(salt), iter=b("0" * r.choice([0, 0, 0, 0, 0, 1, 4]) + str(it)))
            y = dict(scram="sfinal", of=0, ck=b(ck), sk=b(sk))
            wrong = r.choice(["", "", "sig", "sk", "swap"])
            if wrong == "sig":
                y["pmut"] = bit(r, h)
            elif wrong == "sk":
                at = r.randrange(h)
                y["sk"] = b(sk[:at] + bytes([sk[at] ^ (1 << r.randrange(8))]) + sk[at + 1:])
            elif wrong == "swap" and ck != sk:
                y["sk"] = b(ck)
            ops = [step(0, None, via()), step(0, x, via()), step(0, y, via())]
            exp = [] if x["iter"][0] == 48 else [[0, "fail" if wrong and bytes(y["sk"]) != sk or wrong == "sig" else "ok"]]
            S.add("accounts", [ccfg], [client(0, [mech], pcb)], ops, exp=exp)


# ---------------------------------------------------------------- what is shown
def shown(S, r, n):
    """Messages that carry a secret and are wrong next to it; answers that are wrong in their size"""
    for _ in range(n):
        x = lib.unguessable(r)
        kind = r.choice(["plain", "plain", "login", "xoauth2", "oauthbearer", "oauthbearer", "keys", "stored", "cfinal", "cred"])
        via = r.choice(["step", "step64"])
        owner = cfg(["PLAIN"], [sat("Password", x), sat("OAuthBearerToken", x)])    # who the secret belongs to
        bad = r.choice(["\0", "\1", "\x7f", "\u202e", "\n", ",", "=", " ", "", "\u00fc"]).encode() if r.random() < 0.7 else bytes([r.randrange(128, 256)])
        at = r.choice([0, len(x), r.randrange(len(x))])
        y = x[:at].encode() + bad + x[at:].encode()
        if kind == "plain":
            m = r.choice([b"\0u\0" + y, b"\0\0" + y, b"u\0" + y, y, b"\0u\0" + y + b"\0", b"z\0" + y + b"\0", b"\0u" + y, b"\xff\0u\0" + y, b"\0\xff\0" + y])
            S.add("shown", [owner, cfg(["PLAIN"], (), [r.choice([fin("v"), verr("no")])])], [server(1, "PLAIN")], [step(0, dict(b=b(m)), via), validation(0)])
        elif kind == "login":
            S.add("shown", [owner, cfg(["LOGIN"], (), [r.choice([fin("v"), verr("no")])])], [server(1, "LOGIN")],
                  [step(0, None, via), step(0, dict(b=b(r.choice([b"u", y]))), via), step(0, dict(b=b(y)), via), validation(0)])
        elif kind == "xoauth2":
            m = r.choice([b"user=u\1auth=Bearer %s\1\1", b"user=u\1auth=Bearer %s\1", b"user=u\1auth=%s\1\1", b"user=u\1auth=Basic %s\1\1", b"user=u\1%s\1\1", b"user=\xff\1auth=Bearer %s\1\1",
                          b"auth=Bearer %s\1\1", b"user=u\1auth=Bearer %s", b"%s", b"user=%s\1\1", b"user=u\1auth=bearer%s\1\1"]) % y
            S.add("shown", [owner, cfg(["XOAUTH2"], [xval(r.choice([None, "e"]))], [r.choice([fin("v"), verr("no")])])], [server(1, "XOAUTH2")],
                  [step(0, dict(b=b(m)), via), step(0, b""), validation(0)])
        elif kind == "oauthbearer":
            m = r.choice([b"n,,\1auth=Bearer %s\1\1", b"n,,\1auth=Bearer %s\1", b"n,,\1auth=%s\1\1", b"n,,\1auth=Basic %s\1\1", b"n,,\1%s\1\1", b"n,a=,\1auth=Bearer %s\1\1", b"y,,\1auth=Bearer %s\1\1",
                          b"p=x,,\1auth=Bearer %s\1\1", b"n,,auth=Bearer %s\1\1", b"n,,\1k%s\1\1", b"%s", b"n,,\1auth=Bearer %s", b"n,a=\xff,\1auth=Bearer %s\1\1", b"n,,\1host=h\1p0=1\1auth=Bearer %s\1\1",
                          b"n,,\1auth=Bearer %s\1auth=Bearer x\1\1"]) % y
            S.add("shown", [owner, cfg(["OAUTHBEARER"], [oval(r.choice([None, ("e", None, None)]))], [r.choice([fin("v"), verr("no")])])], [server(1, "OAUTHBEARER")],
                  [step(0, dict(b=b(m)), via), step(0, b"\1"), validation(0)])
        elif kind in ("keys", "stored"):
            mech = r.choice(SCRAM)
            h, k1, k2 = hlen(mech), octets(r, 120), octets(r, 120)
            sizes = [0, 7, h - 1, h, h, h + 1, 2 * h]
            acc = dict(user=b("u"), salt=b("salt"), iter=b("3"), stored=b(k1[:r.choice(sizes) if kind == "stored" else h]), server=b(k2[:r.choice(sizes) if kind == "stored" else h]))
            script = [sat("AuthId", "u"), cached(k2[:r.choice(sizes)], k1[:r.choice(sizes)])] + ([errp("Password", "boxed", "p")] if r.random() < 0.5 else [sat("Password", x)])
            S.add("shown", [cfg([mech], script), cfg([mech], [stored([acc])], [fin("v")])], [client(0, [mech]), server(1, mech)], [talk(0, 1, via), validation(1)])
        elif kind == "cfinal":
            # a proof of somebody else's, or hardly one
            mech = r.choice(SCRAM)
            acc = user(mech, "u", x, b"salt", 3)
            last = dict(scram="cfinal", of=0, pw=b(r.choice([x, x + "x"])), mut=[] if r.random() < 0.3 else [dict(m=r.choice(["attrflip", "attrtrunc", "attrapp", "dropattr", "dupattr", "trunc", "app"]), k=r.choice("crp"),
                        at=r.randint(0, 30), x=r.choice([1, 4, 128]), b=b(r.choice([",", "=", "x"])))])
            S.add("shown", [owner, cfg([mech], [stored([acc])], [r.choice([fin("v"), verr("no")])])], [server(1, mech)],
                  [step(0, dict(b=b("n,,n=u,r=abcdefghijklmnop")), via), step(0, last, via), validation(0)])
        else:
            c = cfg(cred=(r.choice([None, "z", "\0", ""]), r.choice(["u", "", "\0", "\u202e"]), y.decode("utf-8", "replace")))
            m = r.choice(["PLAIN", "LOGIN", "SCRAM-SHA-256"])
            S.add("shown", [c], [client(0, [m])], [step(0, None, via), step(0, dict(b=b(r.choice(["x", "r=x", ""]))), via), step(0, dict(b=b("x")), via)])
