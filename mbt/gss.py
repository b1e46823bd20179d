"""GSSAPI: tokens of the stand-in library (spec/GssApi.tla) and scenarios."""
import gen
from lib import *

FLAGS = {"m": 2, "c": 16, "i": 32}
ALL = 62


def sealed(t):
    c = sum((i + 1) * x for i, x in enumerate(t)) % 65521
    return t + [c >> 8, c & 255]


def wrapped(g, server, body, seq=0, conf=False):
    conf = conf and g["flags"] & 16
    return sealed([87, 1 if conf else 0, 1 if server else 0, g["key"], seq] + [x ^ (g["key"] ^ 90 if conf else 0) for x in body])


def opening(g, target, flags=None):
    f = g["flags"] if flags is None else flags
    return sealed([84, 1, g["key"], f >> 8, f & 255, len(g["src"])] + g["src"] + b(target))


def token(g, j):
    return sealed([84, j, g["key"]])


def setting(r, flags=ALL, legs=2, fail="", src=None, key=None):
    return dict(flags=flags, legs=legs, key=r.randrange(256) if key is None else key, fail=fail,
                src=b(r.choice(["user@EXAMPLE.ORG", "u", "a/b@R", "\u00fcser@R", "", "x" * 100, "a,b=c@R"]) if src is None else src))


def flagset(r, names):
    """The facilities named, and some that don't matter"""
    return sum(FLAGS[n] for n in names) | r.choice([0, 4, 8, 12, 1 | 128, 256, 64])


def layers(v, r, kind="sat"):
    return op(r.choice(["sat", "satw"]), "GssSecurityLayer", v=[v])


TARGETS = [("imap", "mail.example.org"), ("smtp", "h"), ("x-own", "\u00fc.example"), ("", "host"), ("s", "")]


def sides(r, cg, sg, cwant, swant, val=None, target=None):
    """cfgs and sess; cwant, swant: bits or None (no answer)"""
    s, h = target or r.choice(TARGETS[:3])
    cs = [sat("GssService", s), sat("Hostname", h)] + ([] if cwant is None else [layers(cwant, r)])
    ss = [] if swant is None else [layers(swant, r)]
    extra = [sat("AuthId", "callback"), sat("Service", "wrong"), sat("Realm", "wrong")]
    cs += r.sample(extra, r.randint(0, 2))
    ss += r.sample(extra, r.randint(0, 2))
    r.shuffle(cs)
    r.shuffle(ss)
    c, v = client(0, ["GSSAPI"]), server(1, "GSSAPI")
    c["gss"], v["gss"] = cg, sg
    return [cfg(["GSSAPI"], cs), cfg(["GSSAPI"], ss, [fin("outcome")] if val is None else val)], [c, v]


def want(a):
    return None if not a else sum(a[0])


def change(r):
    """An alteration in transit"""
    return r.choice([
        lambda: dict(m="flip", at=r.randrange(64), x=1 << r.randrange(8)), lambda: dict(m="trunc", at=-1 - r.randrange(12)),
        lambda: dict(m="app", b=[r.randrange(256) for _ in range(r.randint(1, 3))]), lambda: dict(m="del", at=r.randrange(40)),
        lambda: dict(m="pre", b=[r.randrange(1, 256)]), lambda: dict(m="rep", b=b(r.choice(["", "x", "W", "T\1"]))),
        lambda: dict(m="ins", at=r.randrange(30), b=[r.randrange(256)])])()


def size(r, bits):
    return [0, 0, 0] if bits in (0, 1) else r.choice([[255, 255, 255], [0, 16, 0], [0, 0, 1], [1, 2, 3]])


def said(r, g, what, server):
    """A layer message of a peer that may say anything"""
    conf = r.random() < 0.5
    w = lambda body: wrapped(g, server, body, 0, conf)
    if what == "short":
        return w(r.choice([[], [r.choice([1, 2, 4, 7])], [1, 0], [4, 255, 255]]))
    if what == "long":
        # what follows is the identity to act as: malformed
        return w([r.choice([1, 2, 4]), 0, 0, 0] + r.choice([[255], [0xc3], [97, 0x80]])) if not server else \
            w([r.choice([1, 2, 4, 7])] + [0, 0, 0] + [r.randrange(256) for _ in range(r.randint(1, 4))])
    if what == "none":
        return r.choice([[], b("\1\0\0\0"), b("\7\0\0\0"), wrapped(g, not server, [4, 255, 255, 255]), wrapped(g, server, [4, 255, 255, 255], 1),
                         wrapped(dict(g, key=g["key"] ^ 1), server, [1, 0, 0, 0])])
    if what == "9":
        x = r.choice([8, 9, 12, 15, 16, 0x81, 0x44, 255, 10])
        return w([x] + [0, 0, 0])
    x = int(what)
    return w([x] + size(r, x))


def negotiation(S, x, r, suite="gss"):
    """A behaviour of GssModel"""
    key = r.randrange(256)
    src = r.choice(["user@EXAMPLE.ORG", "u", "a/b@R", "\u00fcser@R", "x" * 100])
    more = r.choice([0, 4, 12, 1 | 128, 256, 64])
    bits = lambda n: sum(FLAGS[k] for k in n) | more
    cg = setting(r, bits(x["cflags"]), x["legs"], x["cfail"], src, key)
    sg = setting(r, bits(x["sflags"]), x["legs"], x["sfail"], src, key)
    cfgs, sess = sides(r, cg, sg, want(x["cwant"]), want(x["swant"]))
    # what the contexts agreed on
    eff = dict(sg, flags=sg["flags"] & cg["flags"])
    ops, via, outs, inp = [], r.choice(["step", "step", "step64"]), [0, 0], None
    for o in x["ops"]:
        j = 0 if o["s"] == "c" else 1
        what = o["op"]
        if what == "none":
            ops.append(step(j, None, via))
        elif what == "step":
            if inp is None:
                inp = None if o["m"] == "none" else dict(last=1 - j)
            ops.append(step(j, inp, via))
            outs[j] += 1
            inp = None
        elif what == "alter":
            inp = dict(last=1 - j, mut=[change(r)])
        elif what == "repeat":
            if outs[1 - j] < 2:
                return
            inp = dict(rec=[1 - j, r.randrange(outs[1 - j] - 1)])
        elif what == "reflect":
            inp = dict(last=j)
        else:
            inp = dict(b=said(r, cg if j else eff, what[3:], j == 0))
    ops += [has(0), has(1), validation(1), enc(0, "data"), enc(1, ""), dict(op="dec", s=1, rec=[0, 0]), dict(op="dec", s=0, rec=[1, 0]),
            dec(r.randrange(2), "data")]
    if r.random() < 0.5:
        # nothing brings a failed exchange back
        ops += [after(0, dict(last=1), via), after(1, dict(last=0), via), after(r.randrange(2), r.choice([None, b(""), wrapped(cg, True, [1, 0, 0, 0])]), via),
                has(0), has(1), validation(1)]
    S.add(suite, cfgs, sess, ops, exp=[] if x["amb"] else [[0, x["client"]], [1, x["server"]]], beh=x)


def negkey(x):
    return [x["legs"], x["cflags"] == x["sflags"], x["amb"], x["client"], x["server"], [o["op"] for o in x["ops"] if o["op"] != "step"]]


DATA = [b"", b"d", b"data", b"\0" * 9, bytes(range(256)), b"\r\n.\r\n", b"W\0\0"]


def data(S, x, r, suite="gssdata"):
    """A behaviour of LayerModel"""
    legs = r.randint(1, 4)
    g = setting(r, ALL, legs)
    cfgs, sess = sides(r, g, g, x["layer"] if r.random() < 0.5 else None, x["layer"] if r.random() < 0.5 else x["layer"])
    if x["over"]:
        ops = [talk(0, 1, r.choice(["step", "step64", "mix"]))]
    else:
        ops, j = [step(0, None)], 1
        for _ in range(r.randint(0, legs)):
            ops.append(step(j, dict(last=1 - j)))
            j = 1 - j
    sent, rcvd = [0, 0], [0, 0]
    w = lambda: r.choice([[], [], [], [1] * 400, ["int", 3, "int"]])
    for o in x["ops"][:-1]:
        j = 0 if o["s"] == "c" else 1
        what = o["op"]
        p = 1 - j
        d = dict(op="dec", s=j, w=w())
        if what == "enc":
            ops.append(dict(enc(j, r.choice(DATA)), w=w()))
            sent[j] += 1
            continue
        if what == "plain":
            d["b"] = b(r.choice(DATA))
        elif what == "reflect":
            d["rec"] = [j, r.randrange(sent[j])]
        elif what == "next":
            d["rec"] = [p, rcvd[j]]
            rcvd[j] += 1
        elif what == "alter":
            d.update(rec=[p, rcvd[j]], mut=[change(r)])
        elif what == "skip":
            d["rec"] = [p, r.randrange(rcvd[j] + 1, sent[p])]
        else:
            d["rec"] = [p, r.randrange(rcvd[j])]
        ops.append(d)
    # a writer that fails, at last
    ops += [has(0), has(1), dict(enc(r.randrange(2), "data"), w=r.choice([["err"], ["zero"], [2, "err"], []]))]
    S.add(suite, cfgs, sess, ops, beh=x)


def odd(S, r, n, suite="gssodd"):
    """Everything at random: the specification tells what has to happen"""
    for _ in range(n):
        f = flagset(r, r.choice(["mci", "mci", "mci", "ci", "mi", "i", "c", "mc", "m", ""]))
        legs = r.choice([1, 2, 2, 3, 4])
        cg = setting(r, f, legs, r.choice([""] * 9 + ["cred", "name", "init1", "init2", "wrap", "info"]))
        sg = dict(cg, fail=r.choice([""] * 9 + ["cred", "accept1", "accept2", "wrap", "info"]))
        k = r.random()
        if k < 0.08:
            sg["legs"] = r.choice([1, 2, 3, 4])
        elif k < 0.16:
            sg["flags"] = flagset(r, r.choice(["mci", "ci", "mi", "i", "c", ""]))
        elif k < 0.2:
            sg["key"] ^= 1
        elif k < 0.3:
            cg["src"] = r.choice([b"\xff", b"a\xc3", b"\xc0\x80", b"ok\0", b""])
            cg["src"] = sg["src"] = b(cg["src"])
        val = gen.VALS[r.choice(["fin", "none", "err", "fin-fin", "with", "witherr", "other-fin"])]
        w = lambda: r.choice([None, 0, 1, 2, 3, 4, 5, 6, 7, 7, 7])
        cfgs, sess = sides(r, cg, sg, w(), w(), val, r.choice(TARGETS))
        if r.random() < 0.1:
            # callbacks that have no answer, or fail
            cfgs[0]["script"] = r.choice([[], [sat("GssService", "x")], [sat("Hostname", "x")], [err("boxed", "e")] + cfgs[0]["script"],
                                          [errp("GssSecurityLayer", "boxed", "e")] + cfgs[0]["script"],
                                          cfgs[0]["script"] + [errp("GssSecurityLayer", "nocb", "e")]])
        if r.random() < 0.1:
            cfgs[1]["script"] = r.choice([[errp("GssSecurityLayer", "boxed", "e")], [err("mutual")], [err("novalue")], [ret()]])
        inj = []
        if r.random() < 0.5:
            inj.append(dict(at=r.randrange(7), **r.choice([dict(none=True), dict(bad64=True), dict(mut=[change(r)]), dict(w=[1] * 300),
                                                          dict(w=["err"]), dict(w=[3, "zero"]), dict(ops=[has(0), enc(0), dec(0)])])))
        k = r.random()
        if k < 0.7:
            ops = [talk(0, 1, r.choice(["step", "step64", "mix"]), inj)]
            ops += r.sample([has(0), has(1), validation(1), enc(0, r.choice(DATA)), enc(1, r.choice(DATA)), dec(0), dec(1)], 5)
        elif k < 0.85:
            # a server and a peer that says something
            ops = [step(1, opening(dict(cg, key=sg["key"]), r.choice(["imap@h", "", "x" * 50]), r.choice([None, None, 0, 65535, 32, 18, 50])))]
            if sg["legs"] > 1:
                ops.append(step(1, r.choice([b"", None, None, b"x"]) if sg["legs"] == 2 else token(sg, 3)))
            if sg["legs"] > 3:
                ops.append(step(1, None))
            body = [r.choice([1, 2, 4, 4, 3, 0, 7, 8, 9])] + r.choice([[0, 0, 0], [255, 255, 255], [0, 0]]) + b(r.choice(["", "", "", "admin", "\u00fc", "x"]))
            ops += [step(1, wrapped(sg, False, body, r.choice([0, 0, 0, 1]), r.random() < 0.3)), has(1), validation(1), enc(1), dec(1),
                    dict(op="dec", s=1, b=wrapped(sg, False, b"hello", 1, True)), dict(op="dec", s=1, b=wrapped(sg, False, b"hello", 1, True))]
        else:
            ops = [step(0, r.choice([None, None, b"", b"x"]))]
            if cg["legs"] > 1:
                ops.append(step(0, token(cg, 2)))
            if cg["legs"] > 3:
                ops.append(step(0, token(cg, 4)))
            body = [r.choice([1, 2, 3, 4, 5, 6, 7, 7, 0, 8, 15, 128])] + r.choice([[0, 0, 0], [255, 255, 255], [0, 0], [0, 0, 0, 0]])
            ops += [step(0, wrapped(cg, True, body, r.choice([0, 0, 0, 1]), r.random() < 0.3)), has(0), enc(0), enc(0, "x" * 300),
                    dict(op="dec", s=0, b=wrapped(cg, True, b"hello", 1, True)), dict(op="dec", s=0, b=wrapped(cg, True, b"hello", 1))]
        S.add(suite, cfgs, sess, ops)


def established(r, j=None):
    """A negotiation, and the operations that conclude it"""
    legs = r.randint(1, 3)
    g = setting(r, ALL, legs)
    level = r.choice([2, 4]) if j is None else j
    cfgs, sess = sides(r, g, g, level if r.random() < 0.5 else None, level)
    return cfgs, sess, [talk(0, 1, r.choice(["step", "mix"]))]


EDGES = [1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768]
HUGE = [65529, 65530, 65535, 65536, 65537, 70000]


def sizes(S, r, n, huge, suite="gssbig"):
    """Data of all lengths"""
    for i in range(n + huge):
        cfgs, sess, ops = established(r)
        lens = [r.choice(HUGE)] if i < huge else r.sample(EDGES + [r.randint(257, 5000)], 3)
        sent = [0, 0]
        for k in lens:
            j = r.randrange(2)
            base = [r.randrange(256) for _ in range(r.choice([1, 3, 64, 257]))]
            ops += [enc(j, (base * (k // len(base) + 1))[:k]), dict(op="dec", s=1 - j, rec=[j, sent[j]])]
            sent[j] += 1
            if r.random() < 0.3:
                ops[-1]["w"] = r.choice([[4096] * 40, ["int", 1, 65535, "int", 1 << 20], [5, 1 << 20]])
        S.add(suite, cfgs, sess, ops + [has(0), has(1)])


def series(S, r, n, suite="gssseries"):
    """Many messages on one layer"""
    for _ in range(n):
        cfgs, sess, ops = established(r)
        sent, rcvd = [0, 0], [0, 0]
        total = r.choice([140, 270, 300, 520])
        bias = r.choice([0.02, 0.5, 0.98])
        while sum(sent) < total or sum(rcvd) < sum(sent):
            j = 0 if r.random() < bias else 1
            k = r.random()
            if sum(sent) < total and k < 0.6:
                ops.append(enc(j, [r.randrange(256) for _ in range(r.randrange(5))]))
                sent[j] += 1
            elif rcvd[j] < sent[j]:
                ops.append(dict(op="dec", s=1 - j, rec=[j, rcvd[j]]))
                rcvd[j] += 1
            elif k > 0.97 and rcvd[j]:
                # again
                ops.append(dict(op="dec", s=1 - j, rec=[j, rcvd[j] - 1]))
        S.add(suite, cfgs, sess, ops + [has(0), has(1)])
