"""What is generated for each property, and which deviations from the specification break it."""
import gen
import gss
import lib
import scram
import suites


class Plan:
    def __init__(self, generate, rules, extra=()):
        self.generate, self.rules, self.extra = generate, set(rules), list(extra)

    def counts(self, d):
        return d["rule"] in self.rules


ALWAYS = {"panic", "hang", "abort", "unspecified", "harness"}
# everything a step can do wrong
STEP = ALWAYS | {"accepted", "rejected", "wrongerr", "inputeffect", "res", "out", "b64out", "req", "is", "reqctx", "ops",
                 "reqdup", "reqmiss", "reqorder", "val", "valcount", "valtype", "outcome", "sd", "model"}

PLANS = {}


def c01(run):
    r = run.rng("c01")
    for n, faults in ((5000, 1),) if run.quick else ((4000, 1), (20000, 2)):
        for x in scram.pick(run.model("ScramModel", MaxFaults=faults, Family='"auth"'), n, r):
            scram.scenario(run.sc, "scram-auth", x, r)
    suites.accounts(run.sc, run.rng("accounts"), 3000 if run.quick else 15000, ("server", "server", "both"))


PLANS["C01"] = Plan(c01, STEP | {"afterend", "nonce", "salt", "fresh"})


def exchanges(run, n, suite, dists, vals=("fin", "none"), vias=("step", "step64", "mix"), mechs=None, maxdist=1, key=None, f=None, times=1):
    s = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    k = dict(Dists=s(dists), Vals=s({gen.VALNAME.get(v, v) for v in vals}), Vias=s(vias), MaxDist=maxdist)
    if mechs:
        k["Mechs"] = s(mechs)
    behs = run.model("Exchange", **k)
    r = run.rng(suite, n, maxdist)
    for x in gen.strata(behs if times == 1 else behs * max(1, min(times, n // len(behs))), n, r, key or gen.exkey):
        # one class of reactions stands for several
        x = dict(x, val=r.choice([v for v in vals if gen.VALNAME.get(v, v) == x["val"]]))
        if f:
            f(run.sc, x, r)
        else:
            gen.exchange(run.sc, suite, x, r)


ALLDISTS = ["none", "bad64", "enc", "dec", "has", "info", "validation", "w-bytes", "w-int", "w-mixed", "w-err", "w-zero"]


def c09(run):
    exchanges(run, 9000 if run.quick else 20000, "exchange", ALLDISTS, maxdist=1 if run.quick else 2)


PLANS["C09"] = Plan(c09, STEP | {"first", "info", "talk", "talklen", "start"})


def behaviours(run, module, n, suite, f, key=None, times=1, **consts):
    r = run.rng(suite, module, str(consts))
    behs = run.model(module, **consts)
    for x in gen.strata(behs * max(1, min(times, n // len(behs))), n, r, key or (lambda x: 0)):
        f(run.sc, x, r)


def sets(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def messages(run, kinds, n, deep):
    r = run.rng("messages")
    for k, edits, num in ((kinds, 1, n),) if run.quick else ((kinds, 1, 10 * n), (kinds, 2, deep)):
        b = run.model("MessageModel", Kinds=sets(k), MaxEdits=edits)
        for x in gen.strata(b, num, r, suites.msgkey):
            suites.message(run.sc, x, r)


def scram_family(run, family, quick, thorough, suite):
    r = run.rng(suite)
    for n, faults in quick if run.quick else thorough:
        for x in scram.pick(run.model("ScramModel", MaxFaults=faults, Family='"%s"' % family), n, r):
            scram.scenario(run.sc, suite, x, r)


def c02(run):
    scram_family(run, "auth", ((4500, 1),), ((4000, 1), (15000, 2)), "scram-auth")
    messages(run, ["sfirst", "sfinal"], 1800, 15000)
    suites.attributes(run.sc, run.rng("attributes"), ["sfirst", "sfinal"])
    suites.everybyte(run.sc, run.rng("bytes"), ["sfirst", "sfinal"], 2500 if run.quick else 20000)
    suites.short(run.sc, run.rng("short"), 720 if run.quick else 4000, suites.SCRAM + suites.PLUS)
    suites.accounts(run.sc, run.rng("accounts"), 1500 if run.quick else 15000, ("client", "client", "both"))


PLANS["C02"] = Plan(c02, STEP | {"afterend", "nonce"})


def c03(run):
    scram_family(run, "bind", ((4500, 1),), ((8000, 1), (20000, 2)), "scram-bind")
    behaviours(run, "ServeModel", 1500 if run.quick else 10000, "serve", suites.serve, key=lambda x: [x["flag"], x["res"], x["sel"]],
               MaxRegs=2, Pool=sets(["SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-1", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-512", "SCRAM-SHA-512-PLUS"]))
    suites.downgrade(run.sc, run.rng("downgrade"), 1200 if run.quick else 6000)
    behaviours(run, "BindModel", 2700 if run.quick else 10000, "bindings", suites.bindings, key=lambda x: [x["type"], x["proto"], x["cback"], x["res"]])
    suites.accounts(run.sc, run.rng("accounts"), 1200 if run.quick else 10000, ("both", "both", "server"))


PLANS["C03"] = Plan(c03, STEP | {"start"})


def c04(run):
    scram_family(run, "auth", ((1500, 1),), ((4000, 1), (8000, 2)), "scram-auth")
    for n, odd in ((2, 1),) if run.quick else ((2, 2),):
        behaviours(run, "ReplayModel", 3600 if run.quick else 20000, "replay", suites.replay, key=suites.replaykey, N=n, MaxOdd=odd)
    suites.unknown(run.sc, run.rng("unknown"), 180 if run.quick else 1000)
    suites.samefirst(run.sc, run.rng("samefirst"), 500 if run.quick else 3000)


def draws(run):
    run.draws(2, 50000 if run.quick else 150000)


PLANS["C04"] = Plan(c04, STEP | {"nonce", "salt", "fresh"}, [draws])


def c05(run):
    k = lambda x: [x["mech"], x["out"], x["may"], len(x["z"]), len(x["u"]) > 1, len(x["w"]) > 1, len(x["t"]) > 1, len(x["kv"])]
    behaviours(run, "RoundTripModel", 7500 if run.quick else 60000, "roundtrip", suites.roundtrip, key=k, MaxLen=2 if run.quick else 3)
    suites.roundtrips(run.sc, run.rng("roundtrips"), 2100 if run.quick else 15000)
    suites.bigs(run.sc, run.rng("bigs"), 450 if run.quick else 5000)


PLANS["C05"] = Plan(c05, STEP | {"talk", "talklen", "nonce"})


def c06(run):
    exchanges(run, 6000 if run.quick else 40000, "robust", [], vals=["fin"], vias=["step"], maxdist=0, f=suites.robust, times=100)
    messages(run, ["plain", "login", "text", "xoauth2", "oauthbearer", "cfirst", "cfirst-plus", "cfinal", "sfirst", "sfinal", "json"], 1800, 30000)
    for _ in range(2 if run.quick else 20):
        suites.prooflens(run.sc, run.rng("prooflens", _))
    suites.randnames(run.sc, run.rng("names"), 1800 if run.quick else 20000)
    suites.everybyte(run.sc, run.rng("bytes"), list(suites.RICH), 4000 if run.quick else 60000)
    suites.onebyte(run.sc, run.rng("onebyte"), 2500 if run.quick else 30000)
    suites.short(run.sc, run.rng("short"), 1600 if run.quick else 8000)
    gss.odd(run.sc, run.rng("gssodd"), 900 if run.quick else 10000)


PLANS["C06"] = Plan(c06, ALWAYS)


def c07(run):
    ks = ["plain", "login", "text", "xoauth2", "oauthbearer", "cfirst", "cfirst-plus", "cfinal"]
    messages(run, ks, 9000, 40000)
    suites.attributes(run.sc, run.rng("attributes"), ["cfirst", "cfinal"])
    suites.everybyte(run.sc, run.rng("bytes"), ks, 12000 if run.quick else 40000)
    suites.short(run.sc, run.rng("short"), 1600 if run.quick else 8000)


PLANS["C07"] = Plan(c07, STEP)


def c08(run):
    vals = list(gen.VALS)
    exchanges(run, 6000 if run.quick else 20000, "exchange", ["none", "bad64", "validation", "w-err"], vals=vals, maxdist=1 if run.quick else 2,
              key=lambda x: [x["mech"], x["rejects"], x["val"], [o["op"] for o in x["ops"] if o["op"] != "step"]])
    scram_family(run, "auth", ((1200, 1),), ((3000, 1),), "scram-auth")
    messages(run, ["plain", "login", "text", "xoauth2", "oauthbearer"], 1500, 6000)
    suites.short(run.sc, run.rng("short"), 500 if run.quick else 4000)


PLANS["C08"] = Plan(c08, ALWAYS | {"val", "valcount", "valtype", "outcome", "accepted", "wrongerr", "inputeffect", "sd", "model", "res"})


def c10(run):
    exchanges(run, 7500 if run.quick else 20000, "exchange", ["none", "validation", "w-bytes"], maxdist=1 if run.quick else 2)
    robustly(run, 3000 if run.quick else 5000)
    suites.emptied(run.sc, run.rng("emptied"), 900 if run.quick else 5000)


def robustly(run, n):
    exchanges(run, n, "missing", [], vals=["fin"], vias=["step", "step64"], maxdist=0, f=suites.missing, times=100)


PLANS["C10"] = Plan(c10, STEP | {"first"})


def c11(run):
    behaviours(run, "SelectModel", 10500 if run.quick else 20000, "select", suites.select,
               key=lambda x: [x["prefer"], x["cb"], len(x["regs"]), len(x["allowed"])], **({} if run.quick else {"MaxRegs": 2}))
    if not run.quick:
        behaviours(run, "SelectModel", 20000, "select3", suites.select, key=lambda x: [x["prefer"], x["cb"], len(x["allowed"])],
                   MaxRegs=3, Pool=sets(["SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "PLAIN", "LOGIN", "X-CLIENTONLY", "X-SERVERONLY", "X-LOW"]))
    suites.selects(run.sc, run.rng("selects"), 2400 if run.quick else 10000)


PLANS["C11"] = Plan(c11, ALWAYS | {"start", "first", "info", "res", "out", "accepted", "rejected", "sd"})


def c12(run):
    behaviours(run, "ServeModel", 10600 if run.quick else 40000, "serve", suites.serve, times=10, MaxRegs=2)


PLANS["C12"] = Plan(c12, STEP | {"start", "first", "info", "avail", "talk"})


def c13(run):
    behaviours(run, "RequestModel", 6600 if run.quick else 30000, "request", suites.request,
               key=lambda x: [x["kind"], x["cl"], len(x["script"]), x["fails"], x["script"][0] if x["script"] else 0], MaxLen=2 if run.quick else 3)
    suites.framework(run.sc, run.rng("framework"), 10000 if run.quick else 15000)


PLANS["C13"] = Plan(c13, STEP)


def c14(run):
    suites.framework(run.sc, run.rng("framework"), 12000 if run.quick else 20000)
    exchanges(run, 2400 if run.quick else 8000, "exchange", ["none"], vias=["step"])
    scram_family(run, "auth", ((900, 1),), ((3000, 1), (6000, 2)), "scram-auth")


PLANS["C14"] = Plan(c14, STEP)


FAULTS = ["garbled", "silent", "refusing"]


def c15(run):
    q = run.quick
    exchanges(run, 3000 if q else 20000, "exchange", FAULTS + ["none", "bad64", "w-err", "w-zero"], vals=("fin", "none", "err", "err-missing"),
              maxdist=1 if q else 2, times=20)
    scram_family(run, "auth", ((1800, 1),), ((4000, 1), (12000, 2)), "scram-auth")
    messages(run, ["plain", "login", "text", "xoauth2", "oauthbearer", "cfirst", "cfirst-plus", "cfinal", "sfirst", "sfinal", "json"], 1500, 10000)
    behaviours(run, "BindModel", 600 if q else 4000, "bindings", suites.bindings)
    gss.odd(run.sc, run.rng("gss"), 600 if q else 5000)
    suites.writers(run.sc, run.rng("writers"), 1200 if q else 8000)
    suites.oauth(run.sc, run.rng("oauth"), 300 if q else 3000)


PLANS["C15"] = Plan(c15, ALWAYS | {"errkind", "wrongerr", "model"})


def c16(run):
    behaviours(run, "WriterModel", 7500 if run.quick else 20000, "writer", suites.writer, key=lambda x: [x["len"], x["res"], len(x["sched"])],
               MaxInt=1 if run.quick else 2)
    suites.writers(run.sc, run.rng("writers"), 2700 if run.quick else 10000)
    suites.bigs(run.sc, run.rng("bigs"), 300 if run.quick else 4000, True)


PLANS["C16"] = Plan(c16, ALWAYS | {"out", "b64out", "res", "accepted", "rejected", "model", "wrongerr"})


def c17(run):
    b = run.model("Base64Model", MaxLen=4 if run.quick else 5)
    suites.base64(run.sc, b, run.rng("base64"))
    exchanges(run, 3000 if run.quick else 15000, "exchange", ["none", "bad64", "w-bytes", "w-int", "w-mixed", "w-err", "w-zero"], vias=["step64", "mix"],
              maxdist=1 if run.quick else 2)
    suites.emptied(run.sc, run.rng("emptied"), 1200 if run.quick else 5000)
    suites.writers(run.sc, run.rng("writers"), 900 if run.quick else 5000)
    suites.bigs(run.sc, run.rng("bigs"), 240 if run.quick else 4000, True)


PLANS["C17"] = Plan(c17, STEP)


def c18(run):
    behaviours(run, "SecretModel", 720, "secret", suites.secret)
    # the keys are only offered after the server's proof
    messages(run, ["sfinal"], 1200, 5000)
    suites.accounts(run.sc, run.rng("accounts"), 1500 if run.quick else 6000, ("client", "both"))
    scram_family(run, "auth", ((1500, 1),), ((4000, 1), (8000, 2)), "scram-auth")
    if not run.quick:
        for _ in range(10):
            behaviours(run, "SecretModel", 720, "secret%d" % _, suites.secret)


PLANS["C18"] = Plan(c18, STEP)


def c19(run):
    exchanges(run, 8000 if run.quick else 15000, "exchange", ["none", "bad64", "w-bytes", "w-mixed"], mechs=["XOAUTH2", "OAUTHBEARER"],
              maxdist=1 if run.quick else 2)
    messages(run, ["json"], 1800, 20000)
    suites.everybyte(run.sc, run.rng("bytes"), ["json"], 1500 if run.quick else 15000)
    suites.oauth(run.sc, run.rng("oauth"), 5000 if run.quick else 10000)
    suites.short(run.sc, run.rng("short"), 800 if run.quick else 4000, ["OAUTHBEARER", "XOAUTH2"])


PLANS["C19"] = Plan(c19, STEP | {"talk", "talklen"})


def c20(run):
    r = run.rng("gss")
    for n, faults, legs in ((4500, 1, "{1, 2, 3}"),) if run.quick else ((8000, 1, "{1, 2, 3, 4}"), (25000, 2, "{1, 2, 3}")):
        for x in gen.strata(run.model("GssModel", MaxFaults=faults, Legs=legs), n, r, gss.negkey):
            gss.negotiation(run.sc, x, r)
    behaviours(run, "LayerModel", 1500 if run.quick else 10000, "gssdata", gss.data, key=lambda x: [x["layer"], x["over"], [o["op"] for o in x["ops"]][:2]],
               MaxOps=4 if run.quick else 5)
    gss.odd(run.sc, run.rng("gssodd"), 2400 if run.quick else 30000)
    gss.sizes(run.sc, run.rng("gssbig"), *(12, 3) if run.quick else (100, 24))
    gss.series(run.sc, run.rng("gssseries"), 12 if run.quick else 80)


PLANS["C20"] = Plan(c20, STEP | {"afterend", "haslayer", "encdec", "talk", "talklen"})


def c21(run):
    exchanges(run, 6000 if run.quick else 20000, "exchange", ["none", "enc", "dec", "has"], maxdist=1 if run.quick else 2)
    suites.layers(run.sc, run.rng("layers"), 1200 if run.quick else 4000)
    behaviours(run, "LayerModel", 900 if run.quick else 5000, "gssdata", gss.data, key=lambda x: [x["layer"], x["over"], [o["op"] for o in x["ops"]][:2]],
               MaxOps=3 if run.quick else 4)
    gss.sizes(run.sc, run.rng("gssbig"), *(12, 3) if run.quick else (100, 24))
    gss.series(run.sc, run.rng("gssseries"), 12 if run.quick else 80)


PLANS["C21"] = Plan(c21, ALWAYS | {"encdec", "haslayer", "model", "res", "out", "rejected"})


def c22(run):
    b = run.model("NameModel", MaxLen=2)
    suites.names(run.sc, b, run.rng("names"))
    suites.randnames(run.sc, run.rng("randnames"), 9000 if run.quick else 100000)


PLANS["C22"] = Plan(c22, {"panic", "hang", "abort", "unspecified", "name", "nameeq"})


def c23(run):
    behaviours(run, "ConfigModel", 7500 if run.quick else 4096, "config", suites.config, key=lambda x: [x["kind"], x["allowed"]])


FEATURES = ["plain", "login", "anonymous", "external", "xoauth2", "oauthbearer", "scram-sha-1", "scram-sha-2"]
BUILTIN = ["SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER"]


def features(run):
    r = run.rng("features")
    # for any two features, a set that has the first and not the second
    f = r.sample(FEATURES, len(FEATURES))
    sets = [[g for i, g in enumerate(f) if (i >> bit & 1) == v] for bit in range(3) for v in (0, 1)]
    if not run.quick:
        sets += [[f] for f in FEATURES] + [[g for g in FEATURES if g != f] for f in FEATURES]
        sets += [r.sample(FEATURES, r.randint(2, 6)) + r.choice([[], ["registry_static"]]) for _ in range(12)]
    groups = [[m] for m in BUILTIN] + [BUILTIN] + [r.sample(BUILTIN, r.randint(2, 6)) for _ in range(40)]
    run.features([sorted(x) for x in sets], groups)


PLANS["C23"] = Plan(c23, STEP | {"start", "first", "info", "avail", "talk"}, [features])


def c24(run):
    behaviours(run, "ShareModel", 4500 if run.quick else 6000, "share", lambda S, x, r: suites.share(S, x, r, 5), N=2, Steps=5)
    behaviours(run, "ShareModel", 1800 if run.quick else 6000, "share3", lambda S, x, r: suites.share(S, x, r, 2), N=3, Steps=2)
    if not run.quick:
        behaviours(run, "ShareModel", 10000, "share33", lambda S, x, r: suites.share(S, x, r, 5), N=3, Steps=5, MaxBad=0)
    suites.threads(run.sc, run.rng("threads"), 75 if run.quick else 400)


PLANS["C24"] = Plan(c24, STEP | {"nonce", "salt", "fresh", "start", "info", "talk"})


def c25(run):
    # secrets that no text contains by chance
    lib.LONG[0] = True
    try:
        exchanges(run, 6000 if run.quick else 30000, "exchange", ["none", "bad64", "garbled", "silent", "refusing", "w-err", "w-zero"],
                  vals=["fin", "none", "err", "witherr"], maxdist=1 if run.quick else 2, key=gen.exkey)
        scram_family(run, "auth", ((1500, 1),), ((4000, 1), (8000, 2)), "scram-auth")
        behaviours(run, "ConfigModel", 500 if run.quick else 4096, "config", suites.config, key=lambda x: [x["kind"], x["allowed"]])
        suites.onebyte(run.sc, run.rng("onebyte"), 2500 if run.quick else 30000)
        suites.short(run.sc, run.rng("short"), 1000 if run.quick else 8000)
        suites.shown(run.sc, run.rng("shown"), 1500 if run.quick else 10000)
    finally:
        lib.LONG[0] = False
    for s in run.sc.all:
        s["diag"] = True


PLANS["C25"] = Plan(c25, ALWAYS | {"leak"})
