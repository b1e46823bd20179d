"""Turns behaviours of ScramModel into scenarios."""
import base64
from lib import *

ERRORVALUES = ["invalid-encoding", "extensions-not-supported", "invalid-proof", "channel-bindings-dont-match",
               "server-does-support-channel-binding", "channel-binding-not-supported", "unsupported-channel-binding-type",
               "unknown-user", "invalid-username-encoding", "no-resources", "other-error", "reason"]
CBNAME = {"exporter": "tls-exporter", "unique": "tls-unique", "own": "tls-server-end-point"}
# types of an application's own: most are easily taken for one of the others
OWN = ["tls-server-end-point"] * 3 + ["TLS-EXPORTER", "Tls-Unique", "tls-exporte", "tls-exporter2", "exporter", "tls-unique-for-telnet", "x", "u" * 64, "v.-" * 40]
C, V, C0, V0, V2 = 0, 1, 2, 3, 4


def m(kind, **k):
    if "b" in k:
        k["b"] = b(k["b"])
    return dict(m=kind, **k)


def rec(s, k, *muts):
    return dict(rec=[s, k], mut=list(muts))


def e64(x):
    return base64.b64encode(x)


def esc(s):
    return s.replace("=", "=3D").replace(",", "=2C")


def header(flag, authz):
    """GS2 header of a flag as the model has it"""
    if flag.startswith("p="):
        flag = "p=" + CBNAME.get(flag[2:], flag[2:])
    return (flag + "," + ("a=" + esc(authz) if authz else "") + ",").encode()


def exts(r):
    """Extensions nobody knows"""
    if r.random() < 0.3:
        return r.choice([",x=y", ",Z=1,t==", ",x=\u00fc"])
    one = lambda: "," + r.choice("bdfghjkloqtuwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ") + "=" + r.choice(["y", "1", "=", "a=b", "\u20ac", " ", "x" * 100, "m=y", "\"\\", "!", "~"])
    return "".join(one() for _ in range(r.choice([1, 1, 2, 3, 8])))


def scenario(S, suite, beh, r, alg=None):
    k, acts = beh["cfg"], beh["acts"]
    CBNAME["own"] = r.choice(OWN)
    mech = alg or r.choice(SCRAM)
    base = mech
    if k["plus"]:
        mech += "-PLUS"
    user_, pw = name(r), secret(r)
    salt = salt_of(r, [8, 16, 16, 17, 1, 40])
    it = r.choice([1, 2, 3, 5, 10, 64, 127])
    authz = another(r, user_, name(r)) if k["authz"] else ""
    eve = "eve,=" + "x" * r.randint(0, 3)
    d1 = bytes(r.randrange(256) for _ in range(r.choice([1, 12, 32, 36])))
    d2 = d1[:-1] + bytes([d1[-1] ^ r.choice([1, 128, 255])]) if r.random() < 0.7 else d1 + b"\0"
    data = {"d1": d1, "d2": d2, "": b""}
    me = user_ if k["user"] == "alice" else eve
    mypw = pw if k["pw"] == "right" else like(r, pw)
    # ---- client
    script = [sat("AuthId", me)]
    if authz:
        script.append(sat("AuthzId", authz))
    if k["secret"] == "pw":
        script.append(sat("Password", mypw))
    else:
        sp = salted(alg_of(mech), mypw.encode(), salt, it)
        if k["secret"] == "salted":
            script.append(sat("SaltedPassword", sp))
        else:
            script.append(sat("ScramCachedPassword", ck=b(keys(alg_of(mech), sp)[0]), sk=b(keys(alg_of(mech), sp)[1])))
    if r.random() < 0.5:
        script.append(act("ScramCachedPassword"))
    cpcb, spcb = [], []
    if k["cbind"][0] != "none":
        t = CBNAME[k["cbind"][0]]
        if k["cbind"][0] == "own" and k["plus"]:
            script.append(sat("OverrideCBType", t))
            if r.random() < 0.4:
                script.append(sat("ChannelBindings", data[k["cbind"][1]]))
            else:
                cpcb.append([t, data[k["cbind"][1]]])
        else:
            cpcb.append([t, data[k["cbind"][1]]])
    r.shuffle(script)
    # ---- server
    rec_user = user(mech, user_, pw, salt, it)
    others = [user(mech, "mallory", "m", b"othersalt", 3)] if r.random() < 0.5 else []
    sscript = [stored(others + [rec_user] if r.random() < 0.5 else [rec_user] + others)]
    if k["sbind"][0] != "none":
        spcb.append([CBNAME[k["sbind"][0]], data[k["sbind"][1]]])
    regs = [mech]
    if k["splus"] and not k["plus"]:
        regs = r.choice([[base, base + "-PLUS"], [base + "-PLUS", base]])
    ccfg = cfg([mech], script, cb=k["con"])
    scfg = cfg(regs, sscript, [fin(ctx="AuthId")], cb=r.random() < 0.5)
    cfgs, sess = [ccfg, scfg], [client(0, [mech] + (["X-UNKNOWN"] if r.random() < 0.2 else []), cpcb), server(1, mech, spcb)]
    ops = []

    def sdata(flag):
        return data[k["sbind"][1]] if flag == "p=" + k["sbind"][0] else b""
    # the client's own flag
    flag = "p=" + k["cbind"][0] if k["plus"] else "y" if k["con"] and not k["offered"] else "n"
    hdr = header(flag, authz)
    needs0 = any(a in ("replay", "proof-replay") for a in acts)
    needs2 = "fork" in acts
    if needs0 or needs2:
        # an exchange of the honest user, recorded earlier
        cfgs.append(cfg([base], [sat("AuthId", user_), sat("Password", pw)]))
        cfgs.append(cfg([base], [stored([user(base, user_, pw, salt, it)])], [fin(ctx="AuthId")]))
        sess.append(client(2, [base]))
        sess.append(server(3, base))
        sess.append(server(1, mech, spcb))
    if needs0:
        ops.append(talk(C0, V0))
    cf, sf, cl, sl = acts[0], acts[1], acts[2], acts[3]
    via = lambda: r.choice(["step", "step", "step64"])
    if r.random() < 0.1:
        ops.append(step(V, None))       # nothing lost by asking early
    ops.append(step(C, None, via()))
    # what the server has as GS2 header afterwards
    rflag, rauthz = flag, authz
    x = None
    if cf == "same":
        x = rec(C, 0)
    elif cf == "replay":
        x = rec(C0, 0)
        rflag, rauthz = "n", ""
    elif cf.startswith("flag-"):
        rflag = {"flag-n": "n", "flag-y": "y", "flag-p-exporter": "p=exporter", "flag-p-unique": "p=unique"}[cf]
        x = rec(C, 0, m("gs2", b=header(rflag, authz)))
    elif cf == "authz":
        rauthz = "admin" if authz != "admin" else "root"
        x = rec(C, 0, m("gs2", b=header(flag, rauthz)))
    elif cf in ("user-eve", "user-alice"):
        x = rec(C, 0, m("attr", k="n", b=esc(eve if cf == "user-eve" else user_)))
    elif cf == "nonce-flip":
        x = rec(C, 0, m("attrsub", k="r", at=r.randint(-5, 5), how=r.choice(["a", "case", "exch", "bit"])))
    elif cf == "nonce-cut":
        x = rec(C, 0, m("attrtrunc", k="r", at=-r.randint(6, 9)))
    elif cf == "nonce-app":
        x = rec(C, 0, m("attrapp", k="r", b=r.choice(["A", "==", "x" * 20])))
    elif cf == "ext":
        x = rec(C, 0, m("app", b=exts(r)))
    elif cf == "mext":
        x = rec(C, 0, m("gs2", b=hdr + b"m=x,"))
    elif cf != "none":
        raise ValueError(cf)
    if x is not None:
        ops.append(step(V, x, via()))
    if needs2:
        ops.append(step(V2, rec(C, 0)))
    x = None
    if sf in ("same", "none"):
        x = rec(V, 0) if sf == "same" else None
    elif sf == "replay":
        x = rec(V0, 0)
    elif sf == "fork":
        x = rec(V2, 0)
    elif sf == "pose":
        x = dict(scram="sfirst", of=C, ext=b("atkatkatkatkatkatkatkatk" + "y" * r.randint(0, 9)), salt=b("posesalt"), iter=b("7"))
    elif sf == "nonce-flip":
        x = rec(V, 0, m("attrsub", k="r", at=-r.randint(1, 8)))
    elif sf == "nonce-flip-client":
        x = rec(V, 0, m("attrsub", k="r", at=r.randint(0, 8), how=r.choice(["a", "case", "exch", "bit"])))
    elif sf == "nonce-client-only":
        x = rec(V, 0, {"m": "attr", "k": "r", "from": [C, 0, "r"]})
    elif sf == "nonce-app":
        x = rec(V, 0, m("attrapp", k="r", b=r.choice(["A", "x" * 20])))
    elif sf == "salt":
        x = rec(V, 0, m("attr", k="s", b=e64(salt + b"x")))
    elif sf == "iter":
        x = rec(V, 0, m("attr", k="i", b=str(it + r.choice([1, 2, 100]))))
    elif sf == "salt-bad":
        x = rec(V, 0, m("attr", k="s", b=r.choice(["!!!!", "AB==", "AAA", "QUI", "AA=A", "c2FsdA", "c2FsdA=", "c2FsdB=="])))
    elif sf == "iter-zero":
        x = rec(V, 0, m("attr", k="i", b=r.choice(["0", "00", "000000"])))
    elif sf == "iter-sign":
        x = rec(V, 0, m("attr", k="i", b=r.choice(["+5", "-5", "5x", " 5", "5 ", "0x5", "", "4294967296", "99999999999999999999"])))
    elif sf == "mext":
        x = rec(V, 0, m("pre", b="m=x,"))
    elif sf == "ext":
        x = rec(V, 0, m("app", b=exts(r)))
    else:
        raise ValueError(sf)
    if x is not None:
        ops.append(step(C, x, via()))
    x = None
    rh, rd = header(rflag, rauthz), sdata(rflag)
    mydata = data[k["cbind"][1]] if flag.startswith("p=") else b""
    ins = dict(scram="cfinal", of=V, pw=b(pw), salt=b(salt), iter=it)
    if cl in ("same", "none"):
        x = rec(C, 1) if cl == "same" else None
    elif cl == "replay":
        x = rec(C0, 1)
    elif cl == "pose":
        x = dict(scram="cfinal", of=V, pw=b(r.choice(unlike(pw, [pw + "1", "", "m", user_]))), cbin=b(rh + rd))
        if r.random() < 0.3:
            z = [r.choice([0, 0, 255])] * hlen(mech)
            x.update(ck=z, sk=z)
    elif cl == "pose-stored":
        x = dict(scram="cfinal", of=V, ck=rec_user["stored"], sk=rec_user["server"], cbin=b(rh + rd))
        if r.random() < 0.5:
            x["stored"] = rec_user["stored"]
    elif cl.startswith("insider"):
        x = dict(ins, cbin=b(rh + rd))
        if cl == "insider-cb-flip":
            i = r.randrange(len(rh + rd))
            x["cbin"] = [y ^ (r.choice([1, 32, 128]) if j == i else 0) for j, y in enumerate(rh + rd)]
        elif cl == "insider-cb-cut":
            x["cbin"] = b((rh + rd)[:-r.randint(1, len(rh + rd))])
        elif cl == "insider-cb-app":
            x["cbin"] = b(rh + rd + r.choice([b"x", b"\0", rh + rd]))
        elif cl == "insider-cb-empty":
            x["cbin"] = []
        elif cl == "insider-cb-header":
            x["cbin"] = b(header(rflag, rauthz + "x") + rd)
        elif cl == "insider-nonce-flip":
            x["nonce"] = {"sub": -r.randint(1, 9), "how": r.choice(["a", "case", "exch", "bit"])}
        elif cl == "insider-nonce-flip-client":
            x["nonce"] = {"sub": r.randint(0, 9), "how": r.choice(["a", "case", "exch", "bit"])}
        elif cl == "insider-nonce-cut":
            x["nonce"] = {"cut": -r.randint(1, 12)}
        elif cl == "insider-nonce-app":
            x["nonce"] = {"app": b(r.choice(["A", "AAAAAAAA"]))}
        elif cl == "insider-nonce-client-only":
            x["nonce"] = {"client": 1}
        elif cl == "insider-nonce-empty":
            x["nonce"] = []
        elif cl == "insider-ext":
            x["ext"] = b(exts(r))
        elif cl == "insider-mext":
            x["ext"] = b(",m=y")
        elif cl != "insider":
            raise ValueError(cl)
    elif cl == "cb-flip":
        x = rec(C, 1, m("attrflip", k="c", at=r.randint(0, 5) if mydata == b"" else r.randint(-len(mydata), -1), x=r.choice([1, 64])))
        if not mydata:
            x = rec(C, 1, m("attr", k="c", b=e64(hdr + b"'")))
    elif cl == "cb-n":
        x = rec(C, 1, m("attr", k="c", b=e64(header("n", ""))))
    elif cl == "cb-y":
        x = rec(C, 1, m("attr", k="c", b=e64(header("y", ""))))
    elif cl == "cb-want":
        x = rec(C, 1, m("attr", k="c", b=e64(rh + rd)))
    elif cl == "cb-app":
        x = rec(C, 1, m("attrapp64", k="c", b=r.choice(["x", "\0\0"])))
    elif cl == "cb-empty":
        x = rec(C, 1, m("attr", k="c", b=""))
    elif cl == "nonce-flip":
        x = rec(C, 1, m("attrsub", k="r", at=-r.randint(1, 9), how=r.choice(["a", "case", "exch", "bit"])))
    elif cl == "nonce-cut":
        x = rec(C, 1, m("attrtrunc", k="r", at=-r.randint(1, 9)))
    elif cl == "nonce-app":
        x = rec(C, 1, m("attrapp", k="r", b=r.choice(["A", "xx"])))
    elif cl == "nonce-client-only":
        x = rec(C, 1, {"m": "attr", "k": "r", "from": [C, 0, "r"]})
    elif cl == "nonce-want":
        x = rec(C, 1, {"m": "attr", "k": "r", "from": [V, 0, "r"]})
    elif cl == "proof-flip":
        x = rec(C, 1, m("attrflip", k="p", at=r.randint(-hlen(mech), hlen(mech) - 1), x=r.choice([1, 2, 16, 128, 255])))
    elif cl == "proof-cut":
        x = rec(C, 1, m("attrcut64", k="p", at=r.choice([-1, -2, 1, hlen(mech) // 2])))
    elif cl == "proof-app":
        x = rec(C, 1, m("attrapp64", k="p", b=r.choice(["x", "\0", "x" * hlen(mech)])))
    elif cl == "proof-empty":
        x = rec(C, 1, m("attr", k="p", b=""))
    elif cl == "proof-replay":
        x = rec(C, 1, {"m": "attr", "k": "p", "from": [C0, 1, "p"]})
    elif cl == "ext":
        x = rec(C, 1, m("insp", b=exts(r)))
    elif cl == "mext":
        x = rec(C, 1, m("insp", b=",m=y") if r.random() < 0.5 else m("pre", b="m=y,"))
    elif cl == "no-proof":
        x = rec(C, 1, m("dropattr", k="p"))
    else:
        raise ValueError(cl)
    if x is not None:
        ops.append(step(V, x, via()))
    x = None
    if sl in ("same", "none"):
        x = rec(V, 1) if sl == "same" else None
    elif sl == "replay":
        x = rec(V0, 1)
    elif sl == "error":
        x = dict(b=b(r.choice(["e=" + r.choice(ERRORVALUES), "e=" + r.choice(ERRORVALUES), "e=", "e=x,v=abcd"])))
    elif sl == "empty":
        x = dict(b=b(r.choice(["", "v", "x=y", "v:", "V=AAAA", "v=!!!", "="])))
    elif sl == "pose":
        x = dict(scram="sfinal", of=C, pw=b(r.choice(unlike(mypw, [mypw + "x", "m"]))), salt=b(salt), iter=it)
    elif sl == "echo-proof":
        x = rec(C, 1, {"m": "rep", "from": [C, 1, "p"]}, m("pre", b="v="))
    elif sl == "sig-flip":
        x = rec(V, 1, m("attrflip", k="v", at=r.randint(-hlen(mech), hlen(mech) - 1), x=r.choice([1, 2, 16, 128, 255])))
    elif sl == "sig-cut":
        x = rec(V, 1, m("attrcut64", k="v", at=r.choice([-1, -2, 1, hlen(mech) // 2])))
    elif sl == "sig-app":
        x = rec(V, 1, m("attrapp64", k="v", b=r.choice(["x", "\0", "x" * hlen(mech)])))
    elif sl == "sig-empty":
        x = rec(V, 1, m("attr", k="v", b=""))
    elif sl == "ext":
        x = rec(V, 1, m("app", b=exts(r)))
    elif sl == "mext":
        x = rec(V, 1, m("app", b=r.choice([",m=y", ",", ",x", ",=y"])))
    else:
        raise ValueError(sl)
    if x is not None:
        ops.append(step(C, x, via()))
    ops.append(validation(V))
    if r.random() < 0.6:
        # whatever comes after the end
        right = dict(ins, cbin=b(rh + rd))
        proof = dict(scram="sfinal", of=C, pw=b(mypw), salt=b(salt), iter=it)
        late = [after(V, right, via()), after(C, proof, via()), after(V, rec(C, 1), via()), after(C, rec(V, 1), via()),
                after(V, rec(C, 0), via()), after(C, None, via()), after(V, None, via()), after(C, rec(V, 0), via())]
        ops += r.sample(late, r.randint(1, 4))
    ops.append(validation(V))
    S.add(suite, cfgs, sess, ops, exp=[[C, beh["client"]], [V, beh["server"]]], beh=beh)


def pick(behs, n, r):
    """At most n behaviours; every combination of manipulations stays represented"""
    if len(behs) <= n:
        return list(behs)
    groups = {}
    for x in behs:
        groups.setdefault(tuple(x["acts"]), []).append(x)
    out, pools = [], [r.sample(g, len(g)) for _, g in sorted(groups.items())]
    r.shuffle(pools)
    while len(out) < n:
        for p in pools:
            if p and len(out) < n:
                out.append(p.pop())
    return out
