"""Building blocks for scenarios (the input language of the harness)."""
import hashlib
import hmac as _hmac
import random


def b(x):
    """bytes/str -> list of ints"""
    if isinstance(x, str):
        x = x.encode()
    return list(x)


OP = dict(op="", p="", v=[], q=True, f=[], k="", n=[], e=[], kv=[], ck=[], sk=[], users=[])


def op(kind, p="", **k):
    o = dict(OP, op=kind, p=p)
    o.update(k)
    return o


def sat(p, v=b"", q=True, **k):
    return op("sat", p, v=b(v), q=q, **k)


def satw(p, v=b"", q=True, f=None, **k):
    return op("satw", p, v=b(v), q=q, f=[f] if f else [], **k)


def act(p):
    return op("act", p)


def err(k, n=b""):
    return op("err", k=k, n=b(n))


def errp(p, k, n=b""):
    return op("errp", p, k=k, n=b(n))


def fault(k, n=b""):
    return dict(k=k, n=b(n))


def ret():
    return op("ret")


def kv(pairs, q=True):
    return op("sat", "OAuthBearerKV", kv=[[b(x), b(y)] for x, y in pairs], q=q)


def cached(ck, sk, q=True):
    return op("sat", "ScramCachedPassword", ck=b(ck), sk=b(sk), q=q)


def stored(users, q=True):
    return op("sat", "ScramStoredPassword", users=users, q=q)


def xval(e=None, q=True, kind="sat"):
    return op(kind, "XOAuth2Validate", e=[] if e is None else [b(e)], q=q)


def oval(e=None, q=True):
    if e is not None:
        s, c, o = e
        e = dict(status=b(s), scope=[] if c is None else [b(c)], conf=[] if o is None else [b(o)])
    return op("sat", "OAuthBearerValidate", e=[] if e is None else [e], q=q)


VAL = dict(op="", t="A", v=[], f=[], n=[], q=True, ctx="")


def fin(v=b"", t="A", ctx=""):
    return dict(VAL, op="fin", t=t, v=b(v), ctx=ctx)


def vwith(v=b"", t="A", f=None, q=True, ctx=""):
    return dict(VAL, op="with", t=t, v=b(v), f=[] if f is None else [b(f)], q=q, ctx=ctx)


def verr(n=None):
    return dict(VAL, op="err", n=[] if n is None else [b(n)])


def cfg(regs=None, script=(), val=(), cb=False, prefer=None, default=False, cred=None, static=False):
    c = dict(regk="list", regs=list(regs or []), cred=[[], [], []], script=list(script), val=list(val), cb=cb,
             prefer=[] if prefer is None else [[[m, r] for m, r in prefer.items()]])
    if default or static:
        c["regk"] = "static" if static else "default"
    if cred is not None:
        z, u, w = cred
        c["regk"] = "cred"
        c["cred"] = [[] if z is None else [b(z)], [b(u)], [b(w)]]
    return c


def client(c, offers, pcb=(), g=0):
    return dict(cfg=c, side="client", offers=list(offers), sel="", pcb=[[n, b(d)] for n, d in pcb], val="N", g=g)


def server(c, sel, pcb=(), val="A", g=0):
    return dict(cfg=c, side="server", offers=[], sel=sel, pcb=[[n, b(d)] for n, d in pcb], val=val, g=g)


def step(s, inp=None, via="step", **k):
    """inp: None, bytes/str/list, or an input description"""
    if inp is not None and not isinstance(inp, dict):
        inp = dict(b=b(inp))
    o = dict(op="step", s=s, via=via)
    o["in"] = inp
    o.update(k)
    return o


def after(s, inp, via="step", **k):
    """A step of a session that came to its end (none if it did not)"""
    return step(s, inp, via, after=True, **k)


def talk(c, v, via="step", inj=(), **k):
    return dict(op="talk", c=c, v=v, via=via, inj=list(inj), **k)


def validation(s):
    return dict(op="validation", s=s)


def has(s):
    return dict(op="has", s=s)


def info(s):
    return dict(op="info", s=s)


def enc(s, d=b"data"):
    return dict(op="enc", s=s, b=b(d))


def dec(s, d=b"data"):
    return dict(op="dec", s=s, b=b(d))


class Scenarios:
    def __init__(self):
        self.all = []

    def add(self, suite, cfgs, sess, ops, **k):
        self.all.append(dict(id="%s-%05d" % (suite, len(self.all)), suite=suite, cfgs=cfgs, sess=sess, ops=ops, **k))

    def __len__(self):
        return len(self.all)


# ---------------------------------------------------------------- SCRAM helpers
ALGS = {"1": hashlib.sha1, "256": hashlib.sha256, "512": hashlib.sha512}
SCRAM = ["SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512"]
PLUS = [m + "-PLUS" for m in SCRAM]
SIMPLE = ["PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER"]
BUILTIN = SCRAM + SIMPLE


def alg_of(mech):
    return mech.replace("-PLUS", "").rsplit("-", 1)[1]


def hlen(mech):
    return ALGS[alg_of(mech)]().digest_size


def hmac(a, k, m):
    return _hmac.new(k, m, ALGS[a]).digest()


def salted(a, pw, salt, i):
    return hashlib.pbkdf2_hmac({"1": "sha1", "256": "sha256", "512": "sha512"}[a], pw, salt, i)


def keys(a, sp):
    return hmac(a, sp, b"Client Key"), hmac(a, sp, b"Server Key")


def user(mech, name, pw, salt, i):
    a = alg_of(mech)
    ck, sk = keys(a, salted(a, pw.encode() if isinstance(pw, str) else pw, salt, i))
    return dict(user=b(name), salt=b(salt), iter=b(str(i)), stored=b(ALGS[a](ck).digest()), server=b(sk))


# ---------------------------------------------------------------- strings
WORDS = ["user", "alice", "bob@example.com", "u", "name with space", "quote\"s", "back\\slash", "semi;colon",
         "tab\there", "x" * 64]
TRICKY = ["a,b", "a=b", ",", "=", "=2C", "=3D", "a=2Cb=3D", ",,==", "n=,r=", "a,n=admin", "x=,y", "=2c", "%2C", "n,,"]
UNI = ["\u00fcser", "\u65e5\u4e00", "\u0430\u0431", "\u20ac5", "a\U0001d11eb", "\u00e9,\u00e9=", "\u0627\u0628"]


ODD = ["\n", "\r\n", "\t", "\x7f", "\u00a0", "u\u0308", "\u00fc", "\ufeff", "\u00ad", "\u200d", "\u202e", "\u212b", "\ufb01", "\u0130", "\U0001f511"]


def odd_text(r):
    """Text with characters that are easily dropped, replaced or refused"""
    o, p = r.choice(ODD), r.choice(["pencil", "p", ""])
    return r.choice([o + p, p + o, p + o + p])


def name(r):
    if r.random() < 0.15:
        return odd_text(r)
    k = r.random()
    if k < 0.4:
        return r.choice(WORDS)
    if k < 0.75:
        return r.choice(TRICKY)
    if k < 0.9:
        return r.choice(UNI)
    return "".join(r.choice("abcXYZ019,= .-_/+") for _ in range(r.randint(1, 24)))


def another(r, u, z):
    """A second identity: often this one, or one that's easily taken for the first"""
    if r.random() >= 0.35:
        return z
    o = [u, u, u, u + "x", "x" + u, u[:-1] or u, u + u, u + "," + u] + ([u.swapcase(), u.upper(), u.lower()] if u.isascii() else [])
    return r.choice(o)


def plain_name(r):
    """A name that survives SASLprep unchanged"""
    return r.choice(["user", "alice", "bob@example.com", "u", "quote\"s", "a,b=c", "x" * 40])


# whether secrets are long and random, so that no text has them by chance
LONG = [False]


def unguessable(r):
    return "".join(r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789") for _ in range(r.choice([12, 16, 24, 33, 64, 100])))


def password(r):
    if LONG[0]:
        return unguessable(r)
    if r.random() < 0.4:
        return "".join(chr(r.randint(32, 126)) for _ in range(r.choice([1, 2, 3, 7, 8, 9, 16, 40])))
    return r.choice(["pencil", "p", "pass word", "\u00fc\u20ac", "=,=", "x" * 70, "x" * 130, "123", " p", "p ", "p  q", "\\p\"", "PENCIL"])


def secret(r):
    """A password of any characters, where they are not prepared"""
    if LONG[0] and r.random() < 0.3:
        return unguessable(r) + r.choice(ODD) + unguessable(r)
    if r.random() < 0.6:
        return password(r)
    o, p = r.choice(ODD + ["\0"]), r.choice(["pencil", "p", ""])
    return r.choice([o + p, p + o, p + o + p])


def like(r, p):
    """A password that is easily taken for this one"""
    o = [p + "x", p[:-1], p.swapcase() + "?", "", p + " ", " " + p, p + "\n", p + "\0", p + p, p.swapcase(), p.upper(), p.lower(), p.strip(),
         p.replace(" ", ""), p.replace("\u00fc", "u\u0308"), p.replace("u\u0308", "\u00fc"), p[::-1], p[1:], p[:64], p[:72], p[:8]]
    return r.choice(unlike(p, o))


def unlike(p, o):
    """Those that aren't the same key: keys are padded with zeros"""
    return [x for x in o if x.rstrip("\0") != p.rstrip("\0")]


SALTS = [b"salt", b"saltsalt", b"\0" * 8, b"sixteen octets..", b"s", b"\xff" * 33]


def salt_of(r, sizes=(1, 8, 16, 33)):
    """A salt: any, or one that other accounts have, too"""
    if r.random() < 0.5:
        return r.choice(SALTS)
    return bytes(r.randrange(256) for _ in range(r.choice(sizes)))


def rng(*seed):
    return random.Random(":".join(map(str, seed)))
