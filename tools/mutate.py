#!/usr/bin/env python3
"""mutate.py [--n N] [--seed S] [--workers W] [--files REGEX] [--list]: small changes of the library, one after the other in
scratch copies. Those that compile and pass the tests are run against the checks of the code concerned, until one notices.
Survivors are printed: each either changes nothing observable, changes something no property is about, or shows a gap."""
import argparse
import concurrent.futures
import importlib.util
import json
import os
import queue
import random
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/mutate"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.82.0")
STABLE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = STABLE.get("stable") or STABLE.get("passed")

# which checks look at which code, the likeliest first
CHECKS = [
    (r"scram/server", "C01 C03 C07 C04 C05 C08 C09 C10 C14 C12 C16 C17"),
    (r"scram/client", "C02 C18 C03 C04 C05 C09 C10 C14 C16 C17"),
    (r"scram/", "C01 C02 C07 C18 C04 C03 C05 C06 C11 C12"),
    (r"gssapi/", "C20 C21 C10 C06 C09 C08 C14 C16 C17"),
    (r"xoauth2/|oauthbearer/", "C19 C07 C05 C09 C06 C10 C08 C14 C16 C17"),
    (r"mechanisms/\w+/", "C07 C05 C09 C10 C08 C14 C16 C06 C12"),
    (r"mechname", "C22 C11 C12 C06"),
    (r"vectored_io", "C16 C17"),
    (r"session", "C09 C17 C16 C10 C08 C21 C20 C14 C13 C06"),
    (r"validate", "C08 C09 C24 C13"),
    (r"registry|mechanism.rs|mechanisms/mod", "C12 C11 C23 C09 C03"),
    (r"config|builder|sasl.rs", "C23 C11 C12 C03 C24 C09"),
    (r"callback|property|context|typed", "C13 C14 C08 C23 C18 C09"),
    (r"", "C09 C13 C03 C08 C11 C22 C06"),
]


def sh(cmd, cwd, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


SWAPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"if !", "if "), (r"\bis_some\(\)", "is_none()"), (r"\bis_none\(\)", "is_some()"), (r"(\b[\w.]+)\.is_empty\(\)", r"!\1.is_empty()"),
    (r"MessageSent::Yes", "MessageSent::No"), (r"MessageSent::No\b", "MessageSent::Yes"), (r"State::Running", "State::Finished(MessageSent::No)"),
    (r"State::Finished\(MessageSent::\w+\)", "State::Running"),
    (r"starts_with", "ends_with"), (r"ends_with", "starts_with"), (r"\?;$", ".ok();"), (r"\+ 1\b", "+ 2"), (r"- 1\b", "- 0"),
    (r"b'(.)'", lambda m: "b'%s'" % chr(ord(m[1]) ^ 2)), (r'"([^"\\{}]+)"', lambda m: '"%s"' % m[1][:-1]), (r'b"([^"\\]+)"', lambda m: 'b"%s"' % m[1][:-1]),
    (r"\.\.(\w+)\]", r"..\1 - 1]"), (r"\[(\w+)\.\.", r"[\1 + 1.."), (r"Some\(([\w.&]+)\)([,;)])", r"None\2"),
    (r"\bmax\(", "min("), (r"\bmin\(", "max("), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\bfind\(", "rfind("), (r"splitn\(", "rsplitn("),
    (r"\bmaybe_", "need_"), (r"Side::Client", "Side::Server"), (r"Side::Server", "Side::Client"),
    (r"\.next\(\)", ".last()"), (r"\.first\(\)", ".last()"), (r"\.or\(", ".and("), (r"\bposition\(", "rposition("),
    (r"\b(\d+)\b(?!\.)", lambda m: str(int(m[1]) + 1)), (r"\b([1-9]\d*)\b(?!\.)", lambda m: str(int(m[1]) - 1)),
    (r"&& (.*) \{$", "{"), (r"\.0\b", ".1"), (r"\.1\b", ".0"),
]


def code_lines(text):
    """Numbers of the lines that are code, without tests, comments and attributes"""
    skip = None
    for n, l in enumerate(text.split("\n")):
        s = l.strip()
        if skip is not None:
            depth += l.count("{") - l.count("}")
            if "{" in l:
                seen = True
            if seen and depth <= 0:
                skip = None
            continue
        if s.startswith("#[cfg(") and "test" in s:
            skip, depth, seen = n, 0, False
            continue
        if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "write!", "f.write", "}", "log::", "tracing", "impl", "unreachable", "panic", "assert", "debug_assert")):
            continue
        yield n, l


def candidates(files):
    out = []
    for f in files:
        text = open("/repo/" + f).read()
        lines = text.split("\n")
        for n, l in code_lines(text):
            code = l.split("//")[0].rstrip()
            for pat, to in SWAPS:
                for m in re.finditer(pat, code):
                    new = code[:m.start()] + (m.expand(to) if isinstance(to, str) else to(m)) + code[m.end():]
                    if new != code:
                        out.append((f, n, new))
            s = code.strip()
            # a statement left out
            if s.endswith(";") and not s.startswith(("let ", "type ", "const ", "static ", "pub ", "fn ", "return")) and (lines[n - 1].rstrip().endswith((";", "{", "}", ",")) or lines[n - 1].strip().startswith("//")):
                out.append((f, n, ""))
            # an error that isn't one
            if re.match(r"return Err\(.*\);$", s):
                out.append((f, n, ""))
            # an arm of a match that is never taken
            if re.match(r".* => .*", s) and not s.startswith("_"):
                out.append((f, n, re.sub(r" => ", " if false => ", code, count=1)))
    return sorted(set(out))


def prepare(w):
    d = os.path.join(SCRATCH, "w%d" % w)
    os.makedirs(d, exist_ok=True)
    sh("rsync -a --delete --exclude target /repo/ %s/repo/" % d, "/")
    sh("rsync -a --delete --exclude /harness/target --exclude /work --exclude /seeded --exclude .git %s/ %s/verif/" % (ROOT, d), "/")
    return d


def one(mut, w):
    f, n, new = mut
    d = os.path.join(SCRATCH, "w%d" % w)
    repo = d + "/repo"
    sh("rsync -a --delete --exclude target --exclude .git /repo/ repo/ && find repo/src -newer repo/Cargo.toml -name '*.rs' | xargs -r touch", d)
    p = os.path.join(repo, f)
    lines = open(p).read().split("\n")
    old, lines[n] = lines[n], new
    open(p, "w").write("\n".join(lines))
    r = dict(file=f, line=n + 1, old=old.strip(), new=new.strip())
    tgt = {"CARGO_TARGET_DIR": d + "/target"}
    rc, out = sh("cargo check --workspace --all-features --offline -q", repo, tgt)
    if rc:
        return dict(r, result="nocompile")
    logs = d + "/logs"
    sh("rm -rf %s; mkdir -p %s" % (logs, logs), "/")
    sh("timeout 200 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > %s/1-default.log 2>&1" % logs, repo, tgt)
    sh("timeout 200 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > %s/2-all-features.log 2>&1" % logs, repo, tgt)
    sh("python3 /opt/vp/results.py %s/t.json 'cargo:%s/*.log'" % (d, logs), repo)
    passed = json.load(open(d + "/t.json"))["passed"]
    if [x for x in STABLE if x not in passed]:
        return dict(r, result="tests")
    for c in next(cs for pat, cs in CHECKS if re.search(pat, f)).split():
        rc, out = sh("python3 check.py %s --tier quick" % c, d + "/verif")
        if rc == 1:
            return dict(r, result="caught", by=c, rules=sorted(set(re.findall(r'"rule": "(\w+)"', out))))
        if rc:
            return dict(r, result="ERROR", by=c, out=out[-300:])
    return dict(r, result="SURVIVED")


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--n", type=int, default=100)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--workers", type=int, default=3)
    a.add_argument("--files", default="")
    a.add_argument("--list", action="store_true")
    o = a.parse_args()
    files = sorted(subprocess.run("git ls-files src | grep rs$ | grep -v test", shell=True, cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split())
    files = [f for f in files if re.search(o.files, f) and not f.endswith(("docs.rs", "error.rs"))]
    c = candidates(files)
    print(len(c), "changes")
    random.Random(o.seed).shuffle(c)
    # as many per file as it has lines, at most
    c = c[:o.n]
    if o.list:
        for x in c:
            print(x)
        return
    ws = queue.Queue()
    for w in range(o.workers):
        prepare(w)
        ws.put(w)

    def run(m):
        w = ws.get()
        try:
            return one(m, w)
        except Exception as e:
            return dict(file=m[0], line=m[1], result="EXC " + repr(e))
        finally:
            ws.put(w)
    count = {}
    with concurrent.futures.ThreadPoolExecutor(o.workers) as ex:
        for r in ex.map(run, c):
            count[r["result"]] = count.get(r["result"], 0) + 1
            if r["result"] not in ("nocompile", "tests"):
                print(json.dumps(r))
                sys.stdout.flush()
    print(count)


main()
