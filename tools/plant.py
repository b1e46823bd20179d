#!/usr/bin/env python3
"""plant.py [--all-checks] [--workers N] ID...|all: confirm planted bugs in scratch copies and run the checks against them.

For each: the patch applies, the tests pass with it, the demo fails with it and passes without, and the check of its
property (or all checks) reports it. Nothing is done in /repo itself."""
import argparse
import concurrent.futures
import glob
import json
import os
import queue
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.82.0")
STABLE = json.load(open("/opt/vp/BASELINE.json"))
STABLE = STABLE.get("stable") or STABLE.get("passed")


def sh(cmd, cwd, env=None, timeout=1200):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def prepare(w):
    d = os.path.join(SCRATCH, "w%d" % w)
    os.makedirs(d, exist_ok=True)
    sh("rsync -a --delete --exclude target /repo/ %s/repo/" % d, "/")
    sh("find %s/repo/src -name '*.rs' -exec touch {} +" % d, "/")  # rsync restores old times, by which cargo would go
    sh("rsync -a --delete --exclude /harness/target --exclude /harness-gss/target --exclude /work --exclude /seeded --exclude .git %s/ %s/verif/" % (ROOT, d), "/")
    return d


def one(bug, w, o):
    d = prepare(w)
    repo, src = d + "/repo", os.path.join(ROOT, "seeded", bug)
    meta = json.load(open(src + "/meta.json"))
    r = dict(bug=bug, property=meta["property"])
    tgt = {"CARGO_TARGET_DIR": d + "/target"}
    demo = {"DEMO_TARGET": d + "/demo-target"}
    if not o.checks_only:
        rc, out = sh("bash %s/demo.sh" % src, repo, demo)
        r["demo_clean"] = rc
        if rc:
            r["demo_out"] = out[-1500:]
    rc, out = sh("git apply %s/patch.diff" % src, repo)
    if rc:
        return dict(r, error="patch: " + out)
    if not o.checks_only:
        logs = d + "/logs"
        shutil.rmtree(logs, ignore_errors=True)
        os.makedirs(logs)
        sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > %s/1-default.log 2>&1" % logs, repo, tgt)
        sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > %s/2-all-features.log 2>&1" % logs, repo, tgt)
        sh("python3 /opt/vp/results.py %s/t.json 'cargo:%s/*.log'" % (d, logs), repo)
        passed = json.load(open(d + "/t.json"))["passed"]
        r["lost"] = [x for x in STABLE if x not in passed]
        if r["lost"]:
            r["build"] = open(logs + "/2-all-features.log").read()[-1500:]
        rc, out = sh("bash %s/demo.sh" % src, repo, demo)
        r["demo_bug"] = rc
    props = [meta["property"]]
    if o.all_checks:
        m = json.load(open(ROOT + "/MANIFEST.json"))
        props += [c["property"] for c in m["checks"] if c["property"] != meta["property"]]
    r["checks"] = {}
    for p in props:
        rc, out = sh("python3 check.py %s --tier %s" % (p, o.tier), d + "/verif", {"VERIF_SEED": str(o.seed)})
        ok = rc == 1 and "VIOLATION property=%s " % p in out
        rules = sorted(set(re.findall(r'"rule": "(\w+)"', out)))
        r["checks"][p] = "caught" if ok else "quiet" if rc == 0 else "ERROR %d: %s" % (rc, out[-600:])
        if ok:
            r.setdefault("rules", {})[p] = rules
    return r


def main():
    a = argparse.ArgumentParser()
    a.add_argument("bugs", nargs="+")
    a.add_argument("--all-checks", action="store_true")
    a.add_argument("--checks-only", action="store_true")
    a.add_argument("--workers", type=int, default=3)
    a.add_argument("--tier", default="quick")
    a.add_argument("--seed", type=int, default=1)
    o = a.parse_args()
    bugs = o.bugs
    if bugs == ["all"]:
        bugs = sorted(os.path.basename(os.path.dirname(x)) for x in glob.glob(ROOT + "/seeded/*/meta.json"))
    ws = queue.Queue()
    for w in range(o.workers):
        ws.put(w)

    def run(b):
        w = ws.get()
        try:
            return one(b, w, o)
        except Exception as e:
            return dict(bug=b, error=repr(e), checks={})
        finally:
            ws.put(w)
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(o.workers) as ex:
        for r in ex.map(run, bugs):
            good = "error" not in r and not r.get("lost") and r.get("demo_clean", 0) == 0 and r.get("demo_bug", 1) != 0
            caught = [p for p, x in r.get("checks", {}).items() if x == "caught"]
            print("%-28s %s %-7s by %s %s" % (r["bug"], r.get("property"), "ok" if good else "INVALID", ",".join(caught) or "NOBODY", r.get("rules", {}).get(r.get("property"), "")))
            if not good or not caught or any(x.startswith("ERROR") for x in r["checks"].values()):
                bad += 1
                print("   ", json.dumps({k: v for k, v in r.items() if k not in ("bug",)})[:2500])
            sys.stdout.flush()
    sys.exit(bad > 0)


main()
