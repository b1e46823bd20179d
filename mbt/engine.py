"""Building, running TLC and the harness, and judging what they report."""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import sys

import lib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLS = os.path.join(ROOT, "build", "cls")
HARNESS = os.path.join(ROOT, "harness")
BIN = os.path.join(HARNESS, "target", "debug", "rsasl-conf")
# the same with the library built with feature registry_static
STATIC = os.path.join(HARNESS, "target", "static", "debug", "rsasl-conf")


def fatal(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build_java():
    src = sorted(glob.glob(os.path.join(ROOT, "spec", "java", "*.java")))
    outs = [os.path.join(CLS, os.path.basename(f)[:-5] + ".class") for f in src]
    if all(os.path.exists(o) and os.path.getmtime(o) >= os.path.getmtime(f) for f, o in zip(src, outs)):
        return
    os.makedirs(CLS, exist_ok=True)
    subprocess.run(["javac", "-cp", JARS.split(":")[0], "-d", CLS] + src, check=True)


def build_harness(static=False):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.82.0")
    env.pop("CARGO_TARGET_DIR", None)
    p = subprocess.run(["cargo", "build", "--offline", "-q"] + (["--features", "registry_static", "--target-dir", "target/static"] if static else []),
                       cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode and static:
        print("note: the library does not build with registry_static:\n" + p.stdout[-1000:])
        return False
    if p.returncode:
        fatal("the harness does not build:\n" + p.stdout[-4000:])
    return True


FEATURES = os.path.join(ROOT, "features")


def build_features(features):
    """The program that tells what configurations hold, with the library built with some features only"""
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.82.0")
    env.pop("CARGO_TARGET_DIR", None)
    p = subprocess.run(["cargo", "build", "--offline", "-q", "--features", ",".join(features)], cwd=FEATURES, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print("note: the library does not build with %s only:\n%s" % (", ".join(features), p.stdout[-1000:]))
    return p.returncode == 0


def tlc(directory, module, workers=4, env=None, args=(), meta=None, timeout=840, heap="3g", short=True, cls=None):
    """Run TLC; returns (exit code, output)"""
    e = dict(os.environ)
    e.update(env or {})
    meta = meta or os.path.join(ROOT, "work", "meta", "%s-%d" % (module, os.getpid()))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java"] + (["-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC"] if short else ["-XX:+UseParallelGC"]) + [
        "-Xss256m", "-Xmx" + heap, "-cp", (cls or CLS) + ":" + JARS, "tlc2.TLC", "-metadir", meta,
           "-noGenerateSpecTE", "-workers", str(workers), "-config", module + ".cfg"] + list(args) + [module + ".tla"]
    p = subprocess.run(cmd, cwd=directory, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def printed(out):
    """The JSON values a specification printed"""
    for l in out.splitlines():
        if l.startswith('"{') and l.endswith('}"'):
            yield json.loads(json.loads(l))


def known_findings(prop):
    r = []
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for l in f:
            if l.startswith("known:"):
                k = json.loads(l[6:])
                if k["property"] == prop:
                    r.append(k)
    return r


def matches(k, d):
    """Is deviation d the recorded finding k?"""
    return all(d.get(f) == v for f, v in k["match"].items())


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.dir = os.path.join(ROOT, "work", "%s-%s" % (prop, tier))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.sc = lib.Scenarios()
        self.devs = []
        self.models = []
        self.model_states = self.model_transitions = 0
        self.nscen = self.nevents = self.nstates = 0
        self.traces = {}
        self.samples = []
        self.extra = {}
        build_java()
        build_harness()

    def rng(self, *k):
        return lib.rng(self.seed, self.prop, *k)

    # ---- models
    def model(self, module, **consts):
        """Explore a model exhaustively; its invariants must hold. Returns the behaviours it prints"""
        key = module
        mdir = os.path.join(self.dir, "model-" + module)
        os.makedirs(mdir, exist_ok=True)
        for f in glob.glob(os.path.join(ROOT, "spec", "*.tla")) + glob.glob(os.path.join(ROOT, "spec", "models", "*.tla")):
            shutil.copy(f, mdir)
        cfg = open(os.path.join(ROOT, "spec", "models", module + ".cfg")).read()
        for k, v in consts.items():
            cfg, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + str(v), cfg)
            if n != 1:
                fatal("no constant %s in %s" % (k, module))
        with open(os.path.join(mdir, module + ".cfg"), "w") as f:
            f.write(cfg)
        rc, out = tlc(mdir, module, workers=8, heap="8g", short=self.quick)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if rc or not m:
            fatal("model %s failed:\n%s" % (key, out[-3000:]))
        shutil.rmtree(mdir, ignore_errors=True)
        self.model_states += int(m.group(2))
        self.model_transitions += int(m.group(1))
        b = list(printed(out))
        b.sort(key=lambda x: json.dumps(x, sort_keys=True))
        self.models.append(dict(model=module, consts={k: str(v) for k, v in consts.items()}, states=int(m.group(2)),
                                transitions=int(m.group(1)), behaviours=len(b)))
        return b

    # ---- the real code
    def phase(self, n):
        if os.environ.get("CHECK_TIMES"):
            import time
            print("%8.2f %s" % (time.time() % 1000, n))

    def execute(self):
        static = [s for s in self.sc.all if any(c["regk"] == "static" for c in s.get("cfgs", []))]
        ids = {s["id"] for s in static}
        self._execute([s for s in self.sc.all if s["id"] not in ids], "main", BIN)
        if static and build_harness(True):
            self._execute(static, "static", STATIC)

    def _execute(self, sc, tag, binary):
        self.nscen += len(sc)
        inp, outp = [os.path.join(self.dir, tag + x) for x in (".in.ndjson", ".out.ndjson")]
        todo = sc
        lines = []
        byid = {s["id"]: s for s in sc}
        for attempt in range(6):
            with open(inp, "w") as f:
                for s in todo:
                    f.write(json.dumps(s) + "\n")
            try:
                p = subprocess.run([binary, "run", inp, outp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   timeout=600)
                rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                rc, err = 3, "timeout"
            got = []
            if os.path.exists(outp):
                with open(outp) as f:
                    for l in f:
                        try:
                            j = json.loads(l)
                        except ValueError:
                            continue      # the process died while writing
                        if j.get("hang"):
                            self.dev(j["id"], "hang")
                        else:
                            got.append((j["id"], l))
            if rc == 2:
                fatal("the harness failed: " + err[-2000:])
            cur = glob.glob(outp + ".cur*")
            running = []
            for c in cur:
                running.append(open(c).read())
                os.remove(c)
            lines += got
            if rc == 0:
                break
            if rc != 3:
                done = {i for i, _ in got}
                for i in running:
                    if i in byid and i not in done:
                        self.dev(i, "abort", note="process ended with %s: %s" % (rc, err[-200:]), suspects=len(running))
            # go on with the rest
            skip = {i for i, _ in lines} | {d["id"] for d in self.devs} | set(running)
            todo = [s for s in sc if s["id"] not in skip]
            if not todo or attempt == 5:
                break
        with open(outp, "w") as f:
            for _, l in lines:
                f.write(l)
        self.outputs = getattr(self, "outputs", []) + [outp]
        for i, l in lines:
            self.traces[i] = l
        return outp

    def dev(self, i, rule, **k):
        s = dict(dev=True, id=i, i=0, s=0, rule=rule, e="", mech="", st="")
        s.update(k)
        self.devs.append(s)

    # ---- trace validation
    def judge(self, chunk=None):
        ids = list(self.traces)
        self.nevents = 0
        sizes = {}
        for i in ids:
            sizes[i] = len(json.loads(self.traces[i])["ev"])
            self.nevents += sizes[i]
        if not ids:
            return
        procs = 4
        n = max(1, min(-(-len(ids) // procs), chunk or 2500))
        parts = [ids[k::-(-len(ids) // n)] for k in range(-(-len(ids) // n))]
        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            for r in ex.map(lambda kp: self._validate(kp[0], kp[1], sizes), enumerate(parts)):
                devs, states = r
                self.devs += devs
                self.nstates += states

    def _validate(self, k, ids, sizes):
        devs, states = [], 0
        for attempt in range(20):
            f = os.path.join(self.dir, "chunk%d.ndjson" % k)
            with open(f, "w") as o:
                for i in ids:
                    o.write(self.traces[i])
            rc, out = tlc(os.path.join(ROOT, "spec"), "Trace", workers=2, env={"TRACES": f}, short=self.quick,
                          meta=os.path.join(self.dir, "meta%d" % k))
            found = list(printed(out))
            m = re.search(r"(\d+) distinct states found, 0 states left", out)
            if rc == 0 and m:
                os.remove(f)
                want = sum(sizes[i] + 1 for i in ids)
                if int(m.group(1)) != want:
                    fatal("trace validation is incomplete: %s states of %d" % (m.group(1), want))
                return devs + found, states + want
            # the real code did something the specification cannot even evaluate: single it out
            t = re.findall(r"(?m)^/\\ t = (\d+)$", out)
            if not t or attempt == 19:
                fatal("trace validation failed:\n" + out[-3000:])
            bad = ids[int(t[-1]) - 1]
            e = re.search(r"(?s)Error: (.{0,400})", out)
            at = re.findall(r"(?m)^/\\ i = (\d+)$", out)
            devs.append(dict(dev=True, id=bad, i=int(at[-1]) + 1 if at else 0, s=0, rule="unspecified", e="", mech="", st="",
                             note=e.group(1) if e else ""))
            ids = [i for i in ids if i != bad]
            if not ids:
                return devs, states
        return devs, states

    def defined(self, n=1500, size=12000):
        """Judge a sample again without the fast versions of the operators of Bytes: both have to agree"""
        ids = [i for i, l in self.traces.items() if len(l) < size]
        ids = self.rng("defined").sample(ids, min(n, len(ids))) or sorted(self.traces, key=lambda i: len(self.traces[i]))[:30]
        if not ids:
            return
        cls = os.path.join(self.dir, "cls")
        shutil.copytree(CLS, cls, ignore=shutil.ignore_patterns("Bytes*.class"))
        f = os.path.join(self.dir, "defined.ndjson")
        with open(f, "w") as o:
            o.writelines(self.traces[i] for i in ids)
        rc, out = tlc(os.path.join(ROOT, "spec"), "Trace", workers=8, env={"TRACES": f}, short=False, cls=cls,
                      meta=os.path.join(self.dir, "meta-defined"))
        shutil.rmtree(cls)
        if any(d["rule"] == "unspecified" and d["id"] in ids for d in self.devs):
            return
        key = lambda ds: sorted({(d["id"], d["i"], d["rule"]) for d in ds if d["id"] in set(ids) and d["rule"] not in ("hang", "abort")})
        got = list(printed(out))
        if rc or "0 states left" not in out or key(got) != key(self.devs):
            fatal("the definitions of Bytes and their fast versions disagree:\n%s" % out[-3000:])
        self.extra["judged_without_overrides"] = len(ids)

    def draws(self, procs, n):
        """Random values drawn in several processes, against each other"""
        f = os.path.join(self.dir, "draws.json")
        d = dict(client=[], server=[], salt=[])
        # some processes that start at the same time, alike in everything the system allows: process number, addresses
        alike = next((c for c in (["unshare", "-Urpf", "setarch", "-R"], ["setarch", "-R"], [])
                      if subprocess.run(c + ["true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0), [])
        jobs = [([], n)] * procs + [(alike, 36)] * 8
        started = []
        for p, (pre, k) in enumerate(jobs):
            out = "%s.%d" % (f, p)
            x = subprocess.Popen(pre + [BIN, "draws", "p%d" % p, str(k), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            started.append((x, out))
            if p < procs:
                x.wait(300)
        for x, out in started:
            msg = x.communicate(timeout=300)[0]
            if x.returncode:
                self.dev("draws", "panic", note=msg[-300:])
                return
            for l in open(out):
                j = json.loads(l)
                d[j["k"]] += j["d"]
            os.remove(out)
        with open(f, "w") as o:
            json.dump(d, o)
        rc, out = tlc(os.path.join(ROOT, "spec"), "Fresh", workers=3, env={"DRAWS": f}, short=False, heap="8g",
                      meta=os.path.join(self.dir, "meta-draws"))
        if rc or "0 states left" not in out:
            fatal("Fresh failed:\n" + out[-3000:])
        self.devs += list(printed(out))
        self.extra["draws"] = {k: len(v) for k, v in d.items()}

    def features(self, sets, groups):
        """What configurations hold if the library is built with some features only"""
        f = os.path.join(self.dir, "features.ndjson")
        done = []
        with open(f, "w") as o:
            for x in sets:
                if not build_features(x):
                    continue
                p = subprocess.run([os.path.join(FEATURES, "target", "debug", "rsasl-features"), json.dumps(groups)], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=60)
                if p.returncode:
                    self.dev("features", "panic", note="%s: %s" % (x, p.stdout[-300:]))
                    continue
                o.write(json.dumps(dict(features=x, configs=json.loads(p.stdout))) + "\n")
                done.append(x)
        self.extra["features"] = done
        if not done:
            return
        rc, out = tlc(os.path.join(ROOT, "spec"), "Features", workers=2, env={"REPORTS": f}, meta=os.path.join(self.dir, "meta-features"))
        if rc or "0 states left" not in out:
            fatal("Features failed:\n" + out[-3000:])
        self.devs += list(printed(out))

    # ---- reporting
    def replay_file(self, devs):
        path = os.path.join(self.dir, "violation.json")
        byid = {s["id"]: s for s in self.sc.all}
        items = []
        for d in devs[:20]:
            t = self.traces.get(d["id"])
            items.append(dict(deviation=d, scenario=byid.get(d["id"]), trace=json.loads(t) if t else None))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, total=len(devs), items=items), f, indent=1)
        return path

    def evidence(self, plan, wall, known):
        suites = {}
        for s in self.sc.all:
            suites[s["suite"]] = suites.get(s["suite"], 0) + 1
        mechs = {}
        for t in self.traces.values():
            for e in json.loads(t)["ev"]:
                if e["e"] == "step":
                    mechs[e["res"]] = mechs.get(e["res"], 0) + 1
        rnd = lib.rng("samples")
        samples = [s for s in rnd.sample(self.sc.all, min(3, len(self.sc.all)))]
        cov = dict(states=self.model_states + self.nstates, transitions=self.model_transitions + self.nevents,
                   traces_validated_against_impl=len(self.traces), samples=samples,
                   model_states=self.model_states, trace_states=self.nstates, trace_events=self.nevents,
                   models=self.models, scenarios=suites, step_results=mechs, rules=sorted(plan.rules),
                   known_findings_seen=known, deviations=len(self.devs))
        cov.update(self.extra)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                           wall_s=round(wall, 1)), f, indent=1)
