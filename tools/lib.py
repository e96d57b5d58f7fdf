"""Shared machinery of the checks: builds the harness from /repo's working
tree, runs TLC, collects verdicts, writes evidence and replay files."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")

def go_env():
    e = dict(os.environ)
    root = "/opt/veriftools/go1.27.3"
    e.update(HOME="/root", GOTOOLCHAIN="local", GOROOT=root, GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on")
    e["PATH"] = root + "/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e

class CheckError(Exception):
    pass

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, ".work", "%s-%s-%d" % (prop, tier, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        for f in os.listdir(SPEC):
            shutil.copy(os.path.join(SPEC, f), self.dir)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []   # (description, replay object)
        self.vh = None

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    # ---------------------------------------------------------------- build
    def build(self, race=False):
        """compile the harness against /repo's working tree (in a scratch
        copy, so that go.mod/go.sum of /verif are never rewritten)"""
        src = self.path("harness-src")
        if not os.path.isdir(src):
            shutil.copytree(HARNESS, src)
        out = self.path("vh-race" if race else "vh")
        p = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-o", out, "."], cwd=src, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode != 0:
            raise CheckError("building the harness failed:\n" + p.stdout[-4000:])
        if not race:
            self.vh = out
        return out

    def harness(self, cmd, timeout=800, binary=None, allow=(0,), env=None, **kw):
        e = dict(os.environ)
        e.update(env or {})
        a = [binary or self.vh, cmd] + ["%s=%s" % (k, v) for k, v in kw.items()]
        p = subprocess.run(a, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=timeout,
                           errors="replace", env=e)
        if p.returncode not in allow:
            raise CheckError("harness %s exited with %d:\n%s\n%s" % (cmd, p.returncode, p.stdout[-1500:], p.stderr[-3000:]))
        return p

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, consts=None, invariants=None, env=None, out=None, timeout=800, workers=8, args=(), props=None):
        """run TLC on a module; returns its output. consts override the cfg."""
        text = open(self.path(cfg or module + ".cfg")).read()
        for k, v in (consts or {}).items():
            text, n = re.subn(r"(?m)^(\s*)%s\s*(=|<-).*$" % re.escape(k), r"\g<1>%s = %s" % (k, v), text)
            if n != 1:
                raise CheckError("no constant %s in %s" % (k, cfg or module))
        if invariants is not None:
            text = re.sub(r"(?ms)^INVARIANTS?\b.*?(?=^[A-Z]|\Z)", "", text) + "\nINVARIANTS " + " ".join(invariants) + "\n"
        tag = "%s-%d" % (module, len([f for f in os.listdir(self.dir) if f.startswith(module + "-") and f.endswith(".run.cfg")]))
        run = self.path(tag + ".run.cfg")
        open(run, "w").write(text)
        out = out or self.path(tag + ".out")
        e = dict(os.environ)
        # the specification's recursive operators can overflow the default stack of a TLC worker, depending on
        # what the JIT has compiled by then
        e["JAVA_TOOL_OPTIONS"] = (e.get("JAVA_TOOL_OPTIONS", "") + " -Xss256m").strip()
        e.update(env or {})
        with open(out, "w") as f:
            p = subprocess.run(["timeout", str(timeout), "tlc", "-config", run, "-workers", str(workers), "-metadir", self.path(tag + ".meta"),
                                "-noGenerateSpecTE"] + list(args) + [module + ".tla"],
                               cwd=self.dir, env=e, stdout=f, stderr=subprocess.STDOUT)
        text = open(out, errors="replace").read()
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", text):
            pass
        if p.returncode != 0 or "No error has been found" not in text:
            i = text.find("Error:")
            raise CheckError("TLC %s exited with %d:\n%s" % (module, p.returncode, text[max(i, 0):max(i, 0) + 3000]))
        gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
        self.states += dist
        self.transitions += gen
        self.extra.setdefault("tlc_runs", []).append({"module": module, "generated": gen, "distinct": dist})
        shutil.rmtree(self.path(tag + ".meta"), ignore_errors=True)
        return text

    def tlc_violates(self, module, invariant, consts):
        """the design check must notice this deliberately broken design"""
        try:
            self.tlc(module, consts=consts, invariants=[invariant])
        except CheckError as e:
            if "Invariant %s is violated" % invariant in str(e):
                self.extra["broken_designs_noticed"] = self.extra.get("broken_designs_noticed", 0) + 1
                return
            raise
        raise CheckError("%s: %s does not notice the broken design %s" % (module, invariant, consts))

    def judge(self, module, traces, consts=None, timeout=800, env=None):
        """TLC judges recorded traces (ndjson); returns {index: [[prop, clause]..]}"""
        n = sum(1 for _ in open(traces))
        if n == 0:
            raise CheckError("no traces recorded")
        e = {"TRACE_FILE": traces}
        e.update(env or {})
        text = self.tlc(module, consts=consts, env=e, timeout=timeout)
        res = {}
        for line in text.splitlines():
            if line.startswith('"JUDGED '):
                s = json.loads(line)[7:]
                k, j = s.split(" ", 1)
                res[int(k)] = json.loads(j)
        if set(res) != set(range(1, n + 1)):
            raise CheckError("TLC judged %d of %d traces of %s" % (len(res), n, module))
        self.traces += n
        return res

    def take_verdicts(self, module, traces, res, prop=None, candidates=0, describe=None):
        """violations of this property among judged traces. The first
        `candidates` traces are mismatches the harness reported: TLC has to
        confirm at least one of them, else the harness itself is wrong."""
        prop = prop or self.prop
        lines = open(traces).read().splitlines()
        confirmed = 0
        for k in sorted(res):
            if any(p == "HARNESS" for p, _ in res[k]):
                raise CheckError("%s: trace %d is not usable: %s" % (module, k, res[k]))
            mine = sorted(c for p, c in res[k] if p == prop)
            if mine:
                if k <= candidates:
                    confirmed += 1
                rec = json.loads(lines[k - 1])
                self.violations.append(("%s: %s" % (module, ",".join(mine)), {"property": prop, "module": module, "clauses": mine, "trace": rec}))
        if candidates and not confirmed:
            raise CheckError("%s: the harness reported %d mismatches, TLC confirmed none" % (module, candidates))

    # ------------------------------------------------------------- finish
    def finish(self, level="model_checking", assumptions=()):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces, "samples": self.samples[:8]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.cleanup()
        if not self.violations:
            self.log("%s holds: %d states, %d transitions, %d traces" % (self.prop, self.states, self.transitions, self.traces))
            return 0
        os.makedirs(REPLAYS, exist_ok=True)
        known = load_known()
        new = []
        for d, r in self.violations:
            key = json.dumps(r, sort_keys=True)
            kf = [k for k in known if k["property"] == self.prop and k["match"] in key]
            if kf:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, kf[0]["what"]))
            else:
                new.append((d, r, key))
        if not new:
            return 0
        new.sort(key=lambda x: len(x[2]))
        for d, r, key in new[:3]:
            name = os.path.join(REPLAYS, "%s-%s.json" % (self.prop, hashlib.sha1(key.encode()).hexdigest()[:10]))
            with open(name, "w") as f:
                json.dump(r, f, indent=1)
            print("violation: " + d[:500])
            print("VIOLATION property=%s replay=%s" % (self.prop, name), flush=True)
        return 1

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def load_known():
    """lines 'finding: property=<id> match=<json string> <what fails>' of
    KNOWN_FINDINGS.txt; 'fixed:' lines suppress nothing"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(\"(?:[^\"\\]|\\.)*\") (.*)$", line.strip())
            if m:
                out.append({"property": m.group(1), "match": json.loads(m.group(2)), "what": m.group(3)})
    return out
