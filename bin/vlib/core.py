"""Common machinery of the checks: building, running TLC, evidence, verdicts."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """The check itself could not be carried out: exit 2, never a violation."""


def goenv(**kw):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOENV="off", GOWORK="off",
             CGO_ENABLED="1", GOTELEMETRY="off")
    e.setdefault("HOME", "/root")
    e.update({k: str(v) for k, v in kw.items()})
    return e


def sh(cmd, timeout=600, cwd=None, env=None, check=True, what=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise CheckError("timeout: %s" % (what or " ".join(cmd[:3])))
    if check and p.returncode != 0:
        raise CheckError("%s failed (%d):\n%s" % (what or " ".join(cmd[:3]), p.returncode, out[-3000:]))
    return p.returncode, out


def literals(repo):
    """The integer literals of the sources, as values operands may be compared with."""
    r = set()
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if not x.startswith("."))
        for f in fs:
            if not f.endswith((".go", ".c", ".h")) or f.endswith("_test.go") or f.startswith("table_"):
                continue
            t = open(os.path.join(d, f), errors="replace").read()
            t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
            for x in re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F_]+|[1-9][0-9_]*)(?![\w.])", t):
                r.add(int(x.replace("_", ""), 0))
            for a, o, b in re.findall(r"(?<![\w.])(\d+)\s*(<<|\*)\s*(\d+)(?![\w.])", t):
                if o == "*":
                    r.add(int(a) * int(b))
                elif int(b) < 256:
                    r.add(int(a) << int(b))
    return {x for x in r if x < 1 << 256}


def dictionary():
    """Literals the sources have gained since the specification was bound to them: they only bias the inputs."""
    base = {int(x, 16) for x in open(os.path.join(VERIF, "bin", "literals.txt")).read().split()}
    return sorted(literals(REPO) - base)[:64]


class Check:
    def __init__(self, prop):
        os.environ["VDICT"] = " ".join("%x" % x for x in dictionary())
        self.prop = prop
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.known = set()
        self.violations = []
        self.notes = []

    def path(self, *a):
        return os.path.join(self.tmp, *a)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def classes(self):
        """The TLC operator overrides (big numbers), compiled."""
        srcs = sorted(os.path.join(SPEC, "java", f) for f in os.listdir(os.path.join(SPEC, "java")) if f.endswith(".java"))
        h = hashlib.sha256()
        for s in srcs:
            h.update(open(s, "rb").read())
        d = os.path.join(BUILD, "classes-" + h.hexdigest()[:16])
        if not os.path.isdir(d):
            t = self.path("classes")
            os.makedirs(t)
            sh(["javac", "-nowarn", "-cp", TLA_CP, "-d", t] + srcs, what="javac")
            try:
                os.rename(t, d)
            except OSError:
                pass
        return d

    def go_build(self, pkg, out, *, cwd=HARNESS, tags=None, race=False, env=None, extra=()):
        extra = list(extra)
        if REPO != "/repo" and cwd == HARNESS and "-modfile" not in extra:  # a copy of the library, for experiments
            m = self.path("alt.mod")
            t = open(os.path.join(HARNESS, "go.mod")).read()
            open(m, "w").write(t.replace("=> /repo", "=> " + REPO))
            extra.append("-modfile=" + m)
        cmd = ["go", "build", "-o", out] + (["-tags", tags] if tags else []) + (["-race"] if race else []) + list(extra) + [pkg]
        sh(cmd, cwd=cwd, env=env or goenv(), timeout=600, what="go build %s" % pkg)
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=NCPU, timeout=800, extra=(), xmx="12g"):
        """Run TLC; returns a dict.  cfg is a path, or the text of one."""
        if "\n" in cfg:
            p = self.path("%s-%d.cfg" % (module, len(os.listdir(self.tmp))))
            open(p, "w").write(cfg)
            cfg = p
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Xss256m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-cp", "%s:%s:%s" % (self.classes(), TLA_CP, SPEC),
               "tlc2.TLC", "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-metadir", meta,
               "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        rc, out = sh(cmd, timeout=timeout, cwd=meta, env=e, check=False, what="TLC " + module)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        inv = re.search(r"Error: Invariant (\S+) is violated", out)
        r = {"rc": rc, "out": out, "generated": gen, "distinct": dist, "violated": inv.group(1) if inv else None}
        if rc != 0 and not inv:
            raise CheckError("TLC %s failed (%d):\n%s" % (module, rc, out[-4000:]))
        return r

    def model(self, module, cfg, label=None, timeout=800, **kw):
        """Check a model of the specification itself; a failure is an error of ours."""
        t = time.time()
        r = self.tlc(module, cfg, timeout=timeout, **kw)
        if r["violated"]:
            raise CheckError("model %s violates %s:\n%s" % (module, r["violated"], r["out"][-3000:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.cov.setdefault("models", []).append(
            {"model": label or module, "distinct_states": r["distinct"], "transitions": r["generated"],
             "wall_s": round(time.time() - t, 1)})
        self.log("model %s: %d distinct states, %d transitions" % (label or module, r["distinct"], r["generated"]))
        return r

    # -------------------------------------------------------------- verdict
    def violation(self, what, replay_lines=None, replay_src=None):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d-%d.ndjson" % (self.prop, SEED, len(self.violations)))
        with open(p, "w") as f:
            for l in replay_lines or []:
                f.write(l.rstrip("\n") + "\n")
        self.violations.append((what, p))
        self.log("violated:", what)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def sample(self, s, n=6):
        if len(self.samples) < n:
            self.samples.append(s)

    def finish(self):
        listed = known_findings()
        for k in sorted(self.known):
            if (self.prop, k) in listed:
                print("KNOWN-FINDING: property=%s %s %s" % (self.prop, k, listed[(self.prop, k)]), flush=True)
            else:
                self.violation("a deviation that known-findings.txt does not list: " + k)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        t = os.path.join(EVID, ".%s.tmp" % self.prop)
        with open(t, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(t, os.path.join(EVID, self.prop + ".json"))
        self.log("done: %d states, %d transitions, %d traces, %d violations"
                 % (self.states, self.transitions, self.traces, len(self.violations)))
        return 1 if self.violations else 0


def known_findings():
    r = {}
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p):
        m = re.match(r"KNOWN-FINDING: property=(\S+) (\S+) (.*)", l.strip())
        if m:
            r[(m.group(1), m.group(2))] = m.group(3)
    return r


def run(prop, f):
    c = Check(prop)
    try:
        f(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e), flush=True)
        rc = 2
        if c.violations:  # already shown on the real code
            rc = c.finish()
    finally:
        c.close()
    return rc
