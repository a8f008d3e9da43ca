"""C15: goroutines over shared objects; their calls compared by TLC with the same calls one after the other."""
import glob, json, os, re, time
from .core import *
from . import configs
from .traces import FULL, spawn, wait, state_values, history_at

CONC = "SPECIFICATION Spec\nINVARIANTS Exact OnlyRead NoRace\nCONSTANTS Threads = {%s} Words = %d Calls = %d Variant = \"%s\"\n"
EMPTY = {"r": "", "a": [], "in": "", "n": 0, "out": "", "ok": True, "rv": [], "ret": True, "chg": [], "pan": ""}


def line(op, **kw):
    return json.dumps(dict({"op": op}, **dict(EMPTY, **kw))) + "\n"


def histories(f):
    """Plan number -> recordings of it (each a list of lines)."""
    r = {}
    cur = None
    if os.path.exists(f):
        for l in open(f):
            if not l.endswith("\n"):
                continue
            if l.startswith('{"op":"begin"'):
                cur = []
                r.setdefault(json.loads(l)["n"], []).append(cur)
            cur.append(l)
    return r


def races(prefix):
    """(races in the library, races of the harness alone), from the race detector's reports."""
    lib, own = [], []
    for f in sorted(glob.glob(prefix + ".*")):
        for b in open(f, errors="replace").read().split("=================="):
            if "DATA RACE" not in b:
                continue
            frames = re.findall(r"^\s+(github\.com/bwesterb/go-ristretto\S*)\(", b, re.M)
            (lib if frames else own).append((frames[:1], b))
    return lib, own


def waiting(c, tags):
    """A recorder built with a copy of /repo's library that has places at which goroutines can be made
    to wait; None where such a copy cannot be made."""
    tool = c.path("leakinstr")
    name = tags or "default"
    d, mod, out = c.path("lib-" + name), c.path("sched-%s.mod" % name), c.path("driver-sched-" + name)
    try:
        if not os.path.exists(tool):
            c.go_build("./leakinstr", tool)
        sh([tool, "-sched", "-repo", REPO, "-out", d, "-tags", tags, "-vleak", os.path.join(HARNESS, "vsched", "vsched.go.txt")],
           env=goenv(), what="leakinstr")
        t = open(os.path.join(HARNESS, "go.mod")).read()
        open(mod, "w").write(re.sub(r"(replace github.com/bwesterb/go-ristretto =>) .*", r"\1 " + d, t))
        c.go_build("./driver", out, tags="sched" + ("," + tags if tags else ""), extra=["-modfile", mod])
    except CheckError as e:
        c.notes.append("no copy of the library with places to wait")
        c.log("no copy of the library with places to wait:", str(e)[-500:])
        return None
    c.cov["places_to_wait" + ("_" + tags if tags else "")] = len(open(d + "/SITES").read().split("\n")) - 1
    return out


def check(c):
    th = '"g1", "g2", "g3"' if THOROUGH else '"g1", "g2"'
    c.model("Concurrent", CONC % (th, 2, 1 if THOROUGH else 2, "none"), "Concurrent (all interleavings)")
    for v in ("scratch", "lazy", "normalise", "cache"):
        r = c.tlc("Concurrent", CONC % ('"g1", "g2"', 2, 2, v))
        if not r["violated"]:
            raise CheckError("the model does not notice " + v)
    c.cov["model_variants_refuted"] = ["scratch", "lazy", "normalise", "cache"]
    d = c.path("plans")
    os.makedirs(d)
    mixes, steps, g = (60, 60, 8) if THOROUGH else (24, 40, 6)
    c.model("MCConcPlan", "SPECIFICATION Spec\nINVARIANT Written\nCONSTANTS G = %d Mixes = %d Steps = %d\n" % (g, mixes, steps),
            "MCConcPlan (who calls what)", env={"PLAN_DIR": d})
    fs = sorted(glob.glob(d + "/*.json"))
    plans = [open(f).read() for f in fs]
    if len(plans) < mixes + 40:
        raise CheckError("%d plans" % len(plans))
    c.cov["plans"] = len(plans)
    allp = c.path("plans.ndjson")
    open(allp, "w").writelines(p.rstrip("\n") + "\n" for p in plans)
    runs = []  # (label, build, race, seed, plan file, numbers of its plans, rounds)
    seeds = [SEED * 10]
    for s in seeds:
        for b in ("default", "generic"):
            runs.append(("race", b, True, s, allp, None, 4 if THOROUGH else 2))
            runs.append(("stress", b, False, s, allp, None, 100 if THOROUGH else 40))
        runs.append(("stress", "asm", False, s, allp, None, 50 if THOROUGH else 20))
        for b in ("default", "generic"):
            runs.append(("scheduled", b, "sched", s, allp, None, 120 if THOROUGH else 32))
    for k, p in enumerate(plans):  # the first calls of a program
        f = c.path("one-%d" % k)
        open(f, "w").write(p.rstrip("\n") + "\n")
        runs.append(("first", "generic" if k % 4 == 3 else "default", True, seeds[0], f, k, 1))
        for j in range(6 if THOROUGH else 2):
            runs.append(("first, scheduled", "generic" if (k + j) % 4 == 1 else "default", "sched", seeds[0], f, k, (1, 4 * j + k % 4)))
    drv = {}
    for b, race in {(r[1], r[2]) for r in runs} | {("default", False), ("generic", False)}:
        if race == "sched":
            drv[b, race] = waiting(c, {"default": "", "generic": "forcegeneric"}[b])
        else:
            drv[b, race] = configs.build(c, b, race=race)
    runs = [r for r in runs if drv[r[1], r[2]]]
    # the values of the classes, and the calls one after the other
    cls, alone = {}, {}
    for b in sorted({r[1] for r in runs}):
        for s in seeds:
            f = c.path("cls-%s-%d" % (b, s))
            rc, o, e = wait(spawn([drv[b, False], "-mode", "classes", "-seed", str(s), "-out", f]), 120)
            if rc != 0:
                raise CheckError("classes: %s" % e[-2000:])
            cls[b, s] = f
            o2 = c.path("seq-%s-%d" % (b, s))
            rc, o, e = wait(spawn([drv[b, False], "-mode", "conc", "-seq", "-seed", str(s), "-in", allp, "-raw", f, "-out", o2]), 300)
            if rc != 0:
                raise CheckError("one after the other: %s" % e[-2000:])
            alone[b, s] = histories(o2)
    done = []
    par = [r for r in runs if r[0].startswith("first")]
    # the scheduled runs take a processor each, and need no other
    one = start(c, [(j, r) for j, r in enumerate(r for r in runs if r[0] == "scheduled")], drv, cls)
    n = len(one)
    for r in [r for r in runs if r[0] in ("race", "stress")]:
        done.append(go(c, [(n + len(done), r)], drv, cls)[0])
    done += finish(one)
    for k in range(0, len(par), NCPU):
        done += go(c, [(len(done) + j, r) for j, r in enumerate(par[k:k + NCPU])], drv, cls)
    # one file of calls as they happened, one of the same calls alone
    fa, fb = c.path("all"), c.path("alone")
    where, nrace, ncall = [], 0, 0
    with open(fa, "w") as w, open(fb, "w") as v:
        def put(a, b, r):
            w.write(a)
            v.write(b)
            where.append(r)
        for r, rc, out, err, lib, own in done:
            label, b, race, s, pf, num, rounds = r
            if own and not lib:
                raise CheckError("the harness races with itself:\n" + own[0][1][:3000])
            if rc is None:
                raise CheckError("driver did not end: %s %s" % (label, b))
            if rc == 3:
                raise CheckError("driver: " + err[-2000:])
            hs = histories(out)
            for k, recs in sorted(hs.items()):
                ref = alone[b, s][num if num is not None else k][0]
                for h in recs:
                    c.traces += 1
                    for j in range(max(len(h), len(ref))):
                        a = h[j] if j < len(h) else line("crash", pan="calls missing")
                        put(a, ref[j] if j < len(ref) else ref[-1], r)
                        ncall += 1
            for fr, txt in lib[:3]:
                nrace += 1
                put(line("race", pan=(fr or ["?"])[0]), line("race"), r)
            if rc != 0:
                put(line("crash", pan=err[:300]), line("crash"), r)
    t = time.time()
    r = c.tlc("Twin", FULL, env={"TRACE_FILE": fa, "TWIN_FILE": fb})
    c.states += r["distinct"]
    c.transitions += r["generated"]
    c.cov["runs"] = len(runs)
    c.cov["calls_compared"] = ncall
    c.log("%d runs, %d calls compared, %d races reported, %.1f s" % (len(runs), ncall, nrace, time.time() - t))
    lines = open(fa).read().splitlines()
    c.sample(json.loads(lines[1]))
    if r["violated"]:
        v = state_values(r["out"], ["i", "verdict"])
        k = int(v["i"]) - 1
        ev = json.loads(lines[k])
        extra = ["# alone:", open(fb).read().splitlines()[k]]
        for x in done:
            if ev["op"] == "race" and x[0] == where[k]:
                extra = ["# " + l for b in x[4][:1] for l in b[1].splitlines()]
        c.violation("%s %s: %s (%s run, %s build) rv=%s out=%s pan=%s" % (
            ev["op"], ev["a"], v["verdict"], where[k][0], where[k][1], ev["rv"], ev["out"], ev["pan"]),
            history_at(lines, k) + extra)
        return
    if r["distinct"] != len(lines):
        raise CheckError("%d of %d lines judged" % (r["distinct"], len(lines)))
    c.assumptions += ["schedules are those the Go runtime takes, and those that give way at chosen statements of a copy; the race detector reports unordered conflicting accesses of the "
                      "schedules taken, also where their order happened to be harmless",
                      "all interleavings are explored in the model Concurrent, whose steps are those of a library without shared mutable state"]


def start(c, batch, drv, cls):
    ps = []
    for k, r in batch:
        label, b, race, s, pf, num, rounds = r
        out, log = c.path("conc-%d" % k), c.path("racelog-%d" % k)
        rounds, round0 = rounds if isinstance(rounds, tuple) else (rounds, 0)
        env = dict(os.environ, GORACE="halt_on_error=0 exitcode=0 log_path=%s history_size=3" % log)
        ps.append((r, out, log, spawn([drv[b, race], "-mode", "conc", "-seed", str(s), "-in", pf, "-raw", cls[b, s],
                                       "-rounds", str(rounds), "-round0", str(round0), "-out", out], env=env)))
    return ps


def finish(ps):
    res = []
    for r, out, log, p in ps:
        rc, o, e = wait(p, 600)
        lib, own = races(log)
        res.append((r, rc, out, e, lib, own))
    return res


def go(c, batch, drv, cls):
    return finish(start(c, batch, drv, cls))
