"""C10: calls planned by TLC, performed on shared, aliased, reused objects and compared with the call alone."""
import glob, json, os, time
from .core import *
from . import configs
from .traces import FULL, spawn, wait, state_values, history_at, model_group

WALK = """SPECIFICATION Spec
INVARIANT Emit
CONSTANTS Depth = %d NP = %d NS = %d NT = %d Focus = %d
"""


def align(c, k, pe, te, w, wt):
    """Append a run and its twins, line by line, to the two joint files."""
    tw = {}
    for l in open(te):
        j = json.loads(l)
        tw[j["id"]] = j["e"]
    n = 0
    begin = None
    for i, l in enumerate(open(pe)):
        w.write(l)
        n += 1
        if l.startswith('{"op":"begin"'):
            wt.write(l)
        elif i in tw:
            wt.write(json.dumps(tw[i]) + "\n")
        else:
            raise CheckError("no twin for line %d of run %d" % (i + 1, k))
    return n


def check(c):
    mix = ["default", "default", "generic", "default", "default", "asm", "generic", "386"]
    drvs = [configs.build(c, m) or configs.build(c, "default") for m in mix]
    c.cov["builds"] = mix
    model_group(c, [37, 53] if THOROUGH else [37])
    # plans
    d = c.path("plan")
    os.makedirs(d)
    c.model("MCPlan", "SPECIFICATION Spec\nINVARIANT Written\n", "Plan (calls x aliasing x classes)", env={"PLAN_DIR": d})
    singles = [l for f in sorted(glob.glob(d + "/*.ndjson")) for l in open(f)]
    wf = c.path("walks")
    open(wf, "w").close()
    per, depth = (400, 60) if THOROUGH else (30, 40)
    for sizes, num in (((depth, 3, 3, 2, 0), per // 3), ((depth, 2, 2, 1, 1), 8 * per), ((depth, 2, 2, 1, 2), per), ((depth, 2, 2, 1, 4), per)):
        c.tlc("Walk", WALK % sizes, env={"PLAN_FILE": wf},
              extra=["-simulate", "num=%d" % num, "-depth", str(3 * depth), "-seed", str(SEED)])
    walks = open(wf).readlines()
    if len(singles) < 5000 or len(walks) < per:
        raise CheckError("plans incomplete: %d, %d" % (len(singles), len(walks)))
    c.cov["plan"] = {"single_calls": len(singles), "walks": len(walks), "walk_length": depth}
    c.log("plans: %d single calls, %d walks of %d" % (len(singles), len(walks), depth))
    # runs: different values each; single calls in some, walks spread over all
    runs = NCPU * (4 if THOROUGH else 1)
    nsing = runs if THOROUGH else 3
    jobs = []
    for k in range(runs):
        pf = c.path("plan-%d" % k)
        with open(pf, "w") as f:
            f.writelines(walks[k::runs])
            if k < nsing:
                f.writelines(singles)
        jobs.append((k, spawn([drvs[k % len(drvs)], "-mode", "plan", "-in", pf, "-twin", c.path("tw-%d" % k), "-out", c.path("pe-%d" % k),
                               "-seed", str(SEED * 1000 + k)])))
    for k, p in jobs:
        rc, o, e = wait(p, 300)
        if rc != 0:
            raise CheckError("driver (plan %d) ended with %s\n%s" % (k, rc, e[-2000:]))
    jobs = [(k, spawn([drvs[k % len(drvs)], "-mode", "twin", "-in", c.path("tw-%d" % k), "-out", c.path("te-%d" % k), "-seed", str(SEED * 7777 + k)]))
            for k in range(runs)]
    for k, p in jobs:
        rc, o, e = wait(p, 300)
        if rc != 0:
            raise CheckError("driver (twin %d) ended with %s\n%s" % (k, rc, e[-2000:]))
    # compare, some runs at a time
    for lo in range(0, runs, NCPU):
        fa, fb = c.path("all-%d" % lo), c.path("alone-%d" % lo)
        n = 0
        with open(fa, "w") as w, open(fb, "w") as wt:
            for k in range(lo, min(lo + NCPU, runs)):
                n += align(c, k, c.path("pe-%d" % k), c.path("te-%d" % k), w, wt)
        t = time.time()
        r = c.tlc("Twin", FULL, env={"TRACE_FILE": fa, "TWIN_FILE": fb})
        lines = open(fa).read().splitlines()
        h = sum(l.startswith('{"op":"begin"') for l in lines)
        c.states += r["distinct"]
        c.transitions += r["generated"]
        c.traces += h
        c.log("twins: %d calls in %d histories, %d states, %.1f s" % (n - h, h, r["distinct"], time.time() - t))
        for l in lines[1:3]:
            c.sample(json.loads(l))
        if r["violated"]:
            v = state_values(r["out"], ["i", "verdict"])
            k = int(v["i"]) - 1
            ev = json.loads(lines[k])
            tw = open(fb).read().splitlines()[k]
            c.violation("%s r=%s a=%s n=%s: %s; rv=%s out=%s ok=%s ret=%s chg=%s pan=%s" % (
                ev["op"], ev["r"], ev["a"], ev["n"], v["verdict"], ev["rv"], ev["out"], ev["ok"], ev["ret"], ev["chg"], ev["pan"]),
                history_at(lines, k) + ["# alone:", tw])
            return
        if r["distinct"] != n:
            raise CheckError("%d of %d lines compared" % (r["distinct"], n))
    c.assumptions += ["values of registers are set by copying memory of values made with the library itself",
                      "the call alone runs in another process, in another order"]
