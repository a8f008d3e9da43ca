"""C14: the same histories in every build of the library, compared by TLC."""
import json, os, time
from .core import *
from . import configs
from .traces import FULL, spawn, wait, state_values, history_at, model_group

OTHERS = ["generic", "386generic", "386", "asm"]


def split(f):
    """The histories of a trace, as lists of lines."""
    hs = []
    for l in open(f):
        if not l.endswith("\n"):
            continue
        if l.startswith('{"op":"begin"'):
            hs.append([])
        if hs:
            hs[-1].append(l)
    return hs


def run(c, jobs, limit):
    """jobs: (name, command, out).  A run that dies leaves its histories so far, the last one ending in the
    operation that killed it."""
    ps = [(n, cmd, out, spawn(cmd)) for n, cmd, out in jobs]
    res = []
    for n, cmd, out, p in ps:
        rc, o, e = wait(p, limit)
        if rc == 0:
            res.append(split(out))
            continue
        if rc == 3:
            raise CheckError("driver %s: %s" % (n, e[-2000:]))
        c.log("driver %s ended with %s; again with a note of each operation" % (n, rc))
        cur = out + ".cur"
        rc, o, e = wait(spawn(cmd + ["-cur", cur]), 3 * limit)
        if rc is None or rc == 3 or (rc != 0 and not (os.path.exists(cur) and os.path.getsize(cur))):
            raise CheckError("driver %s ended with %s:\n%s" % (n, rc, e[-3000:]))
        hs = split(out)
        if rc != 0:
            hs += split(cur)[-1:]
        res.append(hs)
    return res


def check(c):
    scale, screen = (4, 240) if THOROUGH else (1, 20)
    drv = {}
    for n in ["default"] + OTHERS:
        d = configs.build(c, n)
        if d:
            drv[n] = d
    model_group(c, [37])
    others = [n for n in OTHERS if n in drv]
    # every build invents histories of its own, the 32-bit field twice
    src = others + [n for n in ("generic", "asm") if n in drv] + ["default"] * 2
    src = src[:NCPU]
    jobs = []
    for k, n in enumerate(src):
        out = c.path("gen-%d.ndjson" % k)
        jobs.append((n, [drv[n], "-prop", "all", "-seed", str(SEED * 100 + k), "-scale", str(scale), "-out", out,
                         "-screen", "%ds" % screen], out))
    made = run(c, jobs, 300 + 4 * screen)
    n_events = sum(len(h) - 1 for hs in made for h in hs)
    c.log("recorded %d histories, %d events" % (sum(map(len, made)), n_events))
    # pairs: a build's own histories and the same in the default build; those of the default build, in another
    jobs, pairs = [], []
    for k, n in enumerate(src):
        f = c.path("in-%d.ndjson" % k)
        with open(f, "w") as w:
            for h in made[k]:
                w.writelines(h)
        m = "default" if n != "default" else others[k % len(others)]
        out = c.path("rep-%d.ndjson" % k)
        jobs.append((m, [drv[m], "-mode", "replay", "-in", f, "-out", out], out))
        pairs.append((n, m))
    again = run(c, jobs, 300 + 4 * screen)
    fa, fb = c.path("one.ndjson"), c.path("two.ndjson")
    where = []
    hist = 0
    with open(fa, "w") as w, open(fb, "w") as v:
        for (n, m), hs, gs in zip(pairs, made, again):
            for h, g in zip(hs, gs):
                k = min(len(h), len(g))
                w.writelines(h[:k])
                v.writelines(g[:k])
                where += [(n, m)] * k
                hist += 1
    t = time.time()
    r = c.tlc("CrossTrace", FULL, env={"TRACE_FILE": fa, "OTHER_FILE": fb})
    c.states += r["distinct"]
    c.transitions += r["generated"]
    c.traces += hist
    c.cov["builds"] = ["default"] + others
    c.cov["compared"] = {"events": len(where) - hist, "histories": hist, "not_reached": len(where) - r["distinct"],
                         "wall_s": round(time.time() - t, 1)}
    c.log("compared %d events in %d histories, %d not reached" % (len(where) - hist, hist, len(where) - r["distinct"]))
    lines = open(fa).read().splitlines()
    for l in lines[1:3]:
        c.sample(json.loads(l))
    if r["violated"]:
        v = state_values(r["out"], ["i", "verdict"])
        k = int(v["i"]) - 1
        e, g = json.loads(lines[k]), json.loads(open(fb).read().splitlines()[k])
        c.violation("%s differs in %s between %s and %s: rv=%s out=%s ok=%s pan=%s / rv=%s out=%s ok=%s pan=%s" % (
            e["op"], v.get("verdict"), where[k][0], where[k][1], e["rv"], e["out"], e["ok"], e["pan"],
            g["rv"], g["out"], g["ok"], g["pan"]), history_at(lines, k) + ["# in the other build:", json.dumps(g)])
        return
    c.assumptions += ["the assembly is selected by an overlay in which the build constraints see a Go before 1.13",
                      "only architectures this machine runs: amd64 and 386",
                      "histories a build invents are screened against math/big; those that differ are compared too"]
