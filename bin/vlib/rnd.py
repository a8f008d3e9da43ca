"""C16: Rand against a scripted source of randomness."""
import json, os, shutil, time
from .core import *
from . import configs
from .traces import FULL, spawn, wait, state_values

CFG = "SPECIFICATION Spec\nINVARIANTS FullLength NeverShort Emit\nCONSTANTS Needs = {32, 64} MaxReads = %d\n"


def check(c):
    drvs = [("default", configs.build(c, "default"))]
    # before Go 1.24 crypto/rand reports a failing source to its caller; since then it ends the program
    old = next((g for g in ("go1.23", "go1.22", "go1.21") if shutil.which(g)), None)
    if old:
        out = c.path("driver-old")
        rc, o = sh([old, "build", "-o", out, "./driver"], cwd=HARNESS, env=goenv(), check=False)
        if rc == 0:
            drvs.append((old, out))
        else:
            c.notes.append("not built with " + old)
            c.log("does not build with %s: %s" % (old, o[-500:]))
    drvs.append(("386", configs.build(c, "386")))
    pf = c.path("scripts")
    open(pf, "w").close()
    c.model("RandSource", CFG % (3 if THOROUGH else 2), "RandSource (behaviours of the source)", env={"PLAN_FILE": pf}, workers=1)
    scripts = len(open(pf).readlines())
    if scripts < 100:
        raise CheckError("%d scripts" % scripts)
    c.cov["scripts"] = scripts
    files = []
    for k, (n, d) in enumerate(drvs):
        out = c.path("rand-%d.ndjson" % k)
        rc, o, e = wait(spawn([d, "-mode", "rand", "-in", pf, "-out", out, "-seed", str(SEED * 10 + k)]), 600)
        if rc != 0:
            raise CheckError("driver %s ended with %s\n%s" % (n, rc, e[-2000:]))
        files.append((n, out))
    allf = c.path("rand.ndjson")
    lines, where = [], []
    with open(allf, "w") as w:
        for n, f in files:
            for l in open(f):
                w.write(l)
                lines.append(l)
                where.append(n)
    t = time.time()
    r = c.tlc("RandTrace", FULL, env={"TRACE_FILE": allf})
    c.states += r["distinct"]
    c.transitions += r["generated"]
    c.traces += (scripts + 8) * len(drvs)
    c.cov["toolchains"] = [n for n, _ in drvs]
    c.cov["calls"] = len(lines)
    c.log("%d calls under %d scripts, %d builds" % (len(lines), scripts, len(drvs)))
    c.sample(json.loads(lines[0]))
    if r["violated"]:
        v = state_values(r["out"], ["i", "verdict"])
        k = int(v["i"]) - 1
        c.violation("%s (%s): %s" % (json.loads(lines[k])["op"], where[k], v["verdict"]), lines[max(0, k - 2):k + 1])
        return
    if r["distinct"] != len(lines):
        raise CheckError("%d of %d calls judged" % (r["distinct"], len(lines)))
    c.assumptions += ["the source of randomness is crypto/rand.Reader; with the system's own source only the freshness of values is judged"]
