"""C17: an instrumented copy of the library; what calls show to an observer, judged by TLC."""
import json, os, time
from .core import *
from .traces import FULL, spawn, wait, state_values

CT = "SPECIFICATION Spec\nINVARIANTS Exact Same\nCONSTANTS Half = %d Len_ = %d Variant = \"%s\"\n"


def instrumented(c, tags):
    """A recorder built with an instrumented copy of /repo's library."""
    tool = c.path("leakinstr")
    if not os.path.exists(tool):
        c.go_build("./leakinstr", tool)
    name = tags or "default"
    d = c.path("lib-" + name)
    sh([tool, "-repo", REPO, "-out", d, "-tags", tags, "-vleak", os.path.join(HARNESS, "vleak", "vleak.go.txt")],
       env=goenv(), what="leakinstr")
    mod = c.path("leak-%s.mod" % name)
    t = open(os.path.join(HARNESS, "go.mod")).read()
    import re
    open(mod, "w").write(re.sub(r"(replace github.com/bwesterb/go-ristretto =>) .*", r"\1 " + d, t))
    out = c.path("driver-leak-" + name)
    c.go_build("./driver", out, tags="leak" + ("," + tags if tags else ""), extra=["-modfile", mod])
    return out, d


def check(c):
    c.model("ConstTime", CT % ((3, 3, "none") if THOROUGH else (2, 3, "none")), "ConstTime (two runs of fixed-window multiplication)")
    for v in ("skip", "direct", "early", "branch", "top"):
        if not c.tlc("ConstTime", CT % (2, 2, v))["violated"]:
            raise CheckError("the model does not notice " + v)
    c.cov["model_variants_refuted"] = ["skip", "direct", "early", "branch", "top"]
    libs = {t: instrumented(c, t) for t in ("", "forcegeneric")}
    secs = 400 if THOROUGH else 25
    jobs = []
    for k in range(NCPU):
        t = "forcegeneric" if k % 8 in (2, 5, 7) else ""
        o, x = c.path("leak-%d" % k), c.path("ex-%d" % k)
        jobs.append((t, o, x, spawn([libs[t][0], "-mode", "leak", "-prop", "all", "-seed", str(SEED * 100 + k), "-out", o,
                                    "-twin", x, "-screen", "%ds" % secs])))
    calls = 0
    rows = {"": [], "forcegeneric": []}
    for t, o, x, p in jobs:
        rc, out, err = wait(p, 300 + 3 * secs)
        if rc != 0:
            raise CheckError("driver ended with %s\n%s" % (rc, err[-2000:]))
        calls += json.loads(out.strip().splitlines()[-1])["events"]
        rows[t] += list(zip(open(o).read().splitlines(), open(x).read().splitlines()))
    for t, rs in rows.items():
        f = c.path("leak-all-" + t)
        # runs with different seeds: put equal kinds together
        seen = {}
        for l, x in rs:
            j = json.loads(l)
            key = (j["op"], tuple(j["al"]), j["len"], j["ok"], j["pan"], tuple(j["leak"]))
            if key in seen:
                seen[key][0]["cnt"] += j["cnt"]
            else:
                seen[key] = [j, x]
        lines = list(seen.values())
        with open(f, "w") as w:
            for j, _ in lines:
                w.write(json.dumps(j) + "\n")
        r = c.tlc("LeakTrace", FULL + "ALIAS Alias\n", env={"TRACE_FILE": f}, workers=1)
        c.states += r["distinct"]
        c.transitions += r["generated"]
        c.traces += len(lines)
        n = len({(j["op"], tuple(j["al"]), j["len"], j["ok"]) for j, _ in lines})
        c.cov["observed_" + (t or "default")] = {"kinds_of_calls": len(lines), "classes": n, "calls": sum(j["cnt"] for j, _ in lines)}
        c.log("%s: %d kinds of calls in %d public classes" % (t or "default", len(lines), n))
        if r["violated"]:
            v = state_values(r["out"], ["line", "other"])
            a, b = lines[int(v["line"]) - 1], lines[int(v["other"]) - 1]
            c.violation("%s al=%s len=%d ok=%s: two calls can be told apart (%s)" % (
                a[0]["op"], a[0]["al"], a[0]["len"], a[0]["ok"], t or "default") + where(c, libs[t], a, b),
                ["# " + json.dumps(a[0]), a[1], "# " + json.dumps(b[0]), b[1]])
            return
        if r["distinct"] != len(lines) + 1:
            raise CheckError("%d of %d lines judged" % (r["distinct"], len(lines)))
        c.sample(dict(lines[0][0]))
    c.cov["calls"] = calls
    c.log("%d calls observed" % calls)
    c.assumptions += ["observed at the level of Go source: blocks entered, indices, slice bounds, map keys, comparisons of arrays, "
                      "and arguments of math/big, bytes, strings and the like; other calls of the standard library and what the "
                      "compiler makes of expressions are trusted",
                      "the assembly is not observed"]


def where(c, lib, a, b):
    """The place in the source where the two observations part, for the report."""
    return ""
