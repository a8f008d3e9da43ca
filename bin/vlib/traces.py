"""Properties decided by validating recorded histories against spec/Trace.tla."""
import json, os, random, re, signal, subprocess, time
from .core import *
from . import configs

FULL = """SPECIFICATION Spec
INVARIANT Conforms
CONSTANTS
  P <- Full_P
  SqrtM1 <- Full_I
  D <- Full_D
  L <- Full_L
  BasePoint <- Full_Base
  SqrtADm1 <- Full_SqrtADm1
  NB <- Full_NB
"""

TOYS = {  # p: (d, l, i, (bx, by), r)
    37: (2, 5, 6, (8, 10), 21), 53: (3, 7, 30, (4, 43), 7), 61: (2, 7, 50, (14, 27), 27),
    101: (29, 13, 10, (2, 33), 77), 109: (33, 13, 76, (2, 56), 27), 149: (8, 17, 44, (2, 57), 17),
    157: (24, 19, 28, (18, 100), 17), 173: (20, 23, 80, (3, 70), 49), 181: (10, 23, 162, (2, 134), 129),
    229: (77, 31, 122, (2, 189), 193), 269: (12, 37, 82, (2, 28), 253), 277: (6, 37, 60, (17, 249), 47),
    293: (13, 37, 138, (5, 144), 239),
}


def toy_cfg(p, invariants, more=""):
    d, l, i, (bx, by), r = TOYS[p]
    return ("SPECIFICATION Spec\nCONSTANTS\n  PInt = %d DInt = %d LInt = %d IInt = %d BXInt = %d BYInt = %d RInt = %d\n"
            "  P <- Toy_P\n  D <- Toy_D\n  L <- Toy_L\n  SqrtM1 <- Toy_I\n  BasePoint <- Toy_Base\n"
            "  SqrtADm1 <- Toy_R\n  NB <- Toy_NB\n%s\nINVARIANTS %s\n" % (p, d, l, i, bx, by, r, more, invariants))


def model_group(c, ps):
    for p in ps:
        c.model("MCGroup", toy_cfg(p, "Refines EncodingCanonical EncodingFaithful EqualityExact OrderL"), "MCGroup p=%d" % p)


def model_formulas(c, ps, scales="{1, 2, 3}"):
    for p in ps:
        c.model("MCFormulas", toy_cfg(p, "Denote EncodeAny EqAny QuarticAny", "  Scales = " + scales), "MCFormulas p=%d" % p)


def model_known(c):
    c.model("MCKnown", FULL.replace("SPECIFICATION Spec\nINVARIANT Conforms\n", ""), "MCKnown (RFC 9496 vectors)")


def model_bignum(c):
    c.model("MCBigNum", os.path.join(SPEC, "MCBigNum.cfg"), "MCBigNum (big numbers against integers)")


def refuted(c, module, cfg, label, variants):
    """Each broken variant of a model must violate one of its invariants."""
    for v in variants:
        r = c.tlc(module, cfg % v)
        if not r["violated"]:
            raise CheckError("model %s: variant %s is not refuted" % (label, v))
    c.cov.setdefault("refuted_variants", []).append({"model": label, "variants": variants})


def model_recode(c):
    cfg = "SPECIFICATION Spec\nINVARIANTS Exact InRange Sparse\nCONSTANTS W = %d M = %d Bits = %d Variant = \"%%s\"\n"
    for w, m, bits in [(3, 4, 10), (2, 6, 10), (4, 4, 14), (5, 4, 17)] if THOROUGH else [(3, 4, 10)]:
        c.model("MCRecode", cfg % (w, m, bits) % "none", "MCRecode windows of %d bits, all scalars of %d bits" % (w, bits))
    refuted(c, "MCRecode", cfg % (3, 4, 10), "MCRecode", ["drop", "or", "clear", "short"])


def model_carry(c):
    cfg = "SPECIFICATION Spec\nINVARIANTS Exact ByClass\nCONSTANTS Base = %d K = %d LInt = %d Variant = \"%%s\"\n"
    for b, k, l in [(5, 3, 29), (4, 3, 19), (8, 3, 251), (4, 4, 127), (16, 2, 113)] if THOROUGH else [(5, 3, 29)]:
        c.model("Carry", cfg % (b, k, l) % "none", "Carry %d limbs base %d, l=%d, all operands" % (k, b, l))
    refuted(c, "Carry", cfg % (5, 3, 29), "Carry", ["lost", "mask", "eq"])


def model_reduce(c):
    cfg = "SPECIFICATION %%s\nINVARIANTS %%s\nCONSTANTS Base = %d N = %d C = %d Source = \"%s\" Variant = \"%%s\"\n"
    whole, steps = ("AtOnce", "ReducedRun"), ("Spec", "Congruent Reduced")
    runs = [(4, 4, 7, "bytes", whole)] if not THOROUGH else \
        [(4, 4, 7, "bytes", steps), (4, 4, 7, "prod", whole), (4, 4, 5, "bytes", whole), (4, 4, 9, "bytes", whole)]
    for b, n, k, src, (spec, inv) in runs:
        c.model("Reduce", cfg % (b, n, k, src) % (spec, inv, "none"),
                "Reduce %d limbs base %d, l=%d, all inputs (%s, %s)" % (2 * n, b, b ** n + k, src, spec))
    refuted(c, "Reduce", cfg % (4, 4, 7, "bytes") % (whole + ("%s",)), "Reduce", ["last", "sweep", "sign", "round"])


def make_plan(c, builds):
    """Plans TLC makes from the specification; one file per recorder process."""
    which = {"C04": ("RecodePlan", "{4, 5}"), "C18": ("RecodePlan", "{3, 5}")}
    if c.prop in which:
        mod, w = which[c.prop]
        cfg = "SPECIFICATION Spec\nINVARIANTS Emit Reduced\nCONSTANTS Widths = %s\nVIEW View\n" % w
    elif c.prop in ("C05", "C06", "C09", "C12"):
        mod, cfg = "CarryPlan", "SPECIFICATION Spec\nINVARIANT Emit\n"
    elif c.prop in ("C01", "C13"):
        mod, cfg = "PairPlan", "SPECIFICATION Spec\nINVARIANT Emit\n"
    else:
        return None
    out = c.path("plan.ndjson")
    c.model(mod, cfg, env={"PLAN_FILE": out}, workers=1)
    more = {"C05": ["ReducePlan"], "C06": ["ReducePlan"], "C09": ["PairPlan"], "C18": ["CarryPlan", "ReducePlan"]}.get(c.prop, [])
    for m in more:
        c.model(m, "SPECIFICATION Spec\nINVARIANT Emit\n", env={"PLAN_FILE": out}, workers=1)
        mod += ", " + m
    lines = sorted({l for l in open(out) if l.endswith("\n")})
    rnd = random.Random(SEED)
    rnd.shuffle(lines)
    # the lines are dealt among the processes of each build; builds with one or two processes take a part
    files = []
    for n, b in enumerate(builds):
        same = [k for k, x in enumerate(builds) if x == b]
        mine = lines[same.index(n)::len(same)] if len(same) >= 3 else lines[n::len(builds)]
        f = c.path("plan-%d.ndjson" % n)
        with open(f, "w") as w:
            w.writelines(mine)
        files.append(f)
    c.cov["plan"] = {"model": mod, "lines": len(lines)}
    return files


# ------------------------------------------------------------------ drivers
def spawn(cmd, env=None):
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                            env=env, start_new_session=True)


def wait(p, timeout):
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e


def record(c, drvs, prop, seeds, scale, screen, limit=None, plans=None):
    """Run the driver once per seed, in parallel; returns (trace files, counts)."""
    limit = limit or 240 + 4 * screen
    jobs = []
    for n, s in enumerate(seeds):
        out = c.path("trace-%s-%d.ndjson" % (prop, s))
        drv = drvs[n % len(drvs)]
        cmd = [drv, "-prop", prop, "-seed", str(s), "-scale", str(scale), "-out", out, "-screen", "%ds" % screen]
        if plans:
            cmd += ["-plan", plans[n]]
        jobs.append((s, cmd, out, spawn(cmd)))
    files, tot = [], {"histories": 0, "events": 0, "screened": 0, "suspicious": 0}
    for s, cmd, out, p in jobs:
        rc, o, e = wait(p, limit)
        if rc == 0:
            for l in o.splitlines():
                if l.startswith("{"):
                    for k, v in json.loads(l).items():
                        tot[k] = tot.get(k, 0) + v
            files.append(out)
            continue
        if rc == 3:
            raise CheckError("driver: " + e[-2000:])
        # the process died or hung: do it again, noting each operation before it runs
        c.log("driver with seed %d ended with %s; again with a note of each operation" % (s, rc))
        cur = out + ".cur"
        rc2, o2, e2 = wait(spawn(cmd + ["-cur", cur]), limit * 3)
        if rc2 == 0:
            files.append(out)
        elif rc2 is not None and rc2 != 3 and os.path.exists(cur) and os.path.getsize(cur) > 0:
            files.append(cur)
        else:
            raise CheckError("driver ended with %s, then %s:\n%s" % (rc, rc2, (e2 or e)[-3000:]))
    return files, tot


def join(files, out):
    n = h = 0
    with open(out, "w") as w:
        for f in files:
            for l in open(f):
                if not l.endswith("\n"):
                    continue
                w.write(l)
                n += 1
                h += l.startswith('{"op":"begin"')
    return n, h


def history_at(lines, k):
    """The history (list of lines) that contains line k (0-based), up to k."""
    b = k
    while b > 0 and not lines[b].startswith('{"op":"begin"'):
        b -= 1
    return lines[b:k + 1]


def state_values(out, names):
    """Values of variables in the last state TLC printed."""
    r = {}
    for n in names:
        m = re.findall(r"(?:/\\ )?\b%s = (.*)" % n, out)
        if m:
            r[n] = m[-1].strip()
    return r


def judge(c, files, prop, module="Trace", cfg=FULL, env=None, label="trace", timeout=800):
    """Validate the recorded histories; reports a violation and returns False if one fails."""
    j = c.path("%s-all.ndjson" % label)
    n, h = join(files, j)
    if h == 0:
        raise CheckError("no histories recorded")
    e = {"TRACE_FILE": j, "PROPERTY": prop}
    e.update(env or {})
    t = time.time()
    r = c.tlc(module, cfg, env=e, timeout=timeout)
    c.states += r["distinct"]
    c.transitions += r["generated"]
    c.traces += h
    unfinished = n - r["distinct"]
    c.cov["%s_validation" % label] = {"events": n - h, "histories": h, "events_not_reached": unfinished,
                                      "wall_s": round(time.time() - t, 1)}
    c.log("%s: %d events in %d histories, %d not reached" % (label, n - h, h, unfinished))
    for k in set(re.findall(r'"KNOWN (\S+)"', r["out"])):
        if k.startswith(c.prop + "-"):  # other properties' findings are theirs to report
            c.known.add(k)
    lines = open(j).read().splitlines()
    for k in range(1, min(len(lines), 4)):
        c.sample(json.loads(lines[k]))
    if r["violated"]:
        v = state_values(r["out"], ["i", "verdict"])
        k = int(v["i"]) - 1
        ev = json.loads(lines[k])
        c.violation("%s does not conform (line %d): %s; observed rv=%s out=%s ok=%s pan=%s"
                    % (ev["op"], k + 1, v.get("verdict"), ev["rv"], ev["out"], ev["ok"], ev["pan"]),
                    history_at(lines, k))
        return False
    if n - h > 0 and unfinished > 0.5 * n and not c.violations:
        c.notes.append("most events not reached")
    return True


# per property: (scale quick, screen quick, scale thorough, screen thorough)
BUDGET = {
    "C01": (2, 8, 20, 240), "C02": (3, 8, 40, 240), "C03": (3, 8, 40, 240), "C04": (1, 14, 6, 300),
    "C05": (2, 8, 30, 240), "C06": (3, 8, 40, 240), "C07": (2, 8, 20, 240), "C08": (1, 8, 15, 240),
    "C09": (2, 8, 20, 240), "C11": (2, 8, 20, 240), "C12": (1, 8, 15, 240), "C13": (2, 8, 20, 240), "C18": (2, 12, 20, 240),
}


def models_for(c):
    small = [37]
    big = [37, 53, 61, 101, 109, 149, 157]
    p = c.prop
    if p in ("C01", "C02", "C03", "C07", "C08", "C09", "C18"):
        model_known(c)
        model_group(c, big if THOROUGH else small)
        if p in ("C01", "C02", "C09"):
            model_formulas(c, [101, 109, 149] if THOROUGH else small)
    elif p == "C13":
        model_formulas(c, big if THOROUGH else [37, 53])
    elif p in ("C05", "C06", "C12"):
        model_bignum(c)
    if p in ("C04", "C18"):
        model_recode(c)
    if p in ("C05", "C06", "C18"):
        model_carry(c)
    if p in ("C05", "C06"):
        model_reduce(c)


def check(c):
    sq, wq, st, wt = BUDGET[c.prop]
    scale, screen = (st, wt) if THOROUGH else (sq, wq)
    # one recorder process per core; the builds they come from
    mix = {"C05": ["default"] * 7 + ["386"], "C06": ["default"] * 7 + ["386"], "C11": ["default"] * 6 + ["generic", "386"],
           "C12": ["default"] * 3 + ["generic"] * 3 + ["386", "asm"], "C13": ["default"] * 3 + ["generic"] * 3 + ["386", "asm"],
           "C18": ["cref"] * 8,
           }.get(c.prop, ["default"] * 4 + ["generic"] * 2 + ["386", "asm"])
    drvs = [configs.build(c, m) or configs.build(c, "default") for m in mix]
    c.cov["builds"] = mix
    models_for(c)
    seeds = [SEED * 100 + k for k in range(NCPU)]
    files, tot = record(c, drvs, c.prop, seeds, scale, screen, plans=make_plan(c, mix))
    c.cov["recorded"] = tot
    c.log("recorded", tot)
    judge(c, files, c.prop)
    c.assumptions += [
        "big-number arithmetic, SHA-2 and the affine scalar multiplication of the specification run as Java overrides "
        "(java.math.BigInteger), checked against their TLA+ definitions by MCBigNum and MCAccel",
        "screened histories are compared with a math/big model first; only those that differ are judged by TLC",
    ]
