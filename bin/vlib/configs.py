"""The build configurations of the library that can be built and run here."""
import hashlib, json, os, re
from .core import *


def pre113_overlay(c):
    """An overlay in which the build constraints behave as under a Go before 1.13: on amd64 they
    then select the assembly for field multiplication."""
    d = c.path("overlay")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(REPO, "edwards25519")
    rep = {}
    for f in sorted(os.listdir(src)):
        if not f.endswith((".go", ".s")) or f.endswith("_test.go"):
            continue
        t = open(os.path.join(src, f), errors="replace").read()
        if "go1.13" not in t:
            continue
        t = re.sub(r"(?m)^// ?\+build .*\n", "", t)
        t = re.sub(r"(?m)^(//go:build .*)$", lambda m: m.group(1).replace("go1.13", "verifnevergo113"), t)
        p = os.path.join(d, f)
        open(p, "w").write(t)
        rep[os.path.join(src, f)] = p
    p = os.path.join(d, "overlay.json")
    json.dump({"Replace": rep}, open(p, "w"))
    return p if rep else None


ENV32 = dict(GOARCH="386", CGO_ENABLED="0")


def build_cref(c, pkg, out, env):
    """The recorder calls C functions that are no part of the Go wrapper; where some of them do not
    exist, or not as they were, it does without."""
    src = os.path.join(HARNESS, "driver", "cref_on.go")
    text = open(src).read()
    used = set(re.findall(r"\bC\.((?:fe25519|group|scalar)_\w+)", text)) - {"group_ge", "group_scalar"}
    values = {"group_ge_neutral": "group_ge", "group_ge_base": "group_ge", "fe25519_sqrtm1": "fe25519"}
    gone = set()
    while True:
        t = text
        for n in gone:
            t = re.sub(r"\bC\.%s\b" % n, "*(*C.%s)(nothing())" % values[n] if n in values else "absent", t)
        p = c.path("cref_on.go")
        open(p, "w").write(t)
        ov = c.path("cref.json")
        json.dump({"Replace": {src: p}}, open(ov, "w"))
        more = set()
        try:
            c.go_build(pkg, out, tags="cref", env=env, extra=["-overlay", ov] if gone else [])
            _, syms = sh(["nm", out], check=False)
            more = used - set(re.findall(r"(?m)^[0-9a-f]+ [a-zA-Z] (\w+)$", syms)) - gone
            if not more - gone:
                break
        except CheckError as e:
            more = set(re.findall(r"C\.(\w+) refers to", str(e)))
            lines = t.splitlines()
            for k in re.findall(r"cref_on\.go:(\d+)", str(e)):
                more |= set(re.findall(r"\bC\.(\w+)", lines[int(k) - 1]))
            more &= used
            if not more - gone:
                raise
        gone |= more
    if gone:
        c.notes.append("C functions not found: " + " ".join(sorted(gone)))
        c.log("C functions not found, or not as they were; left out:", *sorted(gone))
    return out


def build(c, name, pkg="./driver", race=False):
    """Build the recorder in one configuration; None where it does not exist."""
    out = c.path("driver-" + name + ("-race" if race else ""))
    if os.path.exists(out):
        return out
    if name == "default":
        return c.go_build(pkg, out, race=race)
    if name == "generic":
        return c.go_build(pkg, out, tags="forcegeneric", race=race)
    if name == "386":
        return c.go_build(pkg, out, env=goenv(**ENV32))
    if name == "386generic":
        return c.go_build(pkg, out, tags="forcegeneric", env=goenv(**ENV32))
    if name == "asm":
        ov = pre113_overlay(c)
        if ov is None:
            return None
        try:
            return c.go_build(pkg, out, extra=["-overlay", ov])
        except CheckError as e:
            # no Go since 1.13 builds this configuration: that it no longer compiles is not ours to judge
            c.notes.append("asm configuration does not build")
            c.log("asm configuration does not build here; skipped")
            return None
    if name == "cref":  # the C reference under the recorder
        h = hashlib.sha256()
        d = os.path.join(REPO, "cref")
        for f in sorted(os.listdir(d)):  # go's build cache does not look at what the C file includes
            h.update(open(os.path.join(d, f), "rb").read())
        return build_cref(c, pkg, out, goenv(
            CGO_CFLAGS="-O2 -g -I%s -DVERIF_DATA_HASH=0x%s" % (d, h.hexdigest()[:16])))
    raise CheckError("configuration " + name)
