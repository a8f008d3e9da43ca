#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand; the result is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ specification; TLC model checking of the design on toy curves; TLC trace validation of recorded histories"
NOTE = ("Every recorded operation of thousands of generated histories is judged by TLC against the full-size TLA+ specification; "
        "the specification's own laws are model checked exhaustively on toy curves. Not a proof for all inputs: inputs are "
        "class-directed and random. Trusts TLC, Java BigInteger/MessageDigest behind the overrides, and the recorder.")
CHECKS = {p: (TRACE, NOTE) for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13"]}
CHECKS["C10"] = ("TLA+ specification; calls and call sequences enumerated by TLC over aliasing patterns; two-run comparison decided by TLC",
                 "All calls of the API in all aliasing patterns on all value classes, and TLC random walks, performed on real objects "
                 "and compared by TLC with the same call alone on fresh objects, with a frame condition. Values are class representatives.")
CHECKS["C14"] = ("TLA+ specification; recorded histories of five builds compared pairwise, line by line, by TLC (CrossTrace)",
                 "Histories invented by each build are replayed in another; TLC compares every observable, allowing only what the "
                 "specification leaves open. Builds: 64-bit, 32-bit-limb, assembly (by overlay), each 386 variant. Sampled histories.")
CHECKS["C15"] = ("TLA+ model of interleaved calls checked exhaustively by TLC; TLC-planned goroutine programs run under the race detector and compared by TLC with the sequential run",
                 "All interleavings in the model of a library without shared mutable state, whose broken variants TLC refutes; real runs "
                 "under the race detector, under stress and with goroutines made to give way at the statements of an instrumented copy that "
                 "touch shared state, first use in fresh processes. Real schedules are sampled, not exhausted.")
CHECKS["C16"] = ("TLA+ model of the randomness source enumerated by TLC into fault scripts; recorded calls judged by TLC",
                 "All behaviours of the source up to a bound on the number of reads (short reads, errors, zero reads) are enumerated and "
                 "played to the real code in builds with old and new Go; TLC judges each call against the map of the delivered bytes.")
CHECKS["C17"] = ("TLA+ self-composition model of fixed-window multiplication; observations of an instrumented copy of the library judged by TLC",
                 "Two-run non-interference in the model, whose leaky variants TLC refutes; for the code, blocks entered, indices, slice bounds "
                 "and array comparisons of millions of calls are digested and TLC requires equal digests within a public class. Source level: "
                 "the compiler, the standard library's internals and the assembly are not observed.")
CHECKS["C18"] = (TRACE, NOTE.replace("Every recorded operation", "The C reference runs under the same recorder: every recorded operation"))
NA = {}
for p in ["C10", "C14", "C15", "C16", "C17", "C18"]:
    if p not in CHECKS:
        NA[p] = "not claimed yet: its conformance machinery is not built"
m = {"version": 1, "setup_cmd": "bin/setup.sh",
     "checks": [{"property": p, "quick_cmd": "bin/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough bin/check.py " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n}
                for p, (t, n) in sorted(CHECKS.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks in /repo: the recorder uses the exported API. Checks exit 2 when they could not be carried out."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
