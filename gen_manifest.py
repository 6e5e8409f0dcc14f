#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
STATELESS = "stateless exhaustive exploration of the real code over bounded spaces of inputs, every execution compared with an independent reference model"
CHOICE = "exhaustive exploration of all choice sequences of the real code (depth-first over a scripted random generator) and of all bounded inputs, against a reference model"
OPS = "explicit-state search over all operation sequences of the real code up to a depth, replayed against a reference model"
SCHED = "systematic exploration of thread interleavings of the real code under a controlled scheduler, up to three preemptions"
FUNC = "exhaustive exploration of histories of operations up to a depth and of hash seeds (intercepted entropy), each history of the real code in a forked process of its own"
HASH = "exhaustive exploration of histories of extractions and of hash seeds (intercepted entropy), on the real code"

TRUST = ("Decided on the compiled code of the current tree, for every execution inside the bounds which the evidence file lists; "
         "nothing is claimed beyond them. Trusts the compiler, the enumeration engine in harness/src/engine.rs and the reference model ")

C = {
 "P01": (STATELESS, "(none needed: any panic, overflow or time-out counts)."),
 "P02": (STATELESS, "in harness/src/palette.rs and refm.rs (quadratic, double precision). Cases closer to a threshold than the rounding of the precision are counted as ambiguous and skipped."),
 "P03": (STATELESS, "in harness/src/palette.rs (group means, own colour conversion), with tolerances for the rounding of the precision."),
 "P04": (STATELESS, "(arithmetic of fractions)."),
 "P05": (HASH, "(a palette is compared with its own repetition under other histories, hash seeds, buffers)."),
 "P06": (SCHED, "in harness/src/threads.rs. Points of preemption are heap operations, accesses to static memory of the program and futex waits, on two and three threads in general, and on up to 20 threads which are all under way at once."),
 "P07": (STATELESS, "in harness/src/palette.rs."),
 "P08": (STATELESS, "(two extractions are compared)."),
 "P09": (STATELESS, "(the colour itself)."),
 "P10": (STATELESS, "in harness/src/palette.rs."),
 "P11": (STATELESS, "(the shares themselves)."),
 "C01": (STATELESS, "(the colour itself). The quick run already covers all 16,777,216 colours."),
 "C02": (STATELESS, "in harness/src/refm.rs, written from the standards. The quick run already covers all 16,777,216 colours."),
 "C03": (STATELESS, "in harness/src/refm.rs. The enumeration is a grid over and beyond the L*a*b* box and the hull of the gamut."),
 "C04": (STATELESS, "in harness/src/refm.rs. The enumeration is a grid over the XYZ box, and an uneven one far beyond it."),
 "M01": (STATELESS, "(coordinatewise arithmetic). Coordinates come from finite sets of representative values."),
 "M02": (STATELESS, "(comparisons; rounding to nearest in whole numbers). All 8-bit values are covered outright."),
 "N01": (STATELESS, "in harness/src/refm.rs (brute force)."),
 "N02": (STATELESS, "in harness/src/refm.rs (brute force)."),
 "N03": (FUNC, "(an answer is compared with that of the same operation alone in a fresh process)."),
 "D01": (STATELESS, "in harness/src/refm.rs (closure over the core graph). Members are observed through sizes and tagged centroids."),
 "D02": (STATELESS, "in harness/src/refm.rs. Members are observed through sizes and tagged centroids."),
 "D03": (STATELESS, "(two clusterings are compared), all permutations of small datasets."),
 "D04": (FUNC, "(an answer is compared with that of the same operation alone in a fresh process)."),
 "K01": (CHOICE, "(sets of indices)."),
 "K02": (CHOICE, "(brute-force farthest point)."),
 "K03": (CHOICE, "(Lloyd steps)."),
 "K04": (CHOICE, "(sums and ranges)."),
 "K05": (CHOICE, "(the points themselves)."),
 "K06": (FUNC, "(an answer is compared with that of the same operation alone in a fresh process)."),
 "G01": (STATELESS, "(the weights of a minimum spanning tree by Kruskal)."),
 "G02": (FUNC, "(an answer is compared with that of the same operation alone in a fresh process)."),
 "H01": (STATELESS, "(single linkage by thresholds)."),
 "H02": (STATELESS, "(merge tree invariants)."),
 "H03": (FUNC, "(an answer is compared with that of the same operation alone in a fresh process)."),
 "U01": (OPS, "(sets of sets)."),
 "S01": (STATELESS, "(sorted distances)."),
 "S02": (FUNC, "(an answer is compared with that of the same operation alone in a fresh process)."),
}

def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    assert ids == list(C), (ids, list(C))
    first = ["P01", "C01", "M01", "N01", "D01", "K01", "G01", "H01", "S01"]
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"],
                           capture_output=True, text=True, check=True).stdout.splitlines()
    commits = [l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("verif:")]
    manifest = {
        "version": 1,
        "setup_cmd": " && ".join(f"./check.sh build {i}" for i in first),
        "hooks": {
            "guard": "auto_palette_verif",
            "enable": "RUSTFLAGS='--cfg auto_palette_verif --cfg auto_palette_verif=\"<component>\"', set by check.sh for all but the P* checks, which use the public API alone",
            "source_commits": commits,
        },
        "checks": [{
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": C[i][0],
            "level": "model_checking",
            "level_note": TRUST + C[i][1],
        } for i in ids],
        "not_applicable": [],
        "notes": "Design, bounds, oracles and which check catches which planted bug: DESIGN.md. Defects found: known-findings.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as out:
        json.dump(manifest, out, indent=1)
        out.write("\n")

main()
