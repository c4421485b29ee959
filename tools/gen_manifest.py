"""Writes MANIFEST.json from the registry."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst import registry  # noqa: E402

TECH = {
    "netsim": "deterministic simulation: discrete-event network of sensors, lossy links and a crashing estimator node, "
              "checked step by step and over the history against an exact Gaussian reference",
    "pipesim": "deterministic simulation: record pipeline with crash/restart at arbitrary instants, stream truncation "
               "and corruption, against an uninterrupted run and an exact reference",
    "callrun": "deterministic simulation: callers under a seeded byte-code scheduler with injected failures, stalls, "
               "re-entry and GC/clock faults, against solo runs and an exact reference",
    "leaksim": "deterministic simulation: callers under a seeded byte-code scheduler with injected failures, stalls and "
               "re-entry, judged by what weak references and allocation counts show afterwards",
    "vcssim": "deterministic simulation: import in simulated deployments with faults injected at every version-control "
              "process call, against an independent git oracle",
}
NOTE = ("Seeded search over schedules and fault sequences on the real package code; every run is repeatable from its "
        "seed and violations are minimised and replayed in a fresh process. Sampling, not proof. Trusts numpy, the "
        "reference model (dst/ref.py, cross-checked against dense Gaussian conditioning) and the simulator. ")
EXTRA = {
    "C01": "Rounding tolerance 1e-7 relative to the largest quantity of the step; moderately conditioned models only.",
    "C02": "Same tolerance; user functions are smooth closed forms generated per seed.",
    "C12": "Validity is within rounding (1e-7 relative) for moderately conditioned models.",
    "C14": "Faults are injected at the subprocess seam (subprocess.Popen), git output otherwise comes from real git.",
    "C15": "Oracle reads the same repositories with independent plumbing commands.",
    "C21": "Weak references to arguments, results, errors and filters, and allocated blocks over repeated rounds.",
    "C16": "Each plan is executed in two processes with different hash seeds, clocks, random state, heap and GC.",
}
NA = {
    "C17": "pure function of the input layout: no schedule, clock, fault or second party for a simulator to decide",
    "C18": "floating-point accuracy of pure arithmetic on ill-conditioned or very long input: nothing to schedule or to fault",
    "C19": "pure input validation of shapes and lengths; the package documents that shapes are the caller's duty, and no "
           "schedule or fault is involved",
    "C20": "examples and documentation are static text and notebooks (need plotting and data packages that are not "
           "installed); nothing to simulate",
}


def main():
    built = [p for p in sorted(registry.PROPS)
             if os.path.exists(os.path.join(ROOT, "dst", registry.PROPS[p]["sim"] + ".py"))]
    checks = [{"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p,
               "evidence_file": "evidence/%s.json" % p, "technique": TECH[registry.PROPS[p]["sim"]],
               "level": "exploration", "level_note": NOTE + EXTRA.get(p, "")} for p in built]
    na = [{"property": p, "reason": r} for p, r in NA.items()]
    na += [{"property": p, "reason": "check not built yet"} for p in registry.PROPS if p not in built]
    doc = {"version": 1, "setup_cmd": "./check selftest --quick", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are sys.monitoring, subprocess.Popen, time, threading locks and the "
                    "user-supplied model functions. ./check replay FILE replays a violation."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
