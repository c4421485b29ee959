"""Parent: check one property (batch of seeded runs), replay a file, or self-test."""
import json
import os
import pickle
import shutil
import struct
import subprocess
import sys
import tempfile
import time

from . import registry
from .worker import known_findings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, "replays")


def base_env(hashseed):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GIT_", "PYTHON"))}
    e.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED=str(hashseed), PYTHONPATH=ROOT)
    return e


def spawn(args, hashseed, log):
    return subprocess.Popen([sys.executable, "-m", "dst.worker"] + [str(a) for a in args], cwd=ROOT,
                            env=base_env(hashseed), stdin=subprocess.DEVNULL, stdout=log, stderr=log)


def batch(prop, tier, seed, total, W, budget, tmp):
    stop = os.path.join(tmp, "stop")
    with open(stop, "wb") as f:
        f.write(struct.pack("<qq", 1 << 60, 0))
    log = open(os.path.join(tmp, "log"), "ab")
    procs = []
    for w in range(W):
        out = os.path.join(tmp, "w%d" % w)
        procs.append((w, out, spawn(["work", prop, tier, seed, W, w, total, budget, stop, out], 1000 + 17 * w, log)))
    deadline = time.monotonic() + budget + 120
    results, left, hung = {}, list(procs), []
    low = 1 << 60
    while left:
        for t in list(left):
            w, out, p = t
            if p.poll() is not None:
                left.remove(t)
                if os.path.exists(out):
                    results[w] = pickle.load(open(out, "rb"))
                    v = results[w]["violation"]
                    if v and v["run"] < low:      # the others need not go beyond this run
                        low = v["run"]
                        with open(stop, "r+b") as f:
                            f.write(struct.pack("<q", low))
                            f.flush()
        if time.monotonic() > deadline:
            for w, out, p in left:
                p.kill()
                hung.append(w)
            break
        time.sleep(0.02)
    log.close()
    errors = ["worker %d did not finish in time" % w for w in hung]
    for w, out, p in procs:
        if w not in results and w not in hung:
            errors.append("worker %d ended with status %s" % (w, p.returncode))
        elif w in results and results[w]["error"]:
            errors.append(results[w]["error"])
    if errors:
        errors.append(open(os.path.join(tmp, "log"), errors="replace").read()[-3000:])
    return results, errors


def single(doc, tmp, name):
    src, out = os.path.join(tmp, name + ".json"), os.path.join(tmp, name + ".out")
    json.dump(doc, open(src, "w"))
    log = open(os.path.join(tmp, "log"), "ab")
    p = spawn(["one", src, out], doc.get("worker_hashseed", 1000), log)
    try:
        p.wait(timeout=180)
    except subprocess.TimeoutExpired:
        p.kill()
        return {"error": "no answer within 180 s"}
    return json.load(open(out)) if os.path.exists(out) else {"error": "no outcome"}


def report(prop, tier, seed, W, v, tmp):
    """Minimise, confirm in a fresh process, write the replay file."""
    os.makedirs(REPLAYS, exist_ok=True)
    w = v["run"] % W
    doc = {"property": prop, "seed": seed, "tier": tier, "run": v["run"], "violations": v["violations"],
           "plan": v["plan"], "worker_hashseed": 1000 + 17 * w, "hashseed": 7 + w}
    src, out = os.path.join(tmp, "min.json"), os.path.join(tmp, "min.out")
    json.dump(doc, open(src, "w"))
    log = open(os.path.join(tmp, "log"), "ab")
    p = spawn(["minimise", prop, src, out, 45], doc["worker_hashseed"], log)
    try:
        p.wait(timeout=240)
    except subprocess.TimeoutExpired:
        p.kill()
    if os.path.exists(out):
        m = json.load(open(out))
        if m["shrink"]["reproduced_in_fresh_process"]:
            r = single(m, tmp, "confirm")
            if r.get("violations") and r["violations"][0]["kind"] == m["violations"][0]["kind"]:
                m["violations"] = r["violations"]
                m["confirmed"] = "reproduced in a fresh process"
                doc = m
    if "confirmed" not in doc:
        r = single(doc, tmp, "confirm2")
        if r.get("violations"):
            doc["confirmed"] = "reproduced in a fresh process (unminimised)"
        else:
            # depends on what the worker process did before: replay that history too
            runs = list(range(w, v["run"], W))
            for n in (1, 5, 40, len(runs)):
                d = {**doc, "before": [{"seed": seed, "run": i, "tier": tier} for i in runs[-n:]]}
                r = single(d, tmp, "confirm3")
                if r.get("violations"):
                    doc = d
                    doc["confirmed"] = "reproduced in a fresh process after the %d preceding runs" % min(n, len(runs))
                    break
    path = os.path.join(REPLAYS, "%s-%d-%d.json" % (prop, seed, v["run"]))
    json.dump(doc, open(path, "w"), indent=1)
    return path, doc


def evidence(prop, tier, seed, results, total, wall, viol, extra):
    P = registry.PROPS[prop]
    sim = registry.sim(prop)
    stats, measures, sigs = {}, {}, set()
    for r in results.values():
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r["measures"].items():
            measures[k] = measures.get(k, 0) + v
        sigs.update(r["sigs"])
    runs = sum(r["runs"] for r in results.values())
    samples = sorted((s for r in results.values() for s in r["samples"]), key=lambda s: s["run"])[:4]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(sigs),
        "rule": P["rule"],
        "samples": samples,
        "planned_runs": total,
        "runs_per_hour": int(runs / wall * 3600) if wall else 0,
        "seeds_per_hour": int(runs / wall * 3600) if wall else 0,
        "simulated_time_s": round(sum(r["simtime"] for r in results.values()), 3),
        "faults_fired": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
        "operations": {k[3:]: v for k, v in sorted(stats.items()) if k.startswith("op:")},
        "history_operations": {k[5:]: v for k, v in sorted(stats.items()) if k.startswith("hist:")},
        "deployments": {k[7:]: v for k, v in sorted(stats.items()) if k.startswith("deploy:")},
        "inherited_environment": {k[4:]: v for k, v in sorted(stats.items()) if k.startswith("env:")},
        "reach": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("reach:")},
        "measures": measures,
        "real_components": sim.REAL,
        "stub_components": sim.STUB,
        "workers": len(results),
        "stopped_by_time_cap": any(r["capped"] for r in results.values()),
    }
    cov.update(extra)
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": ["each run is one seeded execution; a clean batch is evidence, not proof",
                           "pre-emption and injected failures land between byte-code instructions or lines of package "
                           "code (never inside numpy)", "a fresh copy of the package's modules is executed per run"],
           "wall_s": round(wall, 2), "violations": viol}
    where = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(where, exist_ok=True)
    path = os.path.join(where, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(path + ".tmp", path)


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = registry.PROPS[prop]
    total = int(os.environ.get("VERIF_RUNS", P[tier]))
    W = int(os.environ.get("VERIF_WORKERS", min(8, os.cpu_count() or 1)))
    budget = float(os.environ.get("VERIF_BUDGET", 240 if tier == "quick" else 3600))
    print("check %s tier=%s seed=%d runs=%d workers=%d" % (prop, tier, seed, total, W), flush=True)
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="dst-")
    try:
        results, errors = batch(prop, tier, seed, total, W, budget, tmp)
        wall = time.monotonic() - t0
        viols = [r["violation"] for r in results.values() if r["violation"]]
        new = sorted(viols, key=lambda v: v["run"])
        for k in known_findings(prop):      # listed findings, whether or not this seed ran into them
            n = sum(r["known"].get(k["id"], 0) for r in results.values())
            print("KNOWN-FINDING: property=%s %s (met in %d runs)" % (prop, k["what"], n))
        runs = sum(r["runs"] for r in results.values())
        evidence(prop, tier, seed, results, total, wall, len(new),
                 {"batch_digest": [results[w]["digest"] for w in sorted(results)]})
        if new:
            path, doc = report(prop, tier, seed, W, new[0], tmp)
            for x in doc["violations"]:
                print("  %s: %s" % (x["kind"], x["detail"]))
            print("  run %d of seed %d; %s" % (doc["run"], seed, doc.get("confirmed", "NOT reproduced on replay")))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            return 1
        if errors:
            print("ERROR of the check (no verdict):\n" + "\n".join(errors), file=sys.stderr)
            return 2
        if runs < min(total, 200):
            print("ERROR of the check: only %d runs finished" % runs, file=sys.stderr)
            return 2
        print("ok: %d runs, %.1f s, property %s held on all" % (runs, wall, prop))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    tmp = tempfile.mkdtemp(prefix="dst-")
    try:
        doc = json.load(open(path))
        r = single(doc, tmp, "replay")
        print(json.dumps(r, indent=1))
        if r.get("violations"):
            print("VIOLATION property=%s replay=%s" % (doc["property"], path))
            return 1
        return 2 if "error" in r else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "check":
        sys.exit(check(a[1]))
    if a[0] == "replay":
        sys.exit(replay(a[1]))
    if a[0] == "selftest":
        from . import selftest
        sys.exit(selftest.main(a[1:]))
    sys.exit(2)
