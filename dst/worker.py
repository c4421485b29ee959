"""Worker process: executes its share of the runs, or serves plans one by one (mirror)."""
import hashlib
import json
import mmap
import os
import pickle
import re
import signal
import struct
import subprocess
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")

from . import lib, prng, registry   # noqa: E402


class Mirrored(Exception):
    """The other process could not finish the run because of the package: (kind, what)."""


class Mirror:
    """A second process with another hash seed that executes the same plans."""

    def __init__(self, prop, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.prop = prop
        self.p = subprocess.Popen([sys.executable, "-m", "dst.worker", "mirror", prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env)

    def __call__(self, plan):
        b = pickle.dumps(plan)
        self.p.stdin.write(struct.pack("<I", len(b)) + b)
        self.p.stdin.flush()
        n = struct.unpack("<I", self.p.stdout.read(4))[0]
        ok, r = pickle.loads(self.p.stdout.read(n))
        if ok is True:
            return r
        raise Mirrored(ok, r) if ok else RuntimeError("mirror: " + r)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def serve(prop):
    sim = registry.sim(prop)
    fin, fout = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        h = fin.read(4)
        if len(h) < 4:
            return
        plan = pickle.loads(fin.read(struct.unpack("<I", h)[0]))
        try:
            r = (True, sim.mirror_execute(prop, plan))
        except BaseException as ex:
            r = blame(ex) or (False, traceback.format_exc())
        b = pickle.dumps(r)
        fout.write(struct.pack("<I", len(b)) + b)
        fout.flush()


def known_findings(prop):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == prop and k["status"] == "open"]


def known_ids(violations, known):
    """Ids of the listed findings that explain all of these violations, or None."""
    ids = []
    for v in violations:
        hit = [k["id"] for k in known if k["kind"] == v["kind"] and re.search(k["detail"], v["detail"])]
        if not hit:
            return None
        ids.append(hit[0])
    return ids


def mirror_for(prop, hashseed):
    return Mirror(prop, hashseed) if prop == "C16" else None


def plan_of(prop, seed, idx, tier):
    return registry.sim(prop).gen(prop, prng.rng("run", seed, prop, idx), tier)


def blame(ex):
    """(kind, what) if an exception that ended a run is the package's doing, else None.

    It is when it came out of a call of the package in which the simulated caller expects none, and when a result
    cannot even be read; neither happens on a tree where the property holds.
    """
    if isinstance(ex, Mirrored):
        return ex.args
    inside, tb = False, ex.__traceback__
    while tb is not None:
        inside |= os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(lib.PKG) + os.sep)
        tb = tb.tb_next
    if not inside and not isinstance(ex, (TypeError, ValueError, AttributeError, LookupError, ArithmeticError)):
        return None
    last = traceback.extract_tb(ex.__traceback__)[-1]
    return ("call-failed" if inside else "unusable-result",
            "%s: %s (%s:%d)" % (type(ex).__name__, ex, os.path.basename(last.filename), last.lineno))


class Stuck(BaseException):
    pass


CPU, WALL = 90, 60           # seconds; the longest run takes 2 (thorough: 6) of CPU time
_used = [0.0]


def stuck(signum, frame):
    now = time.process_time()
    if signum == signal.SIGALRM and now - _used[0] > 0.2:      # slow, not blocked
        _used[0] = now
        return
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)
    raise Stuck()


def judged(sim, prop, plan, mirror):
    """One run, with its verdict; a run that does not come to an end is a violation."""
    signal.signal(signal.SIGPROF, stuck)
    signal.signal(signal.SIGALRM, stuck)
    try:
        signal.setitimer(signal.ITIMER_PROF, CPU)
        signal.setitimer(signal.ITIMER_REAL, WALL, WALL)
        _used[0] = time.process_time()
        return sim.execute(prop, plan, mirror)
    except Stuck as ex:
        tb, last = ex.__traceback__, "?"
        while tb is not None:
            f = tb.tb_frame.f_code
            if os.path.realpath(f.co_filename).startswith(os.path.realpath(lib.PKG) + os.sep):
                last = "%s %s" % (os.path.basename(f.co_filename), f.co_name)
            tb = tb.tb_next
        return {"violations": [{"kind": "never-returns", "detail": "a call did not come to an end (in %s)" % last}], "stats": {},
                "measures": {}, "sig": "never-returns", "simtime": 0.0, "digest": "never-returns", "nontrivial": False}
    except Exception as ex:
        b = blame(ex)
        if b is None:
            raise
        return {"violations": [{"kind": b[0], "detail": b[1][:600]}], "stats": {}, "measures": {}, "sig": b[0], "simtime": 0.0,
                "digest": hashlib.blake2b(b[1].split(":")[0].encode(), digest_size=8).hexdigest(), "nontrivial": False}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def work(prop, tier, seed, W, w, total, budget, stopfile, out):
    sim = registry.sim(prop)
    mirror = mirror_for(prop, 7 + w)
    fh = open(stopfile, "r+b")
    mm = mmap.mmap(fh.fileno(), 16)
    res = dict(runs=0, stats={}, measures={}, sigs=[], nontrivial=0, samples=[], violation=None, error=None,
               simtime=0.0, digest="", capped=False, known={}, digests={})
    keep = bool(os.environ.get("VERIF_DIGESTS"))
    known = known_findings(prop)
    sigs = set()
    h = hashlib.blake2b(digest_size=16)
    t0 = time.monotonic()
    idx = w
    try:
        while idx < total:
            limit = struct.unpack("<q", mm[:8])[0]
            if idx >= limit:
                break
            if time.monotonic() - t0 > budget:
                res["capped"] = True
                break
            plan = plan_of(prop, seed, idx, tier)
            try:
                o = judged(sim, prop, plan, mirror)
            except Exception:
                res["error"] = "run %d: %s" % (idx, traceback.format_exc())
                break
            res["runs"] += 1
            for k, v in o["stats"].items():
                res["stats"][k] = res["stats"].get(k, 0) + v
            for k, v in o.get("measures", {}).items():
                res["measures"][k] = res["measures"].get(k, 0) + v
            res["simtime"] += o.get("simtime", 0.0)
            if keep:
                res["digests"][idx] = o["digest"] + o["sig"]
            h.update(("%d:%s;" % (idx, o["digest"])).encode())
            if o["nontrivial"]:
                if o["sig"] not in sigs:
                    res["nontrivial"] += 1
                sigs.add(o["sig"])
            if len(res["samples"]) < 2 and o["nontrivial"]:
                res["samples"].append({"run": idx, **sim.describe(prop, plan)})
            if o["violations"]:
                hit = known_ids(o["violations"], known)
                if hit is not None:
                    for k in hit:
                        res["known"][k] = res["known"].get(k, 0) + 1
                    idx += W
                    continue
                res["violation"] = {"run": idx, "violations": o["violations"], "plan": plan}
                break
            idx += W
    finally:
        if mirror is not None:
            mirror.close()
    res["sigs"] = sorted(sigs)
    res["digest"] = h.hexdigest()
    res["wall"] = time.monotonic() - t0
    with open(out, "wb") as f:
        pickle.dump(res, f)


def one(path, out):
    """Execute a replay file once; the outcome goes to out."""
    doc = json.load(open(path))
    prop = doc["property"]
    sim = registry.sim(prop)
    mirror = mirror_for(prop, doc.get("hashseed", 7))
    try:
        for p in doc.get("before", []):
            try:
                sim.execute(prop, plan_of(prop, p["seed"], p["run"], p["tier"]), mirror)
            except Exception:
                pass
        o = judged(sim, prop, doc["plan"], mirror)
        r = {"violations": o["violations"], "digest": o["digest"], "sig": o["sig"]}
    except Exception:
        r = {"error": traceback.format_exc()}
    finally:
        if mirror is not None:
            mirror.close()
    json.dump(r, open(out, "w"))


def minimise(prop, src, out, budget):
    """Greedy shrinking of a violating plan; same kind of violation must persist."""
    doc = json.load(open(src))
    sim = registry.sim(prop)
    mirror = mirror_for(prop, doc.get("hashseed", 7))
    plan, kind = doc["plan"], doc["violations"][0]["kind"]
    t0 = time.monotonic()
    tried = 0

    def fails(p):
        try:
            o = judged(sim, prop, json.loads(json.dumps(p)), mirror)
        except Exception:
            return None
        return o if any(v["kind"] == kind for v in o["violations"]) else None
    best = fails(plan)
    if best is not None:
        progress = True
        while progress and time.monotonic() - t0 < budget:
            progress = False
            for cand in sim.shrink(prop, plan):
                if time.monotonic() - t0 > budget:
                    break
                tried += 1
                o = fails(cand)
                if o is not None:
                    plan, best, progress = cand, o, True
                    break
    if mirror is not None:
        mirror.close()
    doc["plan"] = plan
    doc["shrink"] = {"candidates": tried, "reproduced_in_fresh_process": best is not None}
    if best is not None:
        doc["violations"] = best["violations"]
        doc["digest"] = best["digest"]
    json.dump(doc, open(out, "w"), indent=1)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "work":
        prop, tier, seed, W, w, total, budget, stopfile, out = a[1:]
        work(prop, tier, int(seed), int(W), int(w), int(total), float(budget), stopfile, out)
    elif a[0] == "mirror":
        serve(a[1])
    elif a[0] == "one":
        one(a[1], a[2])
    elif a[0] == "minimise":
        minimise(a[1], a[2], a[3], float(a[4]))
