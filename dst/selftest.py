"""Self-test of the machinery: determinism of runs and soundness of the reference."""
import json
import os
import shutil
import sys
import tempfile

import numpy as np

from . import cmp, main as M, models, prng, ref, registry


def reference_agrees(n):
    """Recursive reference equals dense Gaussian conditioning (filter at the end, smoother everywhere)."""
    worst = 0.0
    for i in range(n):
        r = prng.rng("selftest", i)
        s = models.random_spec(r, Nmax=6, smooth=True)
        s["qkind"] = "full"
        m = models.Model(s)
        c = m.canon
        f = ref.filter_pass(c)
        xs, Ps = ref.rts(c, f)
        Bu = [None if (c.B[k] is None or c.u[k] is None) else c.B[k] @ c.u[k] for k in range(c.N)]
        mu, C = ref.dense_posterior(list(c.A), Bu, list(c.Q), c.x0, c.P0,
                                    [(k, c.H[k], c.R[k], c.z[k]) for k in range(c.N)])
        sx = max(cmp.amax(f.x, f.xp, c.z), m.sd)
        worst = max(worst, cmp.err(np.array(xs), mu, sx), cmp.err(np.array(Ps), np.array(C), cmp.amax(f.Pp, f.P)))
    return worst


def deterministic(prop, runs, seeds):
    """Same batch at two worker counts and hash seeds: per-run digests agree."""
    out = []
    for W in (1, 3):
        tmp = tempfile.mkdtemp(prefix="dst-")
        try:
            per = {}
            for seed in seeds:
                res, err = M.batch(prop, "quick", seed, runs, W, 600, tmp)
                if err:
                    return "error: " + "; ".join(err)
                for w, r in res.items():
                    for k, d in r["digests"].items():
                        per[(seed, k)] = d
                for f in os.listdir(tmp):
                    os.unlink(os.path.join(tmp, f))
            out.append(per)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    bad = [k for k in out[0] if out[0][k] != out[1].get(k)]
    return "runs differ: %s" % bad[:5] if bad else None


def main(args):
    quick = "--quick" in args
    w = reference_agrees(40 if quick else 2000)
    print("reference vs dense conditioning: largest relative difference %.3g" % w)
    ok = w < 1e-9
    os.environ["VERIF_DIGESTS"] = "1"
    for prop in sorted(registry.PROPS):
        if not os.path.exists(os.path.join(os.path.dirname(__file__), registry.PROPS[prop]["sim"] + ".py")):
            continue
        msg = deterministic(prop, 24 if quick else 400, (1,) if quick else (1, 2, 3, 4, 5))
        print("determinism %s: %s" % (prop, msg or "ok"), flush=True)
        ok = ok and msg is None
    return 0 if ok else 1
