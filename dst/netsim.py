"""netsim: plants, sensors, a lossy network and a crashing estimator node, in simulated time.

The node drives the real predict/update; everything else is simulated.  A plan lists every message with its fate
(arrival delays; none = lost, two = duplicated), every crash and every stall, so that one plan is one execution.
"""
import copy
import hashlib
import heapq
import pickle
from collections import Counter

import numpy as np

from . import cmp, lib, models, prng, ref, sched
from .callgen import chunks
from .ref import ld

REAL = ["kalmankit package (all modules), re-executed from /repo/src at every simulated node start", "numpy"]
STUB = ["plants, sensors and controllers", "network (loss, duplication, delay, reordering, partitions, spikes)",
        "estimator node application (buffering, deduplication, rollback)", "checkpoint disk", "clock (discrete-event)",
        "process spawning at import (no such program)"]

INT = {"u2": np.uint16, "u4": np.uint32, "u8": np.uint64, "i8": np.int64, "i4": np.int32, "i2": np.int16, "i1": np.int8, "u1": np.uint8, "f4": np.float32, "f2": np.float16,
       "b1": np.bool_}


class Killed(BaseException):
    pass


def die():
    raise Killed()


# ------------------------------------------------------------------------- the world
class World:
    """Models and true data; pure function of the plan's world spec."""

    def __init__(self, w):
        self.w = w
        seed, n, l, N, T = w["seed"], w["n"], w["l"], w["N"], w["T"]
        self.n, self.l, self.N, self.T = n, l, N, T
        cov = 10.0 ** w["scale"]
        sd = self.sd = cov ** 0.5
        ekf = self.ekf = w["cls"] == "EKF"
        self.mild = ekf and w.get("ekf") != "linear"
        spec = {**models.default_spec(seed), "n": n, "l": l, "N": N, "akind": w["akind"], "qkind": w["qkind"],
                "qexp": w["qexp"], "tv": w["tv"], "scale": w["scale"], "ekf": w.get("ekf", "linear"), "st": w.get("st") or {}}
        self.spec = spec
        steps = lambda tag, fn: models._steps(spec, tag, fn, N)
        self.A = steps("A", lambda g: models._A(g, n, w["akind"]))
        self.B = steps("B", lambda g: g.normal(size=(n, l)))
        self.Q = steps("Q", lambda g: models._psd(g, n, w["qkind"], cov * 10.0 ** w["qexp"]))
        self.A, self.B = models._st(self.A, "A", spec), models._st(self.B, "B", spec)
        self.Q = models._st(self.Q, "Q", spec, cov * 10.0 ** w["qexp"])
        if w.get("bint"):
            self.B = np.round(self.B * 3).astype(INT[w["bint"]])
        if w.get("aint") and w["akind"] == "ident" and "A" not in spec["st"]:
            self.A = self.A.astype(INT[w["aint"]])
        self.sensors = []
        for s, sp in enumerate(w["sensors"]):
            m = sp["m"]
            one = {**spec, "seed": prng.derive(seed, "sensor", s), "m": m,
                   "form": "m1" if (m == 1 and sp.get("scalar")) else "full"}
            H = models._steps(one, "H", lambda g: g.normal(size=(m, n)), N)
            R = models._steps(one, "R", lambda g: models._psd(g, m, "full", cov * 10.0 ** sp["rexp"]), N)
            H, R = models._st(H, "H", one), models._st(R, "R", one, cov * 10.0 ** sp["rexp"])
            cb = models.Callback(one)
            self.sensors.append({"m": m, "H": H, "R": R, "cb": cb, "scalar": one["form"] == "m1"})
        base = self.sensors[0]["cb"]
        for s in self.sensors:                       # one transition model, several observation models
            for q in ("Am", "Bm", "C", "D"):
                setattr(s["cb"], q, getattr(base, q))
        self.x0, self.P0, self.u, self.z = [], [], {}, {}
        for t in range(T):
            g = prng.gen(seed, "track", t)
            mine = {**spec, "seed": prng.derive(seed, "track", t)}
            x0 = models._st(g.normal(size=n) * sd, "x", mine, sd)
            self.x0.append(x0)
            self.P0.append(models._st(models._psd(g, n, "full", cov), "P", mine, cov))
            x = x0 + g.normal(size=n) * sd
            for k in range(N):
                u = g.normal(size=l) * sd
                if w.get("uint"):
                    u = np.round(np.abs(g.normal(size=l)) * 3) if w["uint"][0] in "ub" else np.round(g.normal(size=l) * 3)
                    u = u.astype(INT[w["uint"]])
                elif "U" in spec["st"]:
                    u = models._st(u[None], "U", {**mine, "seed": prng.derive(mine["seed"], k)}, sd)[0]
                self.u[t, k] = u
                ctl = w["ctl"]
                nz = g.normal(size=n) * sd * 10 ** (w["qexp"] / 2)
                if ekf:
                    x = base.p_f(x, u if ctl else None) + nz
                else:
                    x = np.asarray(self.A[k], dtype=float) @ x + (np.asarray(self.B[k], dtype=float) @ u if ctl else 0) + nz
                for s, sn in enumerate(self.sensors):
                    y = np.atleast_1d(sn["cb"].p_h(x)) if ekf else sn["H"][k] @ x
                    y = y + g.normal(size=sn["m"]) * sd * 10 ** (w["sensors"][s]["rexp"] / 2)
                    self.z[t, k, s] = np.round(y / sd) * sd if w.get("zround") else y


# ------------------------------------------------------------------------- the node
ROUGH = cmp.TOL / 300
NUMERIC = ("differs-from-reference", "not-the-conditional", "covariance-invalid", "uncertainty-order",
           "missing-control", "control-changed")


class IllConditioned(BaseException):
    """Textbook float64 formulas lose so many digits in this world that it decides nothing any more."""


class Est:
    """One track's estimate on the node: what the library returned, and the reference lineage."""

    def __init__(self, x, P):
        self.x, self.P = x, P
        self.rx, self.rP = ld(x).reshape(-1), ld(P)
        self.jx, self.jP = self.rx, self.rP      # twin of the reference disturbed by rounding-sized jitter
        self.qx, self.qP = cmp.f8(self.rx), cmp.f8(self.rP)     # plain float64 lineage: see ref.rough_update
        self.applied = []        # (k, "u", missing?) / (k, s, z)
        self.k = -1

    def clone(self):
        e = copy.copy(self)
        e.applied = list(self.applied)
        return e


class Node:
    def __init__(self, run, when):
        self.run, self.w = run, run.world
        self.kk = lib.fresh()
        self.build()
        self.up = True
        self.buffer = {}
        self.seen = set()
        self.busy_until = when
        self.est = [Est(x, P) for x, P in zip(self.w.x0, self.w.P0)]
        self.past = [{} for _ in range(self.w.T)]      # states before each step, for rollback

    def build(self):
        w = self.w
        if not w.ekf:
            s = w.sensors[0]
            self.f = [self.kk.KalmanFilter(A=w.A, xk=w.x0[0], B=w.B if w.w["ctl"] else None, Pk=w.P0[0], H=s["H"], Q=w.Q,
                                           R=s["R"])]
        else:
            self.f = []
            for s in w.sensors:
                cb = s["cb"]
                self.f.append(self.kk.ExtendedKalmanFilter(xk=w.x0[0], Pk=w.P0[0], Q=w.Q, R=s["R"], f=cb.f, h=cb.h,
                                                           jacobian_A=cb.jacobian_A, jacobian_H=cb.jacobian_H))


class Run:
    def __init__(self, prop, plan):
        self.prop, self.plan = prop, plan
        self.viol, self.stats, self.trace = [], Counter(), []
        self.calls = 0
        self.calm = False
        self.rough = 0.0         # how far plain float64 formulas are from the reference in this run
        self.jit = None
        self.bufs = {}
        self.crash_calls = {c["call"]: c for c in plan.get("crashes", []) if "call" in c}
        self.applied_total = 0
        self.dig = []

    def bad(self, kind, detail):
        if kind in NUMERIC and self.rough > ROUGH:
            raise IllConditioned()
        if len(self.viol) < 5:
            self.viol.append({"kind": kind, "detail": str(detail)[:500]})

    # ------------------------------------------------------------ library calls
    def arguments(self, kw):
        """The objects the node passes: fresh views, the same objects whenever equal, or reused buffers."""
        how = self.plan["world"].get("args")
        if how is None:
            return kw
        out = {}
        for q, v in kw.items():
            if isinstance(v, np.ndarray):
                if how == "buffers":
                    b = self.bufs.setdefault((q, v.shape, v.dtype), np.empty_like(v))
                    b[...] = v
                    v = b
                elif how == "ro":
                    v = v.copy()
                    v.flags.writeable = False
                elif how == "F":
                    v = np.asfortranarray(v)
                elif how == "strided":
                    big = np.full(v.shape[:-1] + (2 * v.shape[-1],), 7, dtype=v.dtype)
                    big[..., ::2] = v
                    v = big[..., ::2]
                elif how == "ints":
                    if v.dtype.kind == "f" and np.isfinite(v).all() and np.array_equal(v, np.round(v)) \
                            and np.abs(v).max(initial=0) < 1e6:
                        v = v.astype(np.int64)
                else:
                    v = self.bufs.setdefault((q[0], v.shape, v.dtype, v.tobytes()), v)
            out[q] = v
        return out

    def lib_call(self, fn, kw, what):
        """A library call of the node; the process may die inside it."""
        self.calls += 1
        kw = self.arguments(kw)
        if self.plan["world"].get("positional"):
            args, named = kw.values(), fn
            fn = lambda **_: named(*args)
        c = self.crash_calls.get(self.calls)
        if c is None or self.calm:
            return fn(**kw)
        sched.count_events(lambda: fn(**kw), "line", c["line"], die)
        raise Killed()             # died after the call, before anything became durable

    def check_pair(self, what, p, rx, rP, sx, sp, tol=cmp.TOL):
        d = max(cmp.err(np.asarray(p[0]).reshape(-1), cmp.f8(rx), sx), cmp.err(p[1], cmp.f8(rP), sp))
        if not d <= tol:
            self.bad("differs-from-reference", "%s: off by %.3g (relative)" % (what, d))

    def units(self, t, e, k):
        """A node that keeps its estimates in whole units (or in single precision)."""
        w = self.world
        if not w.w.get("units") or (t + k) % 3:
            return
        ty = np.dtype(INT[w.w["units"]])
        x, P = np.asarray(e.x, dtype=float).reshape(-1), np.asarray(e.P, dtype=float)
        if ty.kind in "iu":
            x = np.round(x)
            if k % 2:
                P = np.round((P + P.T) / 2) + (w.n // 2 + 1) * np.identity(w.n)
            lo, hi = np.iinfo(ty).min, np.iinfo(ty).max
            if x.min() < lo or x.max() > hi or P.min() < lo or P.max() > hi:
                return
        e.x, e.P = x.astype(ty), P.astype(ty) if ty.kind == "f" or k % 2 else e.P
        e.rx, e.rP = ld(e.x), ld(e.P)
        e.jx, e.jP = e.rx, e.rP
        e.qx, e.qP = cmp.f8(e.rx), cmp.f8(e.rP)
        self.stats["op:estimate-kept-in-" + w.w["units"]] += 1

    def predict(self, node, t, e, k, u):
        """u: control vector or None (missing)."""
        w, plan = self.world, self.plan
        how = plan["world"].get("missing", "none")
        what = "track %d step %d: prediction" % (t, k)
        ctl = w.w["ctl"]
        self.units(t, e, k)
        sx_in, P_in = np.asarray(e.x, dtype=float).reshape(-1), np.asarray(e.P, dtype=float)
        lx, lP = ld(sx_in), ld(P_in)
        if not w.ekf:
            B = w.B[k]
            miss = u is None
            arg_u, arg_B = u, B
            if miss:
                mode = how if how != "mixed" else ("none", "nan", "Bnone", "Bnan")[(t + k) % 4]
                if not ctl:
                    mode = ("Bnone", "Bnan", "none")[k % 3] if how == "mixed" else "Bnan"
                arg_u = w.u[t, k]
                if mode == "none":
                    arg_u = None
                elif mode == "nan":
                    arg_u = np.full(w.l, np.nan)
                elif mode == "Bnone":
                    arg_B = None
                elif mode == "Bnan":
                    arg_B = np.full(np.shape(B), np.nan)
                self.stats["reach:missing-control-" + mode] += 1
            kw = dict(Ak=w.A[k], xk=e.x, Bk=arg_B, uk=arg_u, Pk=e.P, Qk=w.Q[k])
            f = node.f[0]
            p = self.lib_call(f.predict, kw, what)
            rB, ru = (None, None) if miss else (ld(B), ld(u))
            gx, gP = ref.predict(ld(w.A[k]), e.rx, rB, ru, e.rP, ld(w.Q[k]))
            sxx, sPP = ref.predict(ld(w.A[k]), lx, rB, ru, lP, ld(w.Q[k]))
            rough = ref.rough_predict(w.A[k], np.asarray(w.A[k], dtype=float) @ e.qx + (0 if miss else cmp.f8(rB @ ru)), e.qP, w.Q[k])
            if self.prop == "C13" and miss:
                z = f.predict(**{**kw, "Bk": B, "uk": np.zeros(w.l)})
                d = max(cmp.err(p[0], z[0], max(cmp.amax(z[0], e.x), 1e-300)), cmp.err(p[1], z[1], max(cmp.amax(z[1]), 1e-300)))
                if not d <= 1e-12:
                    self.bad("missing-control", "%s with missing control (%s) differs from zero control by %.3g" % (what, mode, d))
            if self.prop == "C13" and not miss and plan["world"].get("partial") and w.l > 1:
                up = np.array(u, dtype=float)
                up[(t + k) % w.l] = np.nan
                q = f.predict(**{**kw, "uk": up})
                want = np.asarray(w.A[k], dtype=float) @ sx_in + np.asarray(B, dtype=float) @ up
                self.stats["fault:partial-control"] += 1
                if not np.array_equal(np.isnan(want), np.isnan(np.asarray(q[0], dtype=float).reshape(-1))):
                    self.bad("missing-control", "%s: a partly missing control was treated as missing" % what)
        else:
            f = node.f[(t + k) % len(node.f)]
            cb = w.sensors[(t + k) % len(node.f)]["cb"]
            arg_u = u if u is not None else (None if how == "none" or (how == "mixed" and k % 2) else np.full(w.l, np.nan))
            log = []
            cb.hook = lambda name, x, uu: log.append((name, np.array(x, dtype=float, copy=True), uu))
            p = self.lib_call(f.predict, dict(xk=e.x, uk=arg_u, Pk=e.P, Qk=w.Q[k]), what)
            cb.hook = None
            self.cb_args(what, log, {"f", "jacA"}, sx_in, u)
            gx, gP, _ = ref.ekf_predict(cb, e.rx, u, e.rP, ld(w.Q[k]))
            sxx, sPP, _ = ref.ekf_predict(cb, lx, u, lP, ld(w.Q[k]))
            rough = ref.rough_predict(cb.p_jacA(e.qx, u), cb.p_f(e.qx, u), e.qP, w.Q[k])
        twin = None
        if w.mild and self.prop == "C02":
            twin = ref.ekf_predict(cb, *self.jitter(e.jx, u, e.jP), ld(w.Q[k]))[:2]
        self.finish(what, e, p, (sxx, sPP), (gx, gP), sx_in, P_in, rough, twin)
        if self.prop == "C12" and not self.viol:
            Ad = np.asarray(w.A[k], dtype=float) if not w.ekf else cb.p_jacA(sx_in, u)
            prop = Ad @ P_in @ Ad.T + np.asarray(w.Q[k], dtype=float)
            self.order(what + ": smaller than propagation dictates", prop, np.asarray(p[1], dtype=float), cmp.amax(prop))
        e.applied.append((k, "u", None if u is None else np.array(u, dtype=float)))

    def update(self, node, t, e, k, s, z):
        w = self.world
        sn = w.sensors[s]
        what = "track %d step %d: update by sensor %d" % (t, k, s)
        self.units(t, e, k + 1)
        sx_in, P_in = np.asarray(e.x, dtype=float).reshape(-1), np.asarray(e.P, dtype=float)
        lx, lP = ld(sx_in), ld(P_in)
        zz, R = (float(z[0]), float(sn["R"][k][0, 0])) if sn["scalar"] else (z, sn["R"][k])
        cz = ld(z)
        if not w.ekf:
            p = self.lib_call(node.f[0].update, dict(Hk=sn["H"][k], xk=e.x, Pk=e.P, zk=zz, Rk=R), what)
            gx, gP, _ = ref.update(ld(sn["H"][k]), e.rx, e.rP, cz, ld(sn["R"][k]))
            sxx, sPP, _ = ref.update(ld(sn["H"][k]), lx, lP, cz, ld(sn["R"][k]))
            rough = ref.rough_update(sn["H"][k], np.asarray(sn["H"][k], dtype=float) @ e.qx, e.qx, e.qP, z, sn["R"][k])
        else:
            cb, log = sn["cb"], []
            cb.hook = lambda name, x, uu: log.append((name, np.array(x, dtype=float, copy=True), uu))
            p = self.lib_call(node.f[s].update, dict(xk=e.x, Pk=e.P, zk=zz, Rk=R), what)
            cb.hook = None
            self.cb_args(what, log, {"h", "jacH"}, sx_in, None)
            gx, gP, _ = ref.ekf_update(cb, e.rx, e.rP, cz, ld(sn["R"][k]))
            sxx, sPP, _ = ref.ekf_update(cb, lx, lP, cz, ld(sn["R"][k]))
            rough = ref.rough_update(cb.p_jacH(e.qx), cb.p_h(e.qx), e.qx, e.qP, z, sn["R"][k])
        twin = None
        if w.mild and self.prop == "C02":
            jx, _, jP = self.jitter(e.jx, None, e.jP)
            twin = ref.ekf_update_rough(cb, jx, jP, cz, ld(sn["R"][k]))[:2]
        self.finish(what, e, p, (sxx, sPP), (gx, gP), np.concatenate([sx_in, np.asarray(z).reshape(-1)]), P_in, rough, twin)
        if self.prop == "C12" and not self.viol:
            self.order(what + ": a measurement increased uncertainty", np.asarray(p[1], dtype=float), P_in, cmp.amax(P_in))
        e.applied.append((k, s, z))

    def cb_args(self, what, log, names, x, u):
        if self.prop not in ("C02", "C13"):
            return
        got = {n for n, _, _ in log}
        if not names <= got:
            self.bad("model-function-not-used", "%s did not consult %s" % (what, sorted(names - got)))
        for n, xx, uu in log:
            if n in names:
                d = cmp.err(xx.reshape(-1), x, max(cmp.amax(x), 1e-300))
                if not d <= 1e-12:
                    self.bad("wrong-evaluation-point", "%s: %s evaluated %.3g away from the estimate" % (what, n, d))
            if n in ("f", "jacA"):
                if u is None:
                    if not ref.missing(uu):
                        self.bad("control-changed", "%s: %s got control %r although it is missing" % (what, n, uu))
                elif not same_control(uu, u, self.prop == "C13"):
                    self.bad("control-changed", "%s: %s got control %r instead of %r" % (what, n, uu, u))

    def jitter(self, x, u, P):
        if self.jit is None:
            self.jit = ref.jitterer(self.plan["world"]["seed"], 1.0, 1.0)
        n = len(x)
        dx, dP = self.jit(np.zeros(n), np.zeros((n, n)))
        return x + dx * self.maxx, u, P + dP * self.maxp

    def conditioning(self, e, glob, rough, sin):
        e.qx, e.qP = rough
        sx = max(cmp.amax(sin, glob[0]), self.world.sd)
        sp = max(cmp.amax(glob[1]), 1e-300)
        self.rough = max(self.rough, cmp.err(e.qx, cmp.f8(glob[0]), sx), cmp.err(e.qP, cmp.f8(glob[1]), sp))
        self.rough_limit()

    def rough_limit(self):
        if not self.rough < 1e-4:
            raise IllConditioned()

    def finish(self, what, e, p, step, glob, sin, P_in, rough, twin=None):
        self.conditioning(e, glob, rough, sin)
        q = cmp.pair(p)
        if q is None:
            self.bad("result-shape", "%s returned %r" % (what, type(p)))
            return
        x, P = q
        if np.shape(np.asarray(x).reshape(-1)) != (self.world.n,) or np.shape(P) != (self.world.n, self.world.n):
            self.bad("result-shape", "%s returned shapes %s, %s" % (what, np.shape(x), np.shape(P)))
            return
        sx = max(cmp.amax(sin, step[0]), self.world.sd)
        sp = max(cmp.amax(P_in, step[1]), 1e-300)
        if self.prop != "C12":
            self.check_pair(what + " (this step)", (x, P), step[0], step[1], sx, sp)
        self.maxx = max(self.maxx, sx)
        self.maxp = max(self.maxp, sp)
        if self.prop in ("C01", "C02"):
            tol = cmp.TOL
            if twin is not None:
                e.jx, e.jP = twin
                d = 300 * max(cmp.err(cmp.f8(twin[0]), cmp.f8(glob[0]), self.maxx), cmp.err(cmp.f8(twin[1]), cmp.f8(glob[1]), self.maxp))
                tol = max(tol, d) if d < 1e-4 else float("inf")
                if d >= 1e-4:
                    self.stats["skip:chaotic-model"] += 1
            self.check_pair(what + " (everything applied so far)", (x, P), glob[0], glob[1], self.maxx, self.maxp, tol)
        if self.prop == "C12":
            self.valid(what, P)
        if self.plan["world"].get("args") == "buffers":      # the caller's own copies
            x, P = np.array(x, copy=True), np.array(P, copy=True)
        e.x, e.P, e.rx, e.rP = x, P, glob[0], glob[1]
        self.dig.append(cmp.digest(np.asarray(x).reshape(-1), P))

    # ------------------------------------------------------------ covariance validity
    def valid(self, what, P):
        P = np.asarray(P, dtype=float)
        s = max(cmp.amax(P), self.maxp if "smooth" in what or "record" in what else cmp.amax(P), 1e-300)
        if not np.isfinite(P).all():
            self.bad("covariance-invalid", "%s: covariance is not finite" % what)
            return
        a = float(np.max(np.abs(P - P.T)))
        if a > 1e-7 * max(s, self.last_p):
            self.bad("covariance-invalid", "%s: covariance is not symmetric (%.3g)" % (what, a / s))
        ev = float(np.linalg.eigvalsh((P + P.T) / 2)[0])
        if ev < -1e-7 * max(s, self.last_p):
            self.bad("covariance-invalid", "%s: covariance has eigenvalue %.3g" % (what, ev))
        self.last_p = s

    def order(self, what, small, big, scale):
        """small <= big as covariances, within rounding."""
        if not (np.isfinite(small).all() and np.isfinite(big).all()):
            self.bad("covariance-invalid", what + ": not finite")
            return
        D = (small - big + (small - big).T) / 2
        ev = float(np.linalg.eigvalsh(D)[-1])
        if ev > 1e-7 * max(scale, 1e-300):
            self.bad("uncertainty-order", "%s by %.3g" % (what, ev / max(scale, 1e-300)))

    # ------------------------------------------------------------ discrete events
    def go(self):
        plan = self.plan
        try:
            self.events()
        except IllConditioned:
            self.stats["skip:ill-conditioned"] += 1
        sig = hashlib.blake2b(repr((self.trace, plan["world"]["cls"])).encode(), digest_size=8).hexdigest()
        dg = hashlib.blake2b("".join(self.dig).encode(), digest_size=8).hexdigest()
        return {"violations": self.viol, "stats": dict(self.stats), "sig": sig, "digest": dg,
                "nontrivial": any(k.startswith("fault:") for k in self.stats), "simtime": float(self.now),
                "measures": {"library_calls": self.calls, "measurements_applied": self.applied_total}}

    def events(self):
        plan = self.plan
        w = self.world = World(plan["world"])
        self.maxx, self.maxp, self.last_p = w.sd, 1e-300, 0.0
        self.now = 0.0
        node = self.node = Node(self, 0.0)
        self.disk = [self.snapshot()]
        q, seq = [], 0
        for (t, k, s, delays, fx) in plan["msgs"]:
            if not delays:
                self.stats["fault:message-lost"] += 1
            if len(delays) > 1:
                self.stats["fault:message-duplicated"] += 1
            for d in delays:
                heapq.heappush(q, (k + d, seq, "msg", (t, k, s, fx)))
                seq += 1
        for k in range(w.N):
            heapq.heappush(q, (k + plan["lag"], seq, "step", k))
            seq += 1
        for c in plan.get("crashes", []):
            if "at" in c:
                heapq.heappush(q, (c["at"], seq, "crash", c))
                seq += 1
        for st in plan.get("stalls", []):
            heapq.heappush(q, (st["at"], seq, "stall", st))
            seq += 1
        guard = 0
        with np.errstate(all="ignore"):
            while q and not self.viol:
                guard += 1
                if guard > 20000:
                    raise RuntimeError("world does not come to rest")
                self.now, _, kind, a = heapq.heappop(q)
                try:
                    if kind == "msg":
                        self.deliver(a)
                    elif kind == "step":
                        if not self.node.up:
                            self.stats["fault:step-while-down"] += 1
                        elif self.now < self.node.busy_until:
                            heapq.heappush(q, (self.node.busy_until, seq, "step", a))
                            seq += 1
                        else:
                            self.process(a)
                    elif kind == "stall":
                        self.node.busy_until = max(self.node.busy_until, self.now + a["for"])
                        self.stats["fault:node-stalled"] += 1
                    elif kind == "crash":
                        if self.node.up:
                            raise KilledAt(a)
                    elif kind == "restart":
                        self.restart(a)
                except Killed as ex:
                    c = ex.c if isinstance(ex, KilledAt) else self.crash_calls[self.calls]
                    for s in w.sensors:
                        s["cb"].hook = None
                    self.stats["fault:node-crash"] += 1
                    self.trace.append(("crash",))
                    self.node.up = False
                    lost = min(c.get("lost", 0), len(self.disk) - 1)
                    if lost:
                        self.disk = self.disk[:-lost]
                        self.stats["fault:checkpoint-lost"] += lost
                    heapq.heappush(q, (self.now + c["down"], seq, "restart", c))
                    seq += 1
            if not self.viol:
                self.calm = True         # no more faults: the node must now come to the end of the record
                if not self.node.up:
                    self.restart({})
                self.process(w.N - 1)
                self.at_end()

    def snapshot(self):
        return pickle.dumps([(e.x, e.P, e.rx, e.rP, e.jx, e.jP, e.qx, e.qP, e.applied, e.k) for e in self.node.est])

    def restart(self, c):
        self.node = Node(self, self.now)
        for e, saved in zip(self.node.est, pickle.loads(self.disk[-1])):
            e.x, e.P, e.rx, e.rP, e.jx, e.jP, e.qx, e.qP, e.applied, e.k = saved
        self.stats["op:restart"] += 1

    def deliver(self, a):
        t, k, s, fx = a
        node = self.node
        if not node.up:
            self.stats["fault:arrived-while-down"] += 1
            return
        mid = (t, k, s)
        if mid in node.seen:
            if self.plan["dedup"] or s == -1:
                return
            self.stats["reach:duplicate-applied"] += 1
        node.seen.add(mid)
        e = node.est[t]
        node.buffer.setdefault((t, k), []).append((s, fx))
        if e.k >= k:
            self.stats["fault:message-late"] += 1
            if self.plan["late"] == "rollback" and k in node.past[t]:
                self.rollback(t, k)
            elif self.plan["late"] == "now" and k == e.k and s >= 0:
                self.apply_meas(t, e, k, s, fx)      # late but still for the current step
                self.stats["reach:late-applied-now"] += 1

    def value(self, t, k, s, fx):
        z = np.array(self.world.z[t, k, s], copy=True)
        if isinstance(fx, str):           # what instruments send for "no value", taken at its word
            z[...] = float(fx)
            self.stats["fault:fill-value"] += 1
        elif fx:
            z = z + fx * self.world.sd
            self.stats["fault:outlier"] += 1
        return z

    def apply_meas(self, t, e, k, s, fx):
        self.trace.append(("z", t, k, s))
        self.applied_total += 1
        self.update(self.node, t, e, k, s, self.value(t, k, s, fx))

    def one_step(self, t, e, k):
        """Predict to step k and apply what has arrived for it, in arrival order."""
        node, w = self.node, self.world
        node.past[t][k] = e.clone()
        got = node.buffer.get((t, k), [])
        u = None
        if w.w["ctl"] and any(s == -1 for s, _ in got):
            u = w.u[t, k]
        elif w.w["ctl"]:
            self.stats["reach:step-without-control"] += 1
        self.trace.append(("u", t, k, u is None))
        self.predict(node, t, e, k, u)
        meas = [(s, fx) for s, fx in got if s >= 0]
        if not meas:
            self.stats["reach:step-without-measurement"] += 1
        if len(meas) > 1:
            self.stats["reach:several-measurements"] += 1
        for s, fx in meas:
            if self.viol:
                return
            self.apply_meas(t, e, k, s, fx)
        e.k = k

    def process(self, k):
        for kk in range(min(e.k for e in self.node.est) + 1, k + 1):
            for t, e in enumerate(self.node.est):
                if e.k < kk and not self.viol:
                    self.one_step(t, e, kk)
        self.disk.append(self.snapshot())

    def rollback(self, t, k):
        """Re-run from before step k with everything known by now."""
        self.stats["reach:rollback"] += 1
        node = self.node
        last = node.est[t].k
        e = node.est[t] = node.past[t][k].clone()
        e.k = k - 1
        for kk in range(k, last + 1):
            if self.viol:
                return
            self.one_step(t, e, kk)

    # ------------------------------------------------------------ end of run
    def at_end(self):
        w = self.world
        linear = not w.ekf or w.w.get("ekf") == "linear"
        if self.prop in ("C01", "C02") and linear and not w.w.get("units"):
            for t, e in enumerate(self.node.est):
                Bu = [None] * w.N
                meas = []
                for (k, s, z) in e.applied:
                    if s == "u":
                        if z is not None:
                            Bu[k] = (ld(w.B[k]) if not w.ekf else ld(w.sensors[0]["cb"].Bm)) @ ld(z)
                    else:
                        H = w.sensors[s]["H"][k] if not w.ekf else w.sensors[s]["cb"].Hm
                        meas.append((k, ld(H), ld(w.sensors[s]["R"][k]), ld(z)))
                if len(meas) > 30 or not w.N or w.N * w.n > 600:
                    continue
                A = [ld(w.A[k]) if not w.ekf else ld(w.sensors[0]["cb"].Am) for k in range(w.N)]
                mu, Ps = ref.dense_posterior(A, Bu, [ld(q) for q in w.Q], ld(w.x0[t]), ld(w.P0[t]), meas)
                d = max(cmp.err(np.asarray(e.x).reshape(-1), cmp.f8(mu[-1]), self.maxx), cmp.err(e.P, cmp.f8(Ps[-1]), self.maxp))
                apart = max(cmp.err(cmp.f8(e.rx), cmp.f8(mu[-1]), self.maxx), cmp.err(cmp.f8(e.rP), cmp.f8(Ps[-1]), self.maxp))
                if apart > ROUGH:        # the joint covariance of an unstable record cancels even in extended precision
                    self.stats["skip:dense-ill-conditioned"] += 1
                    continue
                self.stats["op:dense-conditioning"] += 1
                if not d <= cmp.TOL:
                    self.bad("not-the-conditional", "track %d: final estimate is %.3g away from the Gaussian conditional given "
                             "the %d applied measurements" % (t, d, len(meas)))
        if self.prop == "C12":
            self.record_check()
        if self.prop == "C13":
            self.batch_controls()

    def record(self):
        """Sensor 0's own log of track 0 (complete) with the controls that got through."""
        w = self.world
        got = {k for (t, k, s, delays, fx) in self.plan["msgs"] if t == 0 and s == -1 and delays}
        Z = np.stack([self.value(0, k, 0, 0) for k in range(w.N)])
        return Z, got

    def record_check(self):
        w = self.world
        f = self.node.f[0]
        sn = w.sensors[0]
        Z, got = self.record()
        for (t, k, s, d, fx) in self.plan["msgs"]:
            if t == 0 and s == 0 and fx:
                Z[k] = float(fx) if isinstance(fx, str) else Z[k] + fx * w.sd
        U = np.stack([np.asarray(w.u[0, k], dtype=float) if k in got else np.full(w.l, np.nan) for k in range(w.N)])
        if not w.w["ctl"]:
            U = None
        if sn["scalar"]:
            Z = Z[:, 0]
            f.R = sn["R"][:, 0, 0]
        self.record_conditioning(Z, [None] * w.N if U is None else [None if np.isnan(u).all() else u for u in U])
        xf, Pf = f.filter(Z, U)
        smooth_ok = w.w["qkind"] in ("full", "diag")
        self.maxp = max(cmp.amax(Pf), 1e-300)
        self.last_p = self.maxp
        for k in range(w.N):
            self.valid("filter record step %d" % k, Pf[k])
        if smooth_ok:
            xs, Ps = f.smooth(Z, U)
            self.stats["op:smoothed-records"] += 1
            for k in range(w.N):
                self.valid("smooth record step %d" % k, Ps[k])
                self.order("step %d: smoothing reports more uncertainty than filtering" % k, np.asarray(Ps[k]),
                           np.asarray(Pf[k]), self.maxp)

    def record_conditioning(self, Z, us, A=None, B=None):
        """What plain float64 formulas make of sensor 0's record, against the same in a symmetric form."""
        w, sn = self.world, self.world.sensors[0]
        cb = sn["cb"]
        x, P = cmp.f8(w.x0[0]).reshape(-1), cmp.f8(w.P0[0])
        y, S = x, P
        A, B = w.A if A is None else A, w.B if B is None else B
        for k in range(w.N):
            z, u, R = np.asarray(Z[k], dtype=float).reshape(-1), us[k], cmp.f8(sn["R"][k])
            steps = []
            for a, M in ((x, P), (y, S)):
                if w.ekf:
                    F, a2 = cb.p_jacA(a, u), cb.p_f(a, u)
                else:
                    F = cmp.f8(A[k])
                    a2 = F @ a if u is None or B[k] is None else F @ a + cmp.f8(B[k]) @ cmp.f8(u)
                a2, M2 = ref.rough_predict(F, a2, M, w.Q[k])
                H, h = (cb.p_jacH(a2), cb.p_h(a2)) if w.ekf else (cmp.f8(sn["H"][k]), cmp.f8(sn["H"][k]) @ a2)
                steps.append((a2, M2, H, h))
            (x, P, H, h), (y, S, G, g) = steps
            S = (S + S.T) / 2
            sp, sx = max(cmp.amax(S), 1e-300), max(cmp.amax(y, z), w.sd)
            x, P = ref.rough_update(H, h, x, P, z, R)
            try:
                K = np.linalg.solve(G @ S @ G.T + R, G @ S).T
            except np.linalg.LinAlgError:
                self.rough = float("inf")
                return self.rough_limit()
            J = np.identity(w.n) - K @ G
            y, S = y + K @ (z - np.asarray(g, dtype=float).reshape(-1)), J @ S @ J.T + K @ R @ K.T
            self.rough = max(self.rough, cmp.err(x, y, sx), cmp.err(P, S, max(cmp.amax(S), 1e-300)))
            self.rough_limit()

    def batch_controls(self):
        """The same losses in a whole record: filter and smoother, both filters, several numeric types."""
        w, pl = self.world, self.plan["world"]
        sn = w.sensors[0]
        Z, got = self.record()
        N, l = w.N, w.l
        zt = pl.get("zint")
        if zt:
            Z = np.round(Z / w.sd * 3)
            Z = Z.astype(INT[zt]) if zt[0] != "u" else np.abs(Z).astype(INT[zt])
        cZ = np.asarray(Z, dtype=float)
        if w.ekf:
            return self.batch_ekf(Z, got)
        U = np.stack([np.asarray(w.u[0, k], dtype=float) if k in got else np.full(l, np.nan) for k in range(N)])
        U0 = np.nan_to_num(U, nan=0.0)
        full = np.stack([w.u[0, k] for k in range(N)])
        Zl, R = (Z[:, 0], sn["R"][:, 0, 0]) if sn["scalar"] else (Z, sn["R"])
        mk = lambda B, A=w.A: self.node.kk.KalmanFilter(A=A, xk=w.x0[0], B=B, Pk=w.P0[0], H=sn["H"], Q=w.Q, R=R)
        at = pl.get("aint")
        A = w.A
        if at:       # an integer-typed transition matrix of a random walk
            A = np.stack([np.eye(w.n)] * N).astype(INT[at])
        c = models.Canon()
        c.N, c.A, c.H, c.Q, c.R = N, ld(A), ld(sn["H"]), ld(w.Q), ld(sn["R"])
        c.x0, c.P0, c.z = ld(w.x0[0]), ld(w.P0[0]), ld(cZ)
        cB = [ld(w.B[k]) for k in range(N)]
        NO = [None] * N
        cases = [("lost control messages", lambda: mk(w.B, A), U, cB, [ld(U[k]) if k in got else None for k in range(N)]),
                 ("no control matrix", lambda: mk(None, A), U, NO, NO),
                 ("no control sequence", lambda: mk(w.B, A), None, cB, NO),
                 ("no control at all", lambda: mk(None, A), None, NO, NO),
                 ("all controls (own type)", lambda: mk(w.B, A), full, cB, [ld(full[k]) for k in range(N)])]
        if pl.get("bnan"):
            Bn = np.array(w.B, dtype=float)
            gone = [k for k in range(N) if k not in got]
            Bn[gone] = np.nan
            cases.append(("lost control matrices", lambda: mk(Bn, A), full,
                          [cB[k] if k in got else None for k in range(N)], [ld(full[k]) for k in range(N)]))
        smooth_ok = pl["qkind"] in ("full", "diag") and pl["akind"] != "singular"
        for name, make, UU, rB, rU in cases:
            c.B, c.u = rB, rU
            self.record_conditioning(cZ, [None if b is None else u for b, u in zip(rB, rU)], A, w.B)
            r = ref.filter_pass(c)
            todo = [("filter", (r.x, r.P))]
            if smooth_ok:
                todo.append(("smooth", ref.rts(c, r)))
            sx = max(cmp.amax(r.x, r.xp, c.z), w.sd)
            sp = max(cmp.amax(r.Pp, r.P), 1e-300)
            for op, (xs, Ps) in todo:
                self.stats["op:batch-" + op] += 1
                try:
                    f = make()
                    p = getattr(f, op)(Zl, UU) if UU is not None else getattr(f, op)(Zl)
                except Exception as ex:
                    self.bad("call-failed", "%s with %s: %r" % (op, name, ex))
                    return
                d = max(cmp.err(p[0], np.array([cmp.f8(v) for v in xs]).reshape(N, w.n), sx),
                        cmp.err(p[1], np.array([cmp.f8(v) for v in Ps]).reshape(N, w.n, w.n), sp))
                if not d <= cmp.TOL:
                    self.bad("missing-control", "%s with %s is %.3g away from zero control at the missing steps" % (op, name, d))
                    return
        if got and len(got) < N:
            self.stats["fault:control-lost-in-record"] += 1
            a, b = mk(w.B, A).filter(Zl, U), mk(w.B, A).filter(Zl, U0)
            d = max(cmp.err(a[0], b[0], sx), cmp.err(a[1], b[1], sp))
            if not d <= 1e-11:
                self.bad("missing-control", "lost controls differ from zero controls by %.3g" % d)

    def batch_ekf(self, Z, got):
        w, pl = self.world, self.plan["world"]
        sn = w.sensors[0]
        cb, N = sn["cb"], w.N
        Zl, R = (Z[:, 0], sn["R"][:, 0, 0]) if sn["scalar"] else (Z, sn["R"])
        U = np.stack([np.asarray(w.u[0, k], dtype=float) if k in got else np.full(w.l, np.nan) for k in range(N)])
        full = np.stack([w.u[0, k] for k in range(N)])
        smooth_ok = pl["qkind"] in ("full", "diag") and pl["akind"] != "singular"
        cases = [("lost control messages", U), ("all controls (own type)", full), ("no control sequence", None)]
        objs = np.empty(N, dtype=object)         # what a control is, is the business of the user's functions
        objs[:] = [Command(full[k]) for k in range(N)]
        cases.append(("commands", objs))
        if w.l == 1:
            cases.append(("scalar controls", full[:, 0]))
        for name, UU in cases:
            given = {"commands": lambda u: u.value, "scalar controls": lambda u: np.reshape(u, 1)}.get(name, lambda u: u)
            us = [None] * N if UU is None else [given(UU[k]) for k in range(N)]
            self.record_conditioning(Z, [None if ref.missing(u) else u for u in us])
            for op in ("filter", "smooth") if smooth_ok else ("filter",):
                self.stats["op:batch-" + op] += 1
                log = []

                def user(fn, n):
                    def call(x, u):
                        log.append((n, u))
                        return fn(x, given(u))
                    return call
                f = self.node.kk.ExtendedKalmanFilter(xk=w.x0[0], Pk=w.P0[0], Q=w.Q, R=R, f=user(cb.f, "f"), h=cb.h,
                                                      jacobian_A=user(cb.jacobian_A, "jacA"), jacobian_H=cb.jacobian_H)
                try:
                    p = getattr(f, op)(Zl, UU) if UU is not None else getattr(f, op)(Zl)
                except Exception as ex:
                    self.bad("call-failed", "%s with %s: %r" % (op, name, ex))
                    return
                r = ref.ekf_filter(cb, ld(w.Q), ld(sn["R"]), ld(np.asarray(Z, dtype=float)), us, ld(w.x0[0]), ld(w.P0[0]))
                xs, Ps = (r.x, r.P) if op == "filter" else ref.ekf_rts(cb, ld(w.Q), us, r)
                sx = max(cmp.amax(r.x, r.xp, Z), w.sd)
                sp = max(cmp.amax(r.Pp, r.P), 1e-300)
                tol = cmp.TOL
                if w.mild:
                    tw = ref.ekf_filter(cb, ld(w.Q), ld(sn["R"]), ld(np.asarray(Z, dtype=float)), us, ld(w.x0[0]),
                                        ld(w.P0[0]), jitter=ref.jitterer(pl["seed"], sx, sp))
                    d = 10 * ref.spread(r, tw, sx, sp)
                    if d > 1e-3:
                        self.stats["skip:chaotic-model"] += 1
                        continue
                    tol = max(tol, d)
                d = max(cmp.err(p[0], np.array([cmp.f8(v) for v in xs]).reshape(N, w.n), sx),
                        cmp.err(p[1], np.array([cmp.f8(v) for v in Ps]).reshape(N, w.n, w.n), sp))
                if not d <= tol:
                    self.bad("control-changed", "%s with %s is %.3g away from the recursion with those controls" % (op, name, d))
                sent = set() if UU is None else {plain(v) for v in UU}
                for n, u in log:
                    if n not in ("f", "jacA"):
                        continue
                    if UU is None:
                        ok = ref.missing(u)
                    else:
                        ok = u is not None and plain(u) in sent
                    if not ok:
                        self.bad("control-changed", "%s with %s: %s received control %r, which is no step's control"
                                 % (op, name, n, u))
                        return


class Command:
    """A control that is no number."""

    def __init__(self, value):
        self.value = value


def plain(u):
    """Type, shape and value of a control; the object itself if it is no array."""
    if isinstance(u, Command):
        return id(u)
    v = np.asarray(u)
    return v.dtype.kind, v.dtype.itemsize, v.shape, (np.where(np.isnan(v), np.nan, v + 0) if v.dtype.kind == "f" else v).tobytes()


def same_control(a, b, kind):
    return a is b or a is not None and (plain(a) == plain(b) if kind else np.array_equal(a, b))


class KilledAt(Killed):
    def __init__(self, c):
        self.c = c


# ------------------------------------------------------------------------- generation
def gen(prop, r, tier):
    cls = {"C01": "KF", "C02": "EKF"}.get(prop) or r.choice(["KF", "EKF"])
    N = r.choice([1, 2, 3, 5, 8, 12] + ([20] if tier == "thorough" else []))
    n = r.choice([1, 2, 2, 3, 4])
    T = r.choice([1, 1, 2, 3])
    ns = r.choice([1, 1, 2, 3])
    w = dict(seed=r.getrandbits(48), cls=cls, n=n, l=r.choice([1, 1, 2, 3]), N=N, T=T,
             akind=r.choice([k for k in models.AKINDS if not (cls == "EKF" and k == "unstable")]),
             qkind=r.choice(["full", "full", "diag", "low", "zero"]), qexp=r.choice([-1, 0, -2, 1]),
             tv=r.random() < 0.8, scale=r.choice([0, 0, 0, -4, -9, 4, 6, 14]), ctl=r.random() < 0.75,
             missing=r.choice(["none", "nan", "Bnone", "mixed", "mixed"]),
             sensors=[dict(m=r.choice([1, 1, 2, 3]), rexp=r.choice([0, 0, -1, -2, 1]), scalar=r.random() < 0.5)
                      for _ in range(ns)])
    if cls == "EKF":
        w["ekf"] = r.choice(["linear", "mild", "mild"])
    if r.random() < 0.35:
        w["st"] = {a: r.choice(k) for a, k in models.STRUCT.items() if a != "Z" and r.random() < 0.5}
    if r.random() < 0.15:
        w["positional"] = True
    if prop in ("C01", "C02", "C12"):
        w["args"] = r.choice([None, None, None, "same", "buffers", "ro", "F", "strided", "ints"])
        if w["args"] == "ints":
            w["scale"], w["zround"] = 0, True
            w["st"] = {a: r.choice(k) for a, k in models.STRUCT.items() if a != "Z" and r.random() < 0.7}
        if r.random() < 0.07:
            w["units"], w["scale"] = r.choice(["i8", "i8", "i4", "i2", "i2" if prop == "C12" else "f4"]), 0
    long = r.random() < 0.006
    if r.random() < 0.05:
        w["n"], w["l"] = r.choice([5, 6, 8]), r.choice([1, 4, 6])
        w["sensors"][0]["m"] = r.choice([1, 4, 6, 9])
    elif long and w["akind"] != "unstable":
        w["N"] = N = r.choice([60, 130, 260, 520, 1100])
        w["T"] = T = 1
        w.pop("units", None)
        w.get("st", {}).pop("A", None)
        w["n"] = min(n, 2)
        ns = 1
        w["sensors"] = w["sensors"][:1]
    if prop == "C13":
        w["ctl"] = True
        w["scale"] = r.choice([0, 0, 0, -4, 3])
        w["partial"] = r.random() < 0.4
        if r.random() < 0.1:
            w["units"], w["scale"] = r.choice(["i8", "i4", "i2"]), 0
        if w["scale"] == 0:
            if r.random() < 0.5:
                w["uint"] = r.choice(["i8", "i4", "i2", "i1", "u1", "b1", "f4", "f2", "u2", "u4", "u8"])
            if r.random() < 0.4:
                w["bint"] = r.choice(["i8", "i4", "i2", "f4", "i1"])
            if r.random() < 0.5:
                w["zint"] = r.choice(["i8", "i4", "i2", "i1", "u1", "u2", "u8"])
            if r.random() < 0.4:
                w["aint"] = r.choice(["i8", "i4", "i2", "i1", "u1", "u4", "f4"])
            w["bnan"] = r.random() < 0.5
    # network regime of this run
    loss = r.choice([0, 0.1, 0.3, 0.6, 0.9])
    closs = r.choice([0, 0.1, 0.4, 0.8])
    dup = r.choice([0, 0, 0.2, 0.5])
    jitter = r.choice([0.1, 0.8, 2.0, 5.0])
    spike = r.choice([0, 0, 0.1])
    parts = []
    for _ in range(r.choice([0, 0, 1, 2])):
        a = r.uniform(0, N)
        parts.append((a, a + r.uniform(0.5, N / 2 + 1), r.randrange(-1, ns)))
    msgs = []
    for k in range(N):
        for t in range(T):
            for s in range(-1 if w["ctl"] else 0, ns):
                period = 1 if s <= 0 else 1 + (s % 2)
                if s > 0 and (k + t) % period:
                    continue
                lossy = closs if s == -1 else loss
                delays = []
                if r.random() >= lossy and not any(a <= k < b and q == s for a, b, q in parts):
                    delays.append(round(r.expovariate(1 / jitter) if jitter > 0.5 else r.uniform(0, jitter), 3))
                    while r.random() < dup and len(delays) < 4:
                        delays.append(round(delays[0] + r.expovariate(1 / jitter), 3))
                fx = 0
                if s >= 0 and r.random() < spike:
                    fx = r.choice([30, -200, 1e3]) if cls == "KF" else r.choice([10, -15])
                    if r.random() < 0.3 and (cls == "KF" or w["ekf"] == "linear"):
                        fx = r.choice(["-999", "-9999", "999", "9999", "-99", "-1", "0", "255", "-32768"])
                msgs.append([t, k, s, delays, fx])
    crashes = []
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        c = {"down": round(r.choice([0.01, r.uniform(0, 3)]), 3), "lost": r.choice([0, 0, 0, 1, 2])}
        if r.random() < 0.5:
            c["at"] = round(r.uniform(0, N + 1), 3)
        else:
            c["call"] = r.randint(1, max(2, 2 * N * T))
            c["line"] = r.randint(1, 14)
        crashes.append(c)
    stalls = [{"at": round(r.uniform(0, N), 3), "for": round(r.uniform(0.2, 4), 3)} for _ in range(r.choice([0, 0, 1]))]
    return {"world": w, "msgs": msgs, "lag": r.choice([0.2, 0.9, 2.5]), "dedup": not (r.random() < (0.5 if prop == "C12" else 0.15)),
            "late": r.choice(["drop", "rollback", "now"]), "crashes": crashes, "stalls": stalls}


def execute(prop, plan, mirror=None):
    return Run(prop, plan).go()


def shrink(prop, plan):
    w = plan["world"]
    for key in ("crashes", "stalls"):
        if plan.get(key):
            for c in chunks(plan[key]):
                yield {**plan, key: c}
    for key in ("st", "args", "zround", "units", "positional"):
        if w.get(key):
            yield {**plan, "world": {k: v for k, v in w.items() if k != key}}
    if w["N"] > 1:
        for N in (1, 2, w["N"] // 2, w["N"] - 1):
            if 0 < N < w["N"]:
                yield {**plan, "world": {**w, "N": N}, "msgs": [m for m in plan["msgs"] if m[1] < N]}
    if w["T"] > 1:
        yield {**plan, "world": {**w, "T": 1}, "msgs": [m for m in plan["msgs"] if m[0] < 1]}
        yield {**plan, "world": {**w, "T": w["T"] - 1}, "msgs": [m for m in plan["msgs"] if m[0] < w["T"] - 1]}
    if len(w["sensors"]) > 1:
        ns = len(w["sensors"]) - 1
        yield {**plan, "world": {**w, "sensors": w["sensors"][:ns]}, "msgs": [m for m in plan["msgs"] if m[2] < ns]}
    if plan["msgs"]:
        for c in chunks(plan["msgs"]):
            yield {**plan, "msgs": c}
        for i, m in enumerate(plan["msgs"]):
            if m[3] and m[3] != [0.0]:
                yield {**plan, "msgs": plan["msgs"][:i] + [m[:3] + [[0.0]] + m[4:]] + plan["msgs"][i + 1:]}
            if m[4]:
                yield {**plan, "msgs": plan["msgs"][:i] + [m[:4] + [0]] + plan["msgs"][i + 1:]}
    for key, val in (("scale", 0), ("akind", "ident"), ("qkind", "diag"), ("qexp", -1), ("tv", False), ("l", 1),
                     ("ctl", False), ("uint", None), ("bint", None), ("zint", None), ("aint", None), ("partial", False),
                     ("bnan", False), ("missing", "nan")):
        if w.get(key) not in (val, None):
            yield {**plan, "world": {**w, key: val}}
    if w["n"] > 1:
        yield {**plan, "world": {**w, "n": w["n"] - 1}}
    for i, s in enumerate(w["sensors"]):
        if s["m"] > 1:
            yield {**plan, "world": {**w, "sensors": w["sensors"][:i] + [{**s, "m": s["m"] - 1}] + w["sensors"][i + 1:]}}


def describe(prop, plan):
    w = plan["world"]
    lost = sum(1 for m in plan["msgs"] if not m[3])
    dup = sum(1 for m in plan["msgs"] if len(m[3]) > 1)
    return {"world": "%s n=%d steps=%d tracks=%d sensors=%s" % (w["cls"], w["n"], w["N"], w["T"],
                                                              [s["m"] for s in w["sensors"]]),
            "messages": len(plan["msgs"]), "lost": lost, "duplicated": dup, "late_policy": plan["late"],
            "crashes": plan["crashes"], "stalls": plan["stalls"], "dedup": plan["dedup"]}
