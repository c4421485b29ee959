"""callsim: caller threads with histories of calls on filter objects under a seeded scheduler.

Real code: the whole kalmankit package.  Simulated: thread scheduling, locks, clocks,
garbage-collection timing, failures, the callers and the users' model functions.

A plan (JSON) holds everything: model specs, per-caller operations with their injected
faults, and the schedule.  execute(plan) is a pure function of the plan and the code.
"""
import asyncio
import atexit
import copy
import decimal
import gc
import locale
import logging
import os
import pickle
import random
import signal
import sys
import threading
import time
import warnings
from collections import Counter

import numpy as np

from . import cmp, lib, models, prng, ref, sched
from .cmp import TIGHT, TOL
from .ref import ld

OUTCOME_KEYS = ("violations", "stats", "sig", "nontrivial", "digest", "steps")


class SensorError(Exception):
    pass


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "SensorError": SensorError,
    "SystemExit": SystemExit,
    "ValueError": ValueError,
    "TimeoutError": TimeoutError,
    "LinAlgError": np.linalg.LinAlgError,
    "FloatingPointError": FloatingPointError,
    "TypeError": TypeError,
    "IndexError": IndexError,
    "OSError": OSError,
    "ZeroDivisionError": ZeroDivisionError,
    "RuntimeError": RuntimeError,
    "KeyError": KeyError,
    "AttributeError": AttributeError,
    "AssertionError": AssertionError,
    "NotImplementedError": NotImplementedError,
    "CancelledError": asyncio.CancelledError,
    "RecursionError": RecursionError,
    "UserWarning": UserWarning,
}


# ------------------------------------------------------------------ effective models
class Eff:
    """Model in force for an instance: base model plus replaced parameters."""

    KF = ("A", "H", "Q", "R", "B", "xk", "Pk")
    EK = ("Q", "R", "xk", "Pk", "f", "h", "jacobian_A", "jacobian_H")

    def __init__(self, cls, spec, vars_=()):
        self.cls, self.spec = cls, spec
        self.m = models.build(spec, cls)
        self.n, self.mm, self.l, self.sd = self.m.n, self.m.m, self.m.l, self.m.sd
        self.attrs = dict(self.m.kwargs())
        if cls == "KF":
            c = self.m.canon
            self.c = dict(A=c.A, H=c.H, Q=c.Q, R=c.R, B=c.B, xk=c.x0, Pk=c.P0)
        else:
            self.c = dict(Q=self.m.cQ, R=self.m.cR, xk=self.m.cx, Pk=self.m.cP, cb=self.m.cb)
        self.cbs = [self.m.cb] if cls == "EKF" else []
        for v in vars_:
            self.override(v)

    def override(self, v):
        """v: {"names": [...], "seed": s} – parameters replaced by those of another model."""
        spec = {**self.spec, "seed": v["seed"]}
        if v.get("sing") is not None:
            return self._singular(v["sing"])
        o = models.build(spec, self.cls)
        new = {}
        for name in v["names"]:
            if self.cls == "KF":
                if name == "B" and self.attrs["B"] is None:
                    continue
                self.attrs[name] = new[name] = o.kwargs()[name]
                oc = o.canon
                self.c[name] = dict(A=oc.A, H=oc.H, Q=oc.Q, R=oc.R, B=oc.B, xk=oc.x0, Pk=oc.P0)[name]
            else:
                if name == "model":
                    for q in ("f", "h", "jacobian_A", "jacobian_H"):
                        self.attrs[q] = new[q] = o.kwargs()[q]
                    self.c["cb"] = o.cb
                    self.cbs.append(o.cb)
                else:
                    self.attrs[name] = new[name] = o.kwargs()[name]
                    self.c[name] = dict(Q=o.cQ, R=o.cR, xk=o.cx, Pk=o.cP)[name]
        return new

    def _singular(self, k):
        """Singular innovation covariance at step k (standard filter: H_k = 0, R_k = 0; extended filter: certain
        state without process noise up to k, R_k = 0)."""
        if self.cls == "EKF":
            Q, R = self.attrs["Q"].copy(), self.attrs["R"].copy()
            Q[:k + 1] = 0
            R[k] = 0
            new = {"Q": Q, "R": R, "Pk": self.attrs["Pk"] * 0}
            self.attrs.update(new)
            return new
        H, R = self.attrs["H"].copy(), self.attrs["R"].copy()
        H[k] = 0
        R[k] = 0
        self.attrs["H"], self.attrs["R"] = H, R
        return {"H": H, "R": R}

    # ---- reference
    def ref_filter(self, rec):
        if self.cls == "KF":
            c = models.Canon()
            c.N, c.A, c.H, c.Q, c.R, c.B = rec.N, self.c["A"], self.c["H"], self.c["Q"], self.c["R"], self.c["B"]
            c.x0, c.P0, c.z, c.u = self.c["xk"], self.c["Pk"], rec.cz, rec.cu
            return c, ref.filter_pass(c, rec.N)
        cb = self.c["cb"]
        return None, ref.ekf_filter(cb, self.c["Q"], self.c["R"], rec.cz, rec.cu, self.c["xk"], self.c["Pk"], 0, rec.N)

    def ref_smooth(self, rec):
        c, r = self.ref_filter(rec)
        if self.cls == "KF":
            return ref.rts(c, r), r
        return ref.ekf_rts(self.c["cb"], self.c["Q"], rec.cu, r), r


class Record:
    """A measurement record (and controls) for a model: seed 0 is the model's own record."""

    def __init__(self, eff, d, N):
        m, s = eff.m, eff.spec
        N = m.N if N is None else min(N, m.N)
        self.N = N
        Z = np.array(m.Z)[:N]
        U = None if m.U is None else np.array(m.U)[:N]
        if d:
            g = prng.gen(s["seed"], "rec", d)
            dz = g.normal(size=np.array(m.Z).shape)[:N] * m.sd
            if Z.dtype.kind in "iu":
                dz = np.round(dz * 2)
            Z = (Z + dz).astype(Z.dtype)
            if U is not None:
                du = g.normal(size=np.array(m.U).shape)[:N] * m.sd
                if U.dtype.kind in "iu":
                    du = np.round(du * 2)
                U = (U + du).astype(U.dtype)
        self.Z = models._lay(Z, "Z", s)
        self.U = models._lay(U, "U", s)
        zz = np.asarray(self.Z, dtype=np.float64).reshape(N, eff.mm)
        self.cz = ld(zz)
        if self.U is None:
            self.cu = [None] * N
        elif eff.cls == "KF":
            self.cu = [None if ref.missing(U[k]) else ld(U[k]) for k in range(N)]
        else:
            self.cu = [U[k] for k in range(N)]


class StepArgs:
    """Arguments of a single predict/update call."""

    def __init__(self, eff, op):
        g = prng.gen(eff.spec["seed"], "step", op["d"])
        n, m, sd = eff.n, eff.mm, eff.sd
        k = op.get("k", 0) % max(1, eff.m.N)
        self.k = k
        x = g.normal(size=n) * sd
        P = models._psd(g, n, "full", sd * sd)
        z = g.normal(size=m) * sd * 2
        u = g.normal(size=eff.l) * sd
        if eff.spec.get("st"):
            mine = {**eff.spec, "seed": prng.derive(eff.spec["seed"], "step", op["d"])}
            x, P = models._st(x, "x", mine, sd), models._st(P, "P", mine, sd * sd)
            u = models._st(u[None], "U", mine, sd)[0]
        self.cx, self.cP, self.cz = ld(x), ld(P), ld(z)
        noctl = op.get("noctl")
        scal = eff.spec["form"] in ("m1", "scalar")
        self.other = op.get("sensor") if eff.cls == "KF" and op["op"] == "update" and not op.get("sing") else None
        if self.other is not None:      # another sensor than the one the filter was built with
            gs = prng.gen(eff.spec["seed"], "sensor", self.other)
            m, scal = self.other, False
            Ho, Ro = gs.normal(size=(m, n)), models._psd(gs, m, "full", sd * sd)
            z = gs.normal(size=m) * sd * 2
            self.cz, self.oH, self.oR = ld(z), ld(Ho), ld(Ro)
        if eff.spec["form"] == "scalar" and eff.spec["xform"] == "col":
            x, P = x.reshape(1, 1), P.reshape(1, 1)
        a = eff.attrs
        self.neutral = bool(op.get("neutral")) and eff.cls == "KF"
        if op["op"] == "predict":
            if eff.cls == "KF":
                B = None if a["B"] is None else a["B"][k]
                self.cB = None if (B is None or noctl) else ld(np.asarray(B))
                self.cu = None if (B is None or noctl) else ld(u)
                if noctl == "nan":
                    u = np.full(eff.l, np.nan)
                elif noctl == "none":
                    u = None
                if B is None:
                    B = np.full((n, eff.l), np.nan)
                A, Q = a["A"][k], a["Q"][k]
                if self.neutral:        # a prediction over no time
                    A, Q = np.eye(n).reshape(np.shape(A)), np.zeros(np.shape(Q))
                self.kw = dict(Ak=A, xk=x, Bk=B, uk=u, Pk=P, Qk=Q)
            else:
                self.cu = None if noctl else u
                if noctl:
                    u = np.full(eff.l, np.nan) if noctl == "nan" else None
                self.kw = dict(xk=x, uk=u, Pk=P, Qk=a["Q"][k])
        else:
            if op.get("lost") is not None:
                z = z * np.nan
                self.cz = ld(z)
            z_ = float(z[0]) if scal else z
            if self.other is not None and x.ndim == 2:      # everything is written as columns
                z_ = z.reshape(-1, 1)
            if eff.cls == "KF":
                H, R = (a["H"][k], a["R"][k]) if self.other is None else (Ho, Ro)
                if op.get("sing"):
                    H, R = np.zeros_like(np.asarray(H, dtype=float)), np.zeros_like(np.asarray(R, dtype=float))
                elif self.neutral:      # a measurement that says nothing
                    H = np.zeros(np.shape(H))
                self.kw = dict(Hk=H, xk=x, Pk=P, zk=z_, Rk=R)
            else:
                R = a["R"][k]
                if op.get("sing"):
                    P, R = P * 0, np.zeros_like(np.asarray(R, dtype=float))
                self.kw = dict(xk=x, Pk=P, zk=z_, Rk=R)
        self.eff = eff

    def reference(self, opname):
        e, k = self.eff, self.k
        if opname == "predict":
            if e.cls == "KF":
                A, Q = (ld(np.eye(e.n)), ld(np.zeros((e.n, e.n)))) if self.neutral else (e.c["A"][k], e.c["Q"][k])
                return ref.predict(A, self.cx, self.cB, self.cu, self.cP, Q) + (None,)
            x, P, _ = ref.ekf_predict(e.c["cb"], self.cx, self.cu, self.cP, e.c["Q"][k])
            return x, P, None
        if e.cls == "KF":
            H, R = (e.c["H"][k], e.c["R"][k]) if self.other is None else (self.oH, self.oR)
            return ref.update(H * 0 if self.neutral else H, self.cx, self.cP, self.cz, R)
        return ref.ekf_update(e.c["cb"], self.cx, self.cP, self.cz, e.c["R"][k])

    def arrays(self):
        return [v for v in self.kw.values() if isinstance(v, np.ndarray)]


CALLS = ("filter", "smooth", "predict", "update")


# ------------------------------------------------------------------ expected results
class Expect:
    """What one call must give: reference values, solo result, its gains and length."""
    __slots__ = ("x", "P", "gains", "sx", "sp", "sk", "solo", "solo_exc", "solo_gains", "events", "cbcalls",
                 "may_fail", "tol")


def make_instance(kk, eff):
    return models.filter_class(kk, eff.cls, eff.spec)(**eff.attrs)


def do_call(inst, op, data):
    name = op["op"]
    if name in ("filter", "smooth"):
        fn = getattr(inst, name)
        if data.U is None and op.get("omitU"):
            return fn(data.Z)
        return fn(Z=data.Z, U=data.U)
    if op.get("positional"):
        return getattr(inst, name)(*data.kw.values())
    return getattr(inst, name)(**data.kw)


def op_data(eff, op):
    if op["op"] in ("filter", "smooth"):
        rec = Record(eff, op.get("d", 0), op.get("N"))
        if op.get("bad") is not None:      # mis-shaped measurement at a step
            Z = [np.asarray(z) for z in rec.Z]
            if Z:
                k = op["bad"] % len(Z)
                Z[k] = np.zeros(eff.mm + 2)
            rec.Z = Z
            if rec.U is None:
                rec.U = np.full((rec.N, eff.l), np.nan)
        elif op.get("lost") is not None and rec.N:      # a reading that is not a number
            k = op["lost"] % rec.N
            rec.Z, rec.cz = np.array(rec.Z, dtype=float), np.array(rec.cz, copy=True)
            rec.Z[k] = rec.cz[k] = np.nan
        return rec
    return StepArgs(eff, op)


def expect(kk, cls, spec, vars_, op, gran, want_ref=True, count=True):
    """Solo run on pristine objects and reference values."""
    eff = Eff(cls, spec, vars_)
    data = op_data(eff, op)
    e = Expect()
    e.may_fail = bool(op.get("bad") is not None or op.get("sing") or any(v.get("sing") is not None for v in vars_))
    e.x = e.P = None
    e.gains = []
    e.sx = e.sp = e.sk = 1.0
    e.tol = TOL
    if want_ref and not e.may_fail:
        if op["op"] in ("filter", "smooth"):
            if op["op"] == "filter":
                _, r = eff.ref_filter(data)
                xs, Ps = r.x, r.P
            else:
                (xs, Ps), r = eff.ref_smooth(data)
            e.x = np.array([cmp.f8(v) for v in xs]).reshape(data.N, eff.n)
            e.P = np.array([cmp.f8(v) for v in Ps]).reshape(data.N, eff.n, eff.n)
            e.gains = [cmp.f8(v) for v in r.K]
            e.sx = max(cmp.amax(r.x, r.xp, xs, data.cz), eff.sd)
            e.sp = max(cmp.amax(r.Pp, r.P), 1e-300)
        else:
            x, P, K = data.reference(op["op"])
            shp = np.shape(data.kw["xk"])
            e.x, e.P = cmp.f8(x).reshape(shp), cmp.f8(P)
            e.gains = [] if K is None else [cmp.f8(K)]
            e.sx = max(cmp.amax(x, data.cx, data.cz), eff.sd)
            e.sp = max(cmp.amax(P, data.cP), 1e-300)
        e.sk = max(cmp.amax(*e.gains), 1e-300) if e.gains else 1.0
    inst = make_instance(kk, eff)
    cbn = [0]

    def hook(name, x, u):
        cbn[0] += 1
    for cb in eff.cbs:
        cb.hook = hook
    e.solo = None
    e.solo_exc = None

    def run():
        try:
            return do_call(inst, op, data), None
        except Exception as ex:
            return None, ex
    if count:
        e.events, (res, ex) = sched.count_events(run, gran)
    else:
        e.events, (res, ex) = 0, run()
    e.solo_exc = ex
    if ex is None:
        e.solo = cmp.freeze(res)
    e.cbcalls = cbn[0]
    e.solo_gains = [cmp.freeze(k) for k in inst.kalman_gains]
    if e.solo is not None and e.x is not None and cls == "EKF":
        d = max(cmp.err(e.solo[0], e.x, e.sx), cmp.err(e.solo[1], e.P, e.sp))
        if 0.1 * TOL < d < 1e-3:
            e.tol = max(TOL, allowance(eff, op, data, e))
    return e


def allowance(eff, op, data, e):
    """How far a correct float64 recursion may be from the reference here (inf: rounding alone decides)."""
    cb, worst = eff.c["cb"], 0.0
    for seed in (1, 2, 3):
        jit = ref.jitterer(seed, e.sx, e.sp)
        if op["op"] in ("filter", "smooth"):
            t = ref.ekf_filter(cb, eff.c["Q"], eff.c["R"], data.cz, data.cu, eff.c["xk"], eff.c["Pk"], 0, data.N, jitter=jit)
            xs, Ps = (t.x, t.P) if op["op"] == "filter" else ref.ekf_rts(cb, eff.c["Q"], data.cu, t)
        elif op["op"] == "update":
            x, P, _ = ref.ekf_update_rough(cb, *jit(data.cx, data.cP), data.cz, eff.c["R"][data.k])
            xs, Ps = [x], [P]
        else:
            return TOL
        x, P = np.array([cmp.f8(v) for v in xs]), np.array([cmp.f8(v) for v in Ps])
        if not (np.isfinite(x).all() and np.isfinite(P).all()):
            return float("inf")
        worst = max(worst, cmp.err(x.reshape(e.x.shape), e.x, e.sx), cmp.err(P.reshape(e.P.shape), e.P, e.sp))
    return 300 * worst if worst < 1e-6 else float("inf")


# ------------------------------------------------------------------ process-wide state
WATCHED = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE, signal.SIGUSR1, signal.SIGHUP, signal.SIGPIPE]


def process_state():
    return {
        "printoptions": repr(sorted((k, v) for k, v in np.get_printoptions().items() if k != "formatter")),
        "np.random": cmp.hashlib.blake2b(repr(np.random.get_state()).encode()
                                         + np.random.get_state()[1].tobytes(), digest_size=8).hexdigest(),
        "random": hash(random.getstate()),
        "environ": dict(os.environ),
        "warnings": list(warnings.filters),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "recursionlimit": sys.getrecursionlimit(),
        "switchinterval": sys.getswitchinterval(),
        "cwd": os.getcwd(),
        "sys.path": list(sys.path),
        "hooks": (sys.excepthook, sys.displayhook, threading.excepthook, warnings.showwarning),
        "logging": (logging.root.level, list(logging.root.handlers), logging.root.manager.disable, logging.lastResort),
        "signals": [signal.getsignal(s) for s in WATCHED] + [signal.getitimer(signal.ITIMER_REAL)[0] > 0],
        "locale": locale.setlocale(locale.LC_ALL),
        "streams": [id(f) for f in (sys.stdin, sys.stdout, sys.stderr)],
        "numpy error callback": np.geterrcall(),
        "numpy buffer size": np.getbufsize(),
        "decimal": repr(decimal.getcontext()),
        "exit handlers": atexit._ncallbacks(),
    }


def light_state():
    """The part of it that is cheap enough to look at on every hand-over (and not kept per thread)."""
    return {"environ": dict(os.environ), "warnings": list(warnings.filters), "random": hash(random.getstate()),
            "recursionlimit": sys.getrecursionlimit(), "gc": gc.isenabled(), "cwd": os.getcwd()}


def diff_state(a, b):
    return [k for k in a if a[k] != b[k]]


# ------------------------------------------------------------------ the run
class Run:
    def __init__(self, plan, oracles):
        self.plan = plan
        self.oracles = set(oracles)
        self.viol = []
        self.stats = Counter()
        self.digest_parts = []

    def bad(self, kind, detail):
        if len(self.viol) < 5:
            self.viol.append({"kind": kind, "detail": str(detail)[:600]})

    # -- input monitoring --------------------------------------------------
    def track(self, a, what):
        if isinstance(a, np.ndarray) and id(a) not in self.tracked:
            self.tracked[id(a)] = (a, a.tobytes(), what)

    def untrack(self, a):
        if isinstance(a, np.ndarray):
            self.tracked.pop(id(a), None)

    def check_inputs(self, when):
        for a, b, what in list(self.tracked.values()):
            if a.tobytes() != b:
                self.bad("input-modified", "%s changed (%s)" % (what, when))
                self.tracked[id(a)] = (a, a.tobytes(), what)

    def monitor(self):
        if "inputs" in self.oracles:
            self.check_inputs("seen by another caller")
        if "settings" in self.oracles:
            now = light_state()
            if now != self.lstate:
                d = [k for k in now if now[k] != self.lstate[k]]
                self.bad("setting-changed", "process-wide %s changed during a call, as seen by another caller" % d)
                self.lstate = now
        if "gains" in self.oracles:
            for i, inst in self.shared.items():
                g = inst.kalman_gains
                n = len(g)
                if n < self.glen.get(i, 0):
                    self.bad("gain-log-shrank", "instance %d: %d entries, had %d" % (i, n, self.glen[i]))
                self.glen[i] = n

    # -- verifying one call ------------------------------------------------
    def verify(self, where, op, e, res):
        p = cmp.pair(res)
        if p is None:
            self.bad("result-shape", "%s returned %r" % (where, type(res)))
            return
        x, P = p
        fx, fP = cmp.f8(x), cmp.f8(P)
        self.digest_parts.append(cmp.digest(fx, fP))
        self.values[where] = (fx, fP, e.sx, e.sp)
        if "solo" in self.oracles and e.solo is not None:
            d = max(cmp.err(fx, e.solo[0], e.sx), cmp.err(fP, e.solo[1], e.sp))
            if not d <= TIGHT:
                self.bad("differs-from-solo", "%s: result differs from the same call made alone by %.3g (relative)"
                         % (where, d))
        if "ref" in self.oracles and e.x is not None:
            dx, dP = cmp.err(fx, e.x, e.sx), cmp.err(fP, e.P, e.sp)
            if not max(dx, dP) <= e.tol:
                self.bad("differs-from-reference", "%s: mean off by %.3g, covariance off by %.3g (relative)"
                         % (where, dx, dP))

    def own(self, where, op, res, data, inst):
        """Results belong to the caller."""
        p = cmp.pair(res)
        if p is None:
            return
        arrs = [a for a in p if isinstance(a, np.ndarray)]
        ins = data.arrays() if isinstance(data, StepArgs) else [a for a in (data.Z, data.U) if isinstance(a, np.ndarray)]
        others = [("an input", a) for a in ins]
        for name in ("A", "B", "H", "Q", "R", "xk", "Pk"):
            v = getattr(inst, name, None)
            if isinstance(v, np.ndarray):
                others.append(("filter parameter " + name, v))
        for v in inst.kalman_gains[-8:]:
            if isinstance(v, np.ndarray):
                others.append(("a logged gain", v))
        for v in self.results[-12:]:
            others.append(("an earlier result", v))
        for i, a in enumerate(arrs):
            if not a.flags.writeable:
                self.bad("result-not-owned", "%s: returned array %d is read-only" % (where, i))
            for what, b in others:
                if np.may_share_memory(a, b) and np.shares_memory(a, b):
                    self.bad("result-aliases", "%s: returned array %d shares memory with %s" % (where, i, what))
            for j in range(i):
                if np.may_share_memory(a, arrs[j]) and np.shares_memory(a, arrs[j]):
                    self.bad("result-aliases", "%s: returned arrays share memory" % where)
        self.results.extend(arrs)

    def noted(self, where, data, ins, res, exc):
        pass

    def finish(self, s):
        pass

    # -- thread body -------------------------------------------------------
    def caller(self, tid, ops):
        def body(task):
            for j, op in enumerate(ops):
                self.one(task, tid, j, op)
            task.arm([])
        return body

    def hook_for(self, task_of):
        """Model-function hook: a scheduling point, and where function faults fire."""
        def hook(name, x, u):
            s = sched.ACTIVE
            if s is None or s.current is None:
                return
            task = s.current
            if task.ident != sched._thread.get_ident():
                return
            st = self.cbstate.get(task.tid)
            if st is not None:
                st["n"] += 1
                for fl in st["faults"]:
                    if fl.get("nth") == st["n"] and not fl.get("done"):
                        fl["done"] = True
                        self.cbfault(s, task, fl)
            s.point(task, None)
        return hook

    def cbfault(self, s, task, fl):
        k = fl["kind"]
        self.stats["fault:cb_" + k] += 1
        if k == "raise":
            e = EXC[fl["exc"]]("injected in model function")
            task.raised = e
            raise e
        if k == "stall":
            s.stall(task, None)
        if k == "reenter":
            self.nested(task, fl["op"])

    def nested(self, task, op):
        """Re-entrant call on the object (signal handler / model function)."""
        key = self.opkey[id(op)]
        e = self.exp[key]
        inst = self.inst[op["i"]]
        data = op_data(self.effs[key[0]], op)
        old = self.cbstate.get(task.tid)
        self.cbstate[task.tid] = None
        tr, task.traced = task.traced, False
        task_next, task.next_trigger = task.next_trigger, sched.INF
        try:
            try:
                res = do_call(inst, op, data)
            except sched.SimAbort:
                raise
            except BaseException as ex:
                if type(ex) is not type(e.solo_exc):
                    self.bad("call-failed", "re-entrant %s failed: %r" % (op["op"], ex))
                self.extra_gains.setdefault(op["i"], []).append(("exact-solo", e.solo_gains))
                return
            if e.solo_exc is not None:
                self.bad("error-missing", "re-entrant %s returned normally; alone it fails with %r"
                         % (op["op"], e.solo_exc))
                return
            self.verify("re-entrant %s on %d" % (op["op"], op["i"]), op, e, res)
            self.noted("re-entrant %s" % op["op"], data, [], res, None)
            self.extra_gains.setdefault(op["i"], []).append(("all", self.gains_of(e)))
            self.stats["op:reentrant"] += 1
        finally:
            self.cbstate[task.tid] = old
            task.next_trigger = task_next
            task.traced = tr

    def triggers(self, op, e):
        out = []
        for fl in op.get("faults", []):
            if "nth" in fl:
                continue
            at = 1 + int(fl["frac"] * max(1, e.events - 1))
            k = fl["kind"]
            if k == "raise":
                out.append((at, sched.act_raise(self.mk_exc(fl["exc"]))))
            elif k == "gc":
                out.append((at, self.act_count("gc", sched.act_gc)))
            elif k == "stall":
                out.append((at, self.act_count("stall", sched.act_stall)))
            elif k == "clock":
                def jump(s, task, frame, d=fl["d"]):
                    sched.CLOCK.offset += d
                out.append((at, self.act_count("clock-jump", jump)))
            elif k == "reenter":
                def re(s, task, frame, o=fl["op"]):
                    self.nested(task, o)
                out.append((at, self.act_count("reenter", re)))
        return out

    def act_count(self, name, act):
        def a(s, task, frame):
            self.stats["fault:" + name] += 1
            act(s, task, frame)
        return a

    def mk_exc(self, name):
        def mk():
            self.stats["fault:raise_" + name] += 1
            return EXC[name]("injected")
        return mk

    def one(self, task, tid, j, op):
        name = op["op"]
        self.stats["op:" + name] += 1
        where = "caller %d op %d (%s)" % (tid, j, name)
        if name in CALLS:
            return self.call(task, tid, j, op, where)
        i = op.get("i")
        if name == "gains":
            snap = [np.array(k, copy=True) for k in self.inst[i].kalman_gains]
            self.gsnaps.append((i, snap))
            return
        if name == "new":
            self.retire(i)
            self.inst[i] = make_instance(self.kk, self.effs[self.opkey[id(op)][0]])
            self.fresh_log(i)
        elif name in ("copy", "pickle"):
            try:
                src = self.inst[op["from"]]
                if i != op["from"]:
                    self.retire(i)
                self.inst[i] = copy.deepcopy(src) if name == "copy" else pickle.loads(pickle.dumps(src))
            except Exception as ex:
                self.bad("copy-failed", "%s: %r" % (where, ex))
                raise sched.SimAbort()
            if type(self.inst[i]) is not type(src):
                self.bad("copy-failed", "%s: a %s became a %s" % (where, type(src).__name__, type(self.inst[i]).__name__))
            self.rehook(self.inst[i])
            self.fresh_log(i, copied=True)
        elif name == "retune":
            eff = self.effs[self.opkey[id(op)][0]]
            for q in op["set"]:
                v, old = eff.attrs[q], getattr(self.inst[i], q)
                if isinstance(v, np.ndarray):
                    if op.get("inplace") and (i, q) in self.private and self.private[(i, q)] is old \
                            and old.shape == v.shape and old.dtype == v.dtype:
                        self.untrack(old)
                        old[...] = v
                        self.track(old, "parameter " + q)
                        self.stats["hist:inplace-retune"] += 1
                        continue
                    v = np.array(v, copy=True)
                    self.private[(i, q)] = v
                setattr(self.inst[i], q, v)
                self.track(v, "parameter " + q)
        elif name == "noise":       # unrelated work
            [np.random.default_rng(1).normal(size=(5, 5)) for _ in range(op["k"])]
        self.stats["hist:" + name] += 1

    def rehook(self, inst):
        for q in ("f", "h", "jacobian_A", "jacobian_H"):
            cb = models.callback_of(getattr(inst, q, None))
            if cb is not None:
                cb.hook = self.hook
        return inst

    def fresh_log(self, i, copied=False):
        self.gbase[i] = len(self.inst[i].kalman_gains)
        self.gsnaps = [g for g in self.gsnaps if g[0] != i]
        self.extra_gains.pop(i, None)
        self.gain_seq[i] = {}
        self.glen.pop(i, None)
        self.nolog.discard(i)

    def call(self, task, tid, j, op, where):
        key = self.opkey[id(op)]
        e = self.exp[key]
        i = op["i"]
        inst = self.inst[i]
        eff = self.effs[key[0]]
        data = self.data_for(key, eff, op)
        ins = data.arrays() if isinstance(data, StepArgs) else [a for a in (data.Z, data.U) if isinstance(a, np.ndarray)]
        if op.get("buf") is not None and not isinstance(data, StepArgs) and isinstance(data.Z, np.ndarray):
            data.Z = self.buffer(("Z", op["buf"]), data.Z)
            if isinstance(data.U, np.ndarray):
                data.U = self.buffer(("U", op["buf"]), data.U)
            ins = [a for a in (data.Z, data.U) if isinstance(a, np.ndarray)]
        for q, a in enumerate(ins):
            self.track(a, "argument %d of %s" % (q, where))
        pub = {q: getattr(inst, q, None) for q in ("A", "B", "H", "Q", "R", "xk", "Pk", "f", "h", "jacobian_A",
                                                   "jacobian_H", "state_size")}
        cb = [dict(f) for f in op.get("faults", []) if "nth" in f]
        self.cbstate[tid] = {"n": 0, "faults": cb}
        task.raised = None
        task.arm(self.triggers(op, e))
        ge, gc_, gb = np.geterr(), np.geterrcall(), np.getbufsize()
        exc = res = None
        task.traced = True
        try:
            res = do_call(inst, op, data)
        except sched.SimAbort:
            raise
        except BaseException as ex:
            exc = ex
        finally:
            task.traced = False
        task.arm([])
        self.cbstate[tid] = None
        if "settings" in self.oracles and (np.geterr() != ge or np.geterrcall() is not gc_ or np.getbufsize() != gb):
            self.bad("setting-changed", "%s changed floating-point error handling" % where)
            np.seterr(**ge)
            np.seterrcall(gc_)
            np.setbufsize(gb)
        if "settings" in self.oracles and sched.ACTIVE is not None and len(sched.ACTIVE.tasks) == 1:
            d = diff_state(self.pstate, process_state())
            if d:
                self.bad("setting-changed", "%s changed process-wide %s" % (where, d))
                self.pstate = process_state()
        raised = task.raised
        full = False
        if raised is not None:
            self.stats["op:failed-by-injection"] += 1
            if "error" in self.oracles:
                if exc is None:
                    self.bad("error-swallowed", "%s returned normally although %r was raised inside it" % (where, raised))
                elif exc is not raised:
                    self.bad("error-replaced", "%s raised %r instead of the error %r that occurred" % (where, exc, raised))
        elif e.solo_exc is not None:
            self.stats["op:failed-naturally"] += 1
            if exc is None:
                self.bad("error-missing", "%s returned normally; alone it fails with %r" % (where, e.solo_exc))
            elif type(exc) is not type(e.solo_exc):
                self.bad("error-replaced", "%s raised %r; alone it fails with %r" % (where, exc, e.solo_exc))
        elif exc is not None:
            self.bad("call-failed", "%s failed with %r" % (where, exc))
        else:
            full = True
            self.verify(where, op, e, res)
            if "own" in self.oracles:
                self.own(where, op, res, data, inst)
        if e.may_fail and "error" in self.oracles and raised is None:
            sk = key[4]
            if op["op"] in ("filter", "smooth"):
                sing = sk is not None and sk < data.N and op.get("bad") is None
            else:
                sing = bool(op.get("sing")) or (op["op"] == "update" and sk is not None and sk == data.k
                                                and data.eff.cls == "KF" and data.other is None)
            if sing and not isinstance(exc, np.linalg.LinAlgError):
                self.bad("error-missing", "%s: singular innovation covariance gave %r instead of a linear-algebra error"
                         % (where, exc))
            column = eff.spec["form"] == "scalar" and eff.spec.get("xform") == "col"    # fits until it is stored
            if op.get("bad") is not None and exc is None and not column:
                self.bad("error-missing", "%s: mis-shaped measurement was accepted" % where)
        if "public" in self.oracles:
            for q, v in pub.items():
                w = getattr(inst, q, None)
                if w is not v:
                    same = isinstance(w, np.ndarray) and isinstance(v, np.ndarray) and w.dtype == v.dtype \
                        and w.shape == v.shape and w.tobytes() == v.tobytes()
                    same = same or (not isinstance(w, np.ndarray) and not isinstance(v, np.ndarray) and w == v)
                    if not same:
                        self.bad("parameter-changed", "%s changed public parameter %s" % (where, q))
        self.noted(where, data, ins, res, exc)
        # gain bookkeeping
        seq = self.gain_seq.setdefault(i, {}).setdefault(tid, [])
        if full:
            seq.append(("all", self.gains_of(e)))
        elif raised is not None:
            seq.append(("prefix", self.gains_of(e)))
        else:
            seq.append(("exact-solo", e.solo_gains))
        if "inputs" in self.oracles:
            self.check_inputs("after " + where)
        if res is not None and full:
            if op.get("scribble"):
                for a in cmp.pair(res) or ():
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a.fill(1e30 + j)
                self.stats["hist:scribble"] += 1
            elif "own" in self.oracles:
                self.kept.append((where, res, cmp.freeze(res)))
        for a in ins:
            if op.get("buf") is not None and not isinstance(data, StepArgs):
                self.untrack(a)
        if op.get("droprefs"):
            for a in ins:
                self.untrack(a)

    def data_for(self, key, eff, op):
        """Arguments of a call: new objects, or ("same") the very objects an earlier call was given."""
        if not op.get("same") or op.get("buf") is not None:
            return op_data(eff, op)
        dk = (key[0], json_key({k: op[k] for k in ("d", "N", "bad", "k", "noctl", "sing", "neutral", "sensor", "lost") if k in op}),
              op["op"] if op["op"] in ("predict", "update") else "record")
        d = self.datas.get(dk)
        if d is None:
            d = self.datas[dk] = op_data(eff, op)
        else:
            self.stats["hist:same-argument-objects"] += 1
        return d

    def gains_of(self, e):
        return e.gains if e.gains and not e.may_fail and e.tol == TOL else e.solo_gains

    def buffer(self, slot, Z):
        key = (slot, Z.shape, Z.dtype.str)
        b = self.bufs.get(key)
        if b is None:
            b = self.bufs[key] = np.empty(Z.shape, dtype=Z.dtype)
        else:
            self.stats["hist:reused-buffer"] += 1
        b[...] = Z
        return b

    # -- gain log oracle ---------------------------------------------------
    def retire(self, i):
        """The caller lets go of a filter but keeps its log."""
        old = self.inst.pop(i, None)
        if old is None:
            return
        for q in [q for q, f in self.shared.items() if f is old]:
            del self.shared[q]
        if "gains" not in self.oracles:
            return
        log = old.kalman_gains
        self.oldlogs.append((i, log, [np.array(k, copy=True) for k in log]))
        self.stats["op:filter-dropped-log-kept"] += 1

    def check_old_logs(self):
        for i in list(self.inst):
            self.retire(i)
        for i, log, was in self.oldlogs:
            if len(log) < len(was) or not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(log, was)):
                self.bad("gain-log", "filter %d: its log, kept by the caller, changed when the filter was dropped" % i)

    def check_gains(self):
        for i, inst in self.inst.items():
            if i in self.nolog:
                continue
            log = [cmp.f8(k) for k in inst.kalman_gains][self.gbase.get(i, 0):]
            threads = [list(v) for v in self.gain_seq.get(i, {}).values()]
            for e in self.extra_gains.get(i, []):
                threads.append([e])
            msg = shuffle_check(log, threads)
            if msg:
                self.bad("gain-log", "filter %d: %s" % (i, msg))
            for (ii, snap) in self.gsnaps:
                if ii == i:
                    full = [cmp.f8(k) for k in inst.kalman_gains]
                    if len(snap) > len(full) or any(cmp.err(a, b, max(cmp.amax(b), 1e-300)) > 1e-12
                                                    for a, b in zip(snap, full)):
                        self.bad("gain-log", "filter %d: entries seen earlier were changed or removed" % i)

    # -- whole run ---------------------------------------------------------
    def go(self):
        plan = self.plan
        if "np_seed" in plan:
            np.random.seed(plan["np_seed"] % (1 << 32))
            random.seed(plan["np_seed"])
        self.tracked, self.results, self.kept, self.bufs = {}, [], [], {}
        self.oldlogs = []
        self.gsnaps, self.gain_seq, self.gbase, self.glen = [], {}, {}, {}
        self.extra_gains, self.nolog, self.copied = {}, set(), set()
        self.cbstate, self.values, self.private, self.datas = {}, {}, {}, {}
        gran = plan.get("gran", "opcode")
        with sched.seams():
            p0 = process_state() if "settings" in self.oracles else None
            self.prepare(gran)
            kk = self.kk = lib.fresh()
            if self.viol:
                return self.outcome(None)
            self.inst = {}
            self.hook = self.hook_for(None)
            for i, ins in enumerate(plan["instances"]):
                if ins.get("later"):
                    continue
                eff = self.effs[(i, 0, json_key(ins["spec"]))]
                for cb in eff.cbs:
                    cb.hook = self.hook
                try:
                    self.inst[i] = make_instance(kk, eff)
                except Exception as ex:
                    self.bad("call-failed", "constructing filter %d failed: %r" % (i, ex))
                    return self.outcome(None)
                for q, a in eff.attrs.items():
                    self.track(a, "parameter %s of filter %d" % (q, i))
            for eff in self.effs.values():
                for cb in eff.cbs:
                    cb.hook = self.hook
            self.shared = dict(self.inst)
            if p0 is not None:
                d = diff_state(p0, process_state())
                if d:
                    self.bad("setting-changed", "importing the package, building the filters or making each call once alone "
                             "changed process-wide %s" % d)
            self.pstate, self.lstate = process_state(), light_state()
            s = sched.Sched(plan.get("schedule", []), gran, plan.get("cap", 600000), self.monitor)
            self.s = s
            bodies = [self.caller(t, ops) for t, ops in enumerate(plan["threads"])]
            s.run(bodies)
            for p in s.problems:
                self.bad(p.kind, p.detail)
            if not s.problems:
                if "inputs" in self.oracles:
                    self.check_inputs("at the end")
                if "settings" in self.oracles:
                    d = diff_state(self.pstate, process_state())
                    if d:
                        self.bad("setting-changed", "process-wide %s changed by the end of the run" % d)
                for where, res, fr in self.kept:
                    now = cmp.freeze(res)
                    if any(not np.array_equal(a, b, equal_nan=True) for a, b in zip(now, fr)):
                        self.bad("result-overwritten", "%s: returned arrays were changed by later calls" % where)
                if "gains" in self.oracles:
                    self.check_gains()
                self.finish(s)
                if "gains" in self.oracles:
                    self.check_old_logs()
            return self.outcome(s)

    def prepare(self, gran):
        """Effective models and expectations for every call, walked per caller."""
        plan = self.plan
        self.effs, self.exp, self.opkey = {}, {}, {}
        want_ref = "ref" in self.oracles or "gains" in self.oracles
        vars0 = {i: [] for i in range(len(plan["instances"]))}
        specs = {i: ins["spec"] for i, ins in enumerate(plan["instances"])}
        clss = {i: ins["cls"] for i, ins in enumerate(plan["instances"])}
        for i, ins in enumerate(plan["instances"]):
            if ins.get("sing") is not None:
                vars0[i] = [{"sing": ins["sing"], "seed": 0, "names": []}]
            self.get_eff(i, clss[i], specs[i], vars0[i])

        def keyof(i, vars_):
            return (i, len(vars_), json_key(specs[i]) if not vars_ else json_key([specs[i], vars_]))

        def reg(op, vars_):
            i = op["i"]
            ek = self.get_eff(i, clss[i], specs[i], vars_)
            body = {k: v for k, v in op.items() if k not in ("faults", "scribble", "buf", "droprefs", "i", "same")}
            sing = next((v["sing"] for v in vars_ if v.get("sing") is not None), None)
            key = (ek, json_key(body), gran, 0, sing)
            if key not in self.exp:
                self.exp[key] = expect(lib.fresh(), clss[i], specs[i], vars_, op, gran, want_ref)
                e = self.exp[key]
                if e.solo_exc is not None and not e.may_fail:
                    self.bad("call-failed", "%s alone on a new filter failed with %r" % (op["op"], e.solo_exc))
                elif e.solo is not None and e.x is not None and "ref" in self.oracles:
                    d = max(cmp.err(e.solo[0], e.x, e.sx), cmp.err(e.solo[1], e.P, e.sp))
                    if not d <= e.tol:
                        self.bad("differs-from-reference", "%s alone on a new filter is off by %.3g (relative)"
                                 % (op["op"], d))
            self.opkey[id(op)] = key

        for t, ops in enumerate(plan["threads"]):
            vars_ = {i: list(v) for i, v in vars0.items()}
            for op in ops:
                i = op.get("i")
                if op["op"] in CALLS:
                    reg(op, vars_[i])
                    for fl in op.get("faults", []):
                        if fl["kind"] == "reenter":
                            reg(fl["op"], vars_[fl["op"]["i"]])
                elif op["op"] == "retune":
                    vars_[i].append({"names": op["names"], "seed": op["seed"]})
                    ek = self.get_eff(i, clss[i], specs[i], vars_[i])
                    self.opkey[id(op)] = (ek,)
                    names = []
                    for nme in op["names"]:
                        names += ["f", "h", "jacobian_A", "jacobian_H"] if nme == "model" else [nme]
                    op["set"] = [q for q in names if self.effs[ek].attrs.get(q) is not None]
                elif op["op"] == "new":
                    vars_[i] = list(vars0.get(i, []))
                    self.opkey[id(op)] = (self.get_eff(i, clss[i], specs[i], vars_[i]),)
                elif op["op"] in ("copy", "pickle"):
                    vars_[i] = list(vars_[op["from"]])
                    specs_i = specs[op["from"]]
                    specs[i], clss[i] = specs_i, clss[op["from"]]
                    self.copied.add(i)

    def get_eff(self, i, cls, spec, vars_):
        key = (i, len(vars_), json_key(spec) if not vars_ else json_key([spec, vars_]))
        if not vars_:
            key = (i, 0, json_key(spec))
        if key not in self.effs:
            self.effs[key] = Eff(cls, spec, vars_)
        if vars_ and len(vars_) == 1 and vars_[0].get("sing") is not None:
            self.effs[(i, 0, json_key(spec))] = self.effs[key]
        return key

    def outcome(self, s):
        sig = s.signature() if s is not None else "none"
        return {"violations": self.viol, "stats": dict(self.stats), "sig": sig,
                "switches": s.switches if s else 0, "steps": s.step if s else 0,
                "digest": cmp.hashlib.blake2b(("".join(sorted(self.digest_parts)) + sig).encode(),
                                              digest_size=8).hexdigest(),
                "results": list(self.digest_parts)}


def json_key(o):
    import json
    return json.dumps(o, sort_keys=True)


def same_gain(a, b):
    return cmp.err(a, b, max(cmp.amax(b), 1e-300)) <= TOL


def shuffle_check(log, threads):
    """Is the log an interleaving of the callers' gain sequences?  (None: yes)

    threads: per caller a list of (mode, gains); "prefix" segments (failed calls) may
    stop anywhere, all others must be complete.
    """
    seqs = []
    for th in threads:
        flat, skip = [], {}
        for mode, gains in th:
            start = len(flat)
            flat.extend(gains)
            if mode == "prefix":
                for p in range(start, len(flat)):
                    skip[p] = len(flat)
        seqs.append((flat, skip))

    def close(pos):
        """All position tuples reachable by ending failed calls early."""
        out, todo = {pos}, [pos]
        while todo:
            p = todo.pop()
            for t, (flat, skip) in enumerate(seqs):
                if p[t] in skip:
                    q = p[:t] + (skip[p[t]],) + p[t + 1:]
                    if q not in out:
                        out.add(q)
                        todo.append(q)
        return out
    front = close(tuple(0 for _ in seqs))
    for n, g in enumerate(log):
        nxt = set()
        for p in front:
            for t, (flat, _) in enumerate(seqs):
                if p[t] < len(flat) and same_gain(g, flat[p[t]]):
                    nxt |= close(p[:t] + (p[t] + 1,) + p[t + 1:])
        if not nxt:
            return "entry %d is not the next gain of any caller (of %d entries)" % (n, len(log))
        if len(nxt) > 5000:
            return None
        front = nxt
    if not any(all(p[t] == len(flat) for t, (flat, _) in enumerate(seqs)) for p in front):
        return "%d entries; gains of completed updates are missing" % len(log)
    return None


def execute(plan, oracles):
    return Run(plan, oracles).go()


# ------------------------------------------------------------------ two environments
class Environment:
    """A process environment: random state, clock, garbage collection, heap, settings."""

    def __init__(self, e):
        self.e = e

    def __enter__(self):
        e = self.e
        self.saved = (np.random.get_state(), random.getstate(), dict(os.environ), np.geterr(), gc.get_threshold(),
                      np.get_printoptions())
        np.random.seed(e["np_seed"])
        random.seed(e["np_seed"])
        sched.CLOCK.base, sched.CLOCK.rate = e["clock"], e["rate"]
        os.environ.update(e["environ"])
        if e.get("own"):
            os.environ.update({q: e["own"] for q in lib.setting_names()})
        if e["gc"]:
            gc.set_threshold(e["gc"] * 10)
        if e["gcoff"]:
            gc.disable()
        if e["fpnoise"]:
            np.seterr(all="ignore")
            np.set_printoptions(precision=3)
        time.tzset()
        lib.OPTIMIZE[0] = e.get("optimize", 0)
        self.quit = threading.Event()
        self.idle = [threading.Thread(target=self.quit.wait, daemon=True) for _ in range(e.get("idle", 0))]
        for t in self.idle:
            t.start()
        g = np.random.default_rng(e["np_seed"])
        self.heap = [g.normal(size=(int(k) % 7 + 1, int(k) % 5 + 1)) for k in g.integers(0, 99, 20 * e["noise"])]
        self.heap = self.heap[::2]
        return self

    def __exit__(self, *a):
        nps, rs, env, ge, th, po = self.saved
        lib.OPTIMIZE[0] = 0
        self.quit.set()
        for t in self.idle:
            t.join()
        gc.enable()
        gc.set_threshold(*th)
        np.seterr(**ge)
        np.set_printoptions(**po)
        os.environ.clear()
        os.environ.update(env)
        time.tzset()
        np.random.set_state(nps)
        random.setstate(rs)
        sched.CLOCK.base, sched.CLOCK.rate = 0.0, 1e-6
        self.heap = None


def in_environment(plan, e):
    with Environment(e):
        r = Run(plan, {"ref", "solo"})
        if not e["thread"]:
            out = r.go()
        else:
            box = []

            def body():
                try:
                    box.append(r.go())
                except BaseException as ex:
                    box.append(ex)
            lk = sched._alloc()
            lk.acquire()

            def boot():
                body()
                lk.release()
            sched._start(boot, ())
            lk.acquire()
            if isinstance(box[0], BaseException):
                raise box[0]
            out = box[0]
        out["values"] = r.values
        for i, inst in getattr(r, "inst", {}).items():
            for n, k in enumerate(inst.kalman_gains):
                r.values["gain %d of filter %s" % (n, i)] = (cmp.f8(k), cmp.f8(k), cmp.amax(k) or 1.0, 1.0)
        return out


def execute_env(plan, mirror=None):
    """The same calls in two environments (the second in another process if there is one)."""
    a = in_environment(plan, plan["env"][0])
    if mirror is not None:
        b = mirror(plan)
    else:
        b = in_environment(plan, plan["env"][1])
    va, vb = a.pop("values"), b.pop("values")
    v = a["violations"] + b["violations"]
    if not v:
        if set(va) != set(vb):
            v = [{"kind": "differs-between-environments", "detail": "different calls completed: %s"
                  % sorted(set(va) ^ set(vb))}]
        for w in va:
            if w in vb:
                d = max(cmp.err(va[w][0], vb[w][0], va[w][2]), cmp.err(va[w][1], vb[w][1], va[w][3]))
                if any(p.tobytes() != q.tobytes() for p, q in zip(va[w][:2], vb[w][:2])):
                    v.append({"kind": "differs-between-environments",
                              "detail": "%s: results differ by %.3g (relative)" % (w, d)})
    a["violations"] = v[:5]
    for k, n in b["stats"].items():
        a["stats"][k] = a["stats"].get(k, 0) + n
    return a
