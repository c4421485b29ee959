"""pipesim: a record-processing job that is split, killed and resumed, and streams that end early or carry
corrupted data.

Real code: the kalmankit package (re-executed from source after every simulated restart) and numpy.  Simulated: the
job, its checkpoint disk (only durable checkpoints survive), process deaths at arbitrary byte-code lines inside a call,
the stream that delivers the record.
"""
import copy
import hashlib
import pickle
from collections import Counter

import numpy as np

from . import callsim, cmp, lib, models, prng, ref, sched
from .callgen import chunks
from .ref import ld

REAL = ["kalmankit package (all modules), re-executed from /repo/src at every simulated process start", "numpy"]
STUB = ["the job and its checkpoint disk", "process death (raised at a chosen line inside a call; the process's objects "
        "are discarded)", "record delivery (truncation, corruption)", "process spawning at import (no such program)"]

STEP_TOL = 1e-10    # split against unsplit, same code


class Killed(BaseException):
    pass


def die():
    raise Killed()


def _copy_array(a):
    return None if a is None else np.array(a, copy=True)


class Job:
    """Model and record of one job, with slices of them as the library wants them."""

    KFARR, EKARR = ("A", "H", "Q", "R", "B"), ("Q", "R")

    def __init__(self, spec, cls, glitch=()):
        self.spec, self.cls = spec, cls
        self.m = m = models.build(spec, cls)
        self.N = m.N
        for k, factor in glitch:            # outliers in the record itself
            Z = np.array(m.Z)
            if k < m.N and Z.dtype.kind == "f":
                Z[k] = Z[k] * factor
                m.Z = models._lay(Z, "Z", spec)
                cz = ld(np.asarray(m.Z, dtype=np.float64).reshape(m.N, m.m))
                if cls == "KF":
                    m.canon.z = cz
                else:
                    m.cZ = cz
        self.Z, self.U = m.Z, m.U

    def kwargs(self, a=0, b=None, x=None, P=None, sliced=True):
        kw = dict(self.m.kwargs())
        if sliced and (a or b is not None):
            for q in (self.KFARR if self.cls == "KF" else self.EKARR):
                if kw[q] is not None:
                    kw[q] = kw[q][a:b]
        if x is not None:
            kw["xk"] = np.asarray(x).reshape(np.shape(kw["xk"])).copy()
            kw["Pk"] = np.array(P, copy=True)
        return kw

    def make(self, kk, **k):
        return models.filter_class(kk, self.cls, self.spec)(**self.kwargs(**k))

    def rec(self, a=0, b=None):
        return self.Z[a:b], (None if self.U is None else self.U[a:b])

    def steps(self, inst, a, b, x, P):
        """The record's rows a..b fed one step at a time."""
        m, out = self.m, []
        kw = self.kwargs(sliced=False)
        if x is None:
            x, P = kw["xk"], kw["Pk"]
        for k in range(a, b):
            z = self.Z[k]
            u = None if self.U is None else self.U[k]
            if self.cls == "KF":
                B = None if kw["B"] is None else kw["B"][k]
                x, P = inst.predict(Ak=kw["A"][k], xk=x, Bk=B, uk=u, Pk=P, Qk=kw["Q"][k])
                x, P = inst.update(Hk=kw["H"][k], xk=x, Pk=P, zk=z, Rk=kw["R"][k])
            else:
                x, P = inst.predict(xk=x, uk=u, Pk=P, Qk=kw["Q"][k])
                x, P = inst.update(xk=x, Pk=P, zk=z, Rk=kw["R"][k])
            out.append((np.array(x, dtype=float).reshape(-1), np.array(P, dtype=float)))
        n = m.n
        return (np.array([o[0] for o in out]).reshape(-1, n), np.array([o[1] for o in out]).reshape(-1, n, n))


def traced(fn, at):
    """Run fn; the process dies at the at-th line event inside package code."""
    return sched.count_events(fn, "line", at, die)[1]


class Run:
    def __init__(self, prop, plan):
        self.prop, self.plan = prop, plan
        self.viol, self.stats, self.events = [], Counter(), []
        self.digest = []

    def bad(self, kind, detail):
        if len(self.viol) < 5:
            self.viol.append({"kind": kind, "detail": str(detail)[:500]})

    def close(self, kind, what, got, want, sx, sp, tol):
        p = cmp.pair(got)
        if p is None:
            self.bad(kind, "%s: result is %r" % (what, type(got)))
            return False
        d = max(cmp.err(p[0], want[0], sx), cmp.err(p[1], want[1], sp))
        if not d <= tol:
            self.bad(kind, "%s: off by %.3g (relative)" % (what, d))
            return False
        return True

    def gains_close(self, kind, what, got, want, tol):
        if len(got) != len(want):
            self.bad(kind, "%s: %d gains instead of %d" % (what, len(got), len(want)))
            return
        for k, (a, b) in enumerate(zip(got, want)):
            d = cmp.err(a, b, max(cmp.amax(b), 1e-300))
            if not d <= tol:
                self.bad(kind, "%s: gain of step %d off by %.3g (relative)" % (what, k, d))
                return

    def go(self):
        plan = self.plan
        job = self.job = Job(plan["spec"], plan["cls"], plan.get("glitch", ()))
        if job.cls == "EKF":
            job.m.cb.hook = None
        kk = lib.fresh()
        base = job.make(kk)
        try:
            with np.errstate(all="ignore"):
                want = cmp.freeze(base.filter(*job.rec()))
        except Exception as ex:
            self.bad("call-failed", "uninterrupted pass failed: %r" % ex)
            return self.out()
        self.want, self.wantK = want, [cmp.freeze(k) for k in base.kalman_gains]
        N = job.N
        r = models.reference(job.m, job.cls)
        X = np.array([cmp.f8(v) for v in r.x]).reshape(N, job.m.n)
        PP = np.array([cmp.f8(v) for v in r.P]).reshape(N, job.m.n, job.m.n)
        cz = job.m.canon.z if job.cls == "KF" else job.m.cZ
        self.sx, self.sp = max(cmp.amax(r.x, r.xp, cz), job.m.sd), max(cmp.amax(r.Pp, r.P), 1e-300)
        self.tol, self.stol = cmp.TOL, STEP_TOL
        if job.cls == "EKF" and job.spec.get("ekf") != "linear":
            m = job.m
            twin = ref.ekf_filter(m.cb, m.cQ, m.cR, m.cZ, m.cU, m.cx, m.cP, 0, N,
                                  jitter=ref.jitterer(job.spec["seed"], self.sx, self.sp))
            d = ref.spread(r, twin, self.sx, self.sp)
            if d > 1e-4:                 # chaotic: rounding alone decides where it goes
                self.stats["skip:chaotic-model"] += 1
                return self.out()
            self.tol, self.stol = max(self.tol, 10 * d), max(self.stol, d)
        self.close("differs-from-reference", "uninterrupted pass", want, (X, PP), self.sx, self.sp, self.tol)
        if not self.viol and plan.get("gone"):
            self.gone(plan["gone"])
        if not self.viol:
            with np.errstate(all="ignore"):
                getattr(self, "do_" + plan["kind"])()
        self.digest.append(cmp.digest(*want))
        return self.out()

    def out(self):
        d = hashlib.blake2b(repr((self.events, self.digest)).encode(), digest_size=8).hexdigest()
        sig = hashlib.blake2b(repr((self.plan["kind"], self.plan["cls"], self.plan["spec"]["form"], self.events)).encode(),
                              digest_size=8).hexdigest()
        return {"violations": self.viol, "stats": dict(self.stats), "sig": sig, "digest": d,
                "nontrivial": any(k.startswith("fault:") or k == "op:split" for k in self.stats),
                "simtime": float(self.job.N), "measures": {"record_steps": self.job.N}}

    # ---------------------------------------------------------------- C03
    def gone(self, hits):
        """The record has non-finite readings from here on: whatever the uninterrupted pass makes of them is wanted."""
        job = self.job
        Z = np.array(np.asarray(job.Z), dtype=float, copy=True)
        for k, v in hits:
            if k < job.N:
                Z[k] = float(v)
                self.stats["fault:reading-" + v] += 1
        job.Z = Z
        inst = job.make(lib.fresh())
        self.want = cmp.freeze(inst.filter(*job.rec()))
        self.wantK = [cmp.freeze(k) for k in inst.kalman_gains]

    def do_job(self):
        job, plan = self.job, self.plan
        N = job.N
        cuts = sorted({c for c in plan["cuts"] if 0 < c < N})
        bounds = list(zip([0] + cuts, cuts + [N]))
        if len(bounds) > 1:
            self.stats["op:split"] += 1
        # line events of one uninterrupted pass, to place deaths
        kk = lib.fresh()
        probe = job.make(kk)
        total, _ = sched.count_events(lambda: probe.filter(*job.rec()), "line")
        disk = []                      # durable checkpoints: (step, state bytes)
        done = [None] * len(bounds)    # results of completed pieces
        deaths = [dict(d) for d in plan["deaths"]]
        i, inst, guard = 0, None, 0
        ways = plan["ways"]
        parts = {}                     # record pieces as this process holds them
        again, ready = False, None
        while i < len(bounds):
            guard += 1
            if guard > 60:
                raise RuntimeError("job does not terminate")
            a, b = bounds[i]
            way = ways[i % len(ways)]
            x = P = None
            if a:
                x, P = pickle.loads(disk[i - 1])
            death = next((d for d in deaths if d["piece"] == i and not d.get("used")), None)
            at = None
            if death is not None:
                death["used"] = True
                at = 1 + int(death["frac"] * max(1, total * (b - a) / max(1, N)))
            try:
                def piece(a=a, b=b, x=x, P=P, way=way, again=again):
                    nonlocal inst, ready
                    if again and ready == i:       # tried again after an interruption: same objects
                        pass
                    elif way in ("shipped", "shipped-copy"):     # prepared here, filters elsewhere
                        inst = job.make(kk, a=a, b=b, x=x, P=P)
                        inst = pickle.loads(pickle.dumps(inst)) if way == "shipped" else copy.deepcopy(inst)
                    elif way == "steps":
                        inst = job.make(kk) if inst is None else inst
                        g0 = len(inst.kalman_gains)
                        res = job.steps(inst, a, b, x, P)
                        return res, inst.kalman_gains[g0:]
                    elif way in ("pickle", "copy", "same") and inst is not None and a:
                        if way == "pickle":
                            inst = pickle.loads(pickle.dumps(inst))
                        elif way == "copy":
                            inst = copy.deepcopy(inst)
                        for q, v in job.kwargs(a, b, x, P).items():
                            if q == "B" and v is None:
                                v = np.full(np.shape(job.kwargs(a, b)["A"]), np.nan)
                            setattr(inst, q, v)
                    elif way == "longer" or not a and way != "new":
                        inst = job.make(kk, a=a, b=None, x=x, P=P)    # parameters reach beyond the piece
                    else:
                        inst = job.make(kk, a=a, b=b, x=x, P=P)
                    ready = i
                    g0 = len(inst.kalman_gains)
                    if (a, b) not in parts:
                        parts[a, b] = job.rec(a, b)
                    Z, U = parts[a, b]
                    return inst.filter(Z, U), inst.kalman_gains[g0:]
                res, gains = piece() if at is None else traced(piece, at)
                if at is not None:      # died after the work but before the checkpoint was durable
                    self.stats["fault:died-before-checkpoint"] += 1
                    raise Killed()
            except Killed:
                self.stats["fault:killed"] += 1
                self.events.append(("killed", i, round(death["frac"], 2)))
                again = bool(death.get("interrupt")) and way != "steps"
                if again:                             # an interrupted call; the process lives on
                    self.stats["fault:interrupted"] += 1
                    continue
                kk, inst, parts, ready = lib.fresh(), None, {}, None          # a new process
                lost = min(death.get("lost", 0), len(disk))
                if lost:
                    self.stats["fault:checkpoint-lost"] += lost
                    disk = disk[:-lost]
                    i = len(disk)
                continue
            except Exception as ex:
                self.bad("call-failed", "piece %d (steps %d..%d, %s) failed: %r" % (i, a, b, way, ex))
                return
            again = False
            p = cmp.pair(res)
            if p is None or len(p[0]) != b - a:
                self.bad("result-shape", "piece %d (%s)" % (i, way))
                return
            self.events.append((way, a, b))
            self.stats["op:piece-" + way] += 1
            done[i] = (cmp.freeze(res), [cmp.freeze(k) for k in gains])
            disk = disk[:i] + [pickle.dumps((cmp.freeze(res)[0][-1], cmp.freeze(res)[1][-1]))]
            i += 1
        x = np.concatenate([d[0][0] for d in done])
        P = np.concatenate([d[0][1] for d in done])
        K = [k for d in done for k in d[1]]
        self.close("split-differs", "split run (%s)" % [e for e in self.events], (x, P), self.want, self.sx, self.sp, self.stol)
        self.gains_close("split-differs", "split run", K, self.wantK, self.stol)

    # ---------------------------------------------------------------- C05
    def do_cut(self):
        """Streams that end early: every delivered prefix gives its own rows."""
        job = self.job
        for c in self.plan["cuts"]:
            c = min(c, job.N)
            if c < job.N:
                self.stats["fault:stream-ended-early"] += 1
            if c == 0:
                self.stats["fault:stream-empty"] += 1
            self.events.append(("cut", c))
            for sliced in (False, True):
                kk = lib.fresh()
                inst = job.make(kk, a=0, b=c, sliced=sliced)
                Z, U = job.rec(0, c)
                try:
                    res = inst.filter(Z, U)
                    sm = job.make(kk, a=0, b=c, sliced=sliced).smooth(Z, U)
                except Exception as ex:
                    self.bad("call-failed", "record cut to %d of %d steps: %r" % (c, job.N, ex))
                    return
                w = (self.want[0][:c], self.want[1][:c])
                self.close("future-dependence", "filter on the first %d of %d steps" % (c, job.N), res, w, self.sx,
                           self.sp, self.stol)
                self.gains_close("future-dependence", "first %d of %d steps" % (c, job.N), inst.kalman_gains,
                                 self.wantK[:c], self.stol)
                if job.cls == "KF":
                    rr = ref.filter_pass(job.m.canon, c)
                    xs, Ps = ref.rts(job.m.canon, rr)
                else:
                    rr = models.reference(job.m, "EKF", c)
                    xs, Ps = ref.ekf_rts(job.m.cb, job.m.cQ, job.m.cU, rr)
                n = job.m.n
                ws = (np.array([cmp.f8(v) for v in xs]).reshape(c, n), np.array([cmp.f8(v) for v in Ps]).reshape(c, n, n))
                self.close("differs-from-reference", "smoother on the first %d of %d steps" % (c, job.N), sm, ws,
                           self.sx, self.sp, self.tol)

    def corrupt(self, a, how, k, g, sd, size=1e5):
        """Replace rows from k on (or row set) by corrupted ones."""
        a = np.array(a, dtype=float if how in ("nan", "inf", "-inf", "huge", "partial-nan") or how[0] == "=" or a.dtype.kind == "f"
                     else a.dtype, copy=True)
        v = a[k:]
        if how == "nan":
            v[...] = np.nan
        elif how == "partial-nan":
            if v.ndim > 1:
                v[..., 0] = np.nan
            else:
                v[...] = np.nan
        elif how == "inf":
            v[...] = np.inf
        elif how == "-inf":
            v[...] = -np.inf
        elif how == "huge":
            v[...] = v * size + size * sd
        elif how == "zero":
            v[...] = 0
        elif how.startswith("="):            # what recorders write for "no value"
            v[...] = float(how[1:])
        elif how == "shuffle":
            v[...] = v[::-1].copy()
        elif how == "stuck":
            v[...] = v[:1].copy() if len(v) else v
        return a

    def do_future(self):
        """Whatever arrives from step k on does not change the rows before k."""
        job, plan = self.job, self.plan
        N = job.N
        k = min(plan["at"], N)
        g = prng.gen(plan["spec"]["seed"], "corrupt")
        Z, U = job.rec()
        kw = job.kwargs()
        for what, how in plan["what"]:
            if what == "Z":
                Z = self.corrupt(np.asarray(Z), how, k, g, job.m.sd, plan.get("size", 1e5))
            elif what == "U" and U is not None:
                U = self.corrupt(np.asarray(U), how, k, g, job.m.sd, plan.get("size", 1e5))
            elif what == "model":
                o = models.build({**plan["spec"], "seed": plan["spec"]["seed"] + 1}, job.cls)
                okw = o.kwargs()
                for q in (Job.KFARR if job.cls == "KF" else Job.EKARR):
                    if kw[q] is not None:
                        kw[q] = np.concatenate([np.asarray(kw[q])[:k], np.asarray(okw[q])[k:]])
            self.stats["fault:corrupt-%s-%s" % (what, how)] += 1
        self.events.append((k, tuple(map(tuple, plan["what"]))))
        kk = lib.fresh()
        inst = models.filter_class(kk, job.cls, job.spec)(**kw)
        try:
            res = inst.filter(Z, U)
        except Exception as ex:
            if job.cls == "KF" or all(h not in ("nan", "inf", "-inf", "partial-nan") for _, h in plan["what"]):
                self.bad("call-failed", "corrupted from step %d on: %r" % (k, ex))
            self.stats["reach:extended-filter-failed-on-corruption"] += 1
            return
        p = cmp.pair(res)
        if p is None or len(p[0]) != N:
            self.bad("result-shape", "corrupted from step %d on" % k)
            return
        self.close("future-dependence", "rows before step %d after corrupting %s" % (k, plan["what"]),
                   (np.asarray(p[0])[:k], np.asarray(p[1])[:k]), (self.want[0][:k], self.want[1][:k]), self.sx, self.sp,
                   self.stol)
        self.gains_close("future-dependence", "gains before step %d after corrupting %s" % (k, plan["what"]),
                         inst.kalman_gains[:k], self.wantK[:k], self.stol)

    def do_values(self):
        """Measurement values never reach covariances or gains of the standard filter."""
        job, plan = self.job, self.plan
        Z = np.array(np.asarray(job.Z), dtype=float, copy=True)
        for k, how in plan["hits"]:
            if k < job.N:
                Z[k:k + 1] = self.corrupt(Z[k:k + 1], how, 0, None, job.m.sd, plan.get("size", 1e5))
                self.stats["fault:corrupt-value-" + how] += 1
        self.events.append(tuple(map(tuple, plan["hits"])))
        kk = lib.fresh()
        inst, sm = job.make(kk), job.make(kk)
        try:
            res = cmp.freeze(inst.filter(Z, job.U))
            rs = cmp.freeze(sm.smooth(Z, job.U))
            ws = cmp.freeze(job.make(kk).smooth(*job.rec()))
        except Exception as ex:
            self.bad("call-failed", "corrupted measurement values: %r" % ex)
            return
        d = cmp.err(res[1], self.want[1], self.sp)
        if not d <= self.stol:
            self.bad("value-changes-covariance", "measurement corruption %s changed filter covariances by %.3g"
                     % (plan["hits"], d))
        d = cmp.err(rs[1], ws[1], self.sp)
        if not d <= self.stol:
            self.bad("value-changes-covariance", "measurement corruption %s changed smoother covariances by %.3g"
                     % (plan["hits"], d))
        self.gains_close("value-changes-covariance", "after measurement corruption", inst.kalman_gains, self.wantK,
                         self.stol)
        first = min([k for k, _ in plan["hits"]] + [job.N])
        self.close("future-dependence", "rows before the corrupted measurement", (res[0][:first], res[1][:first]),
                   (self.want[0][:first], self.want[1][:first]), self.sx, self.sp, self.stol)


# --------------------------------------------------------------------- generation
def spec_for(r, cls, Nmax, smooth):
    s = models.random_spec(r, Nmax=Nmax, smooth=smooth)
    if cls == "EKF":
        s["ekf"] = r.choice(["linear", "mild", "mild"])
        if s["ctl"] == "Bnone":
            s["ctl"] = "full"
        if s["akind"] == "unstable":
            s["akind"] = "stable"
    return s


def lengthen(s, N):
    s["N"] = N
    if N > 200:
        s["n"], s["m"] = min(s["n"], 2), min(s["m"], 2)
        if s["akind"] in ("unstable", "rot", "cv", "ident"):
            s["akind"] = "stable"
        if s.get("ekf"):
            s["ekf"] = "linear"


FILL = ["=-999", "=-9999", "=999", "=9999", "=-99", "=-1", "=1e20", "=9.969209968386869e+36", "=-32768", "=32767", "=1e30", "=255", "=65535"]
HOW = ["nan", "inf", "-inf", "huge", "zero", "shuffle", "stuck", "partial-nan"]


def gen(prop, r, tier):
    cls = r.choice(["KF", "EKF"])
    big = r.random() < (0.03 if tier == "quick" else 0.08)
    Nmax = r.choice([2, 4, 8, 12]) if not big else r.choice([60, 120, 200] if r.random() < 0.93 else [520, 1100])
    if prop == "C03":
        s = spec_for(r, cls, Nmax, False)
        if big:
            lengthen(s, Nmax)
        N = s["N"]
        cuts = sorted({r.randint(1, max(1, N - 1)) for _ in range(r.choice([1, 1, 2, 3, 5]))})
        if r.random() < 0.15 and N <= 12:
            cuts = list(range(1, N))       # one step at a time, each with a new filter
        deaths = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            deaths.append({"piece": r.randrange(len(cuts) + 1), "frac": round(r.choice([r.random(), 1.2, r.random() ** 3]), 3),
                           "lost": r.choice([0, 0, 0, 1, 2])})
            if r.random() < 0.4:
                deaths[-1]["interrupt"] = True
        ways = [r.choice(["new", "new", "longer", "pickle", "copy", "same", "steps", "shipped", "shipped-copy"]) for _ in range(r.randint(1, 4))]
        plan = {"kind": "job", "cls": cls, "spec": s, "cuts": cuts, "deaths": deaths, "ways": ways}
        if cls == "KF" and r.random() < 0.12:
            plan["gone"] = [[r.choice([N - 1, r.randrange(N), r.randrange(N)]), "nan"]
                            for _ in range(r.choice([1, 1, 2]))]
        return plan
    plan = gen_c05(prop, r, tier, cls, big, Nmax)
    if r.random() < 0.25:
        plan["glitch"] = [[r.randrange(plan["spec"]["N"]), r.choice([1, -1]) * r.choice([1e1, 1e2, 1e3, 1e5])]
                          for _ in range(r.choice([1, 1, 2]))]
    if r.random() < 0.4:
        plan["size"] = r.choice([1e2, 1e3, 1e8, 1e12, -1e5, -1e10, 1e15])
    return plan


def gen_c05(prop, r, tier, cls, big, Nmax):
    kind = r.choice(["cut", "future", "future", "values"])
    if kind == "values":
        cls = "KF"
    s = spec_for(r, cls, Nmax, True)
    if big:
        lengthen(s, Nmax)
    N = s["N"]
    if kind == "cut":
        cuts = sorted({r.choice([0, 1, N - 1, r.randint(0, N), r.randint(0, N)]) for _ in range(r.randint(1, 3))})
        return {"kind": "cut", "cls": cls, "spec": s, "cuts": [max(0, c) for c in cuts]}
    if kind == "values":
        hits = [[r.randrange(N), r.choice(["nan", "inf", "-inf", "huge", "zero", "partial-nan", r.choice(FILL), r.choice(FILL)])]
                for _ in range(r.randint(1, 3))]
        return {"kind": "values", "cls": cls, "spec": s, "hits": hits}
    what = []
    for w in r.sample(["Z", "U", "model"], r.randint(1, 2)):
        hows = HOW if cls == "KF" else ["nan", "huge", "zero", "shuffle", "stuck", "partial-nan"]
        what.append([w, "other" if w == "model" else r.choice(hows)])
    return {"kind": "future", "cls": cls, "spec": s, "at": r.randint(0, max(0, N - 1)), "what": what}


def execute(prop, plan, mirror=None):
    return Run(prop, plan).go()


def shrink(prop, plan):
    for key in ("size", "glitch", "gone"):
        if key in plan:
            yield {k: v for k, v in plan.items() if k != key}
    for key in ("deaths", "cuts", "hits", "what", "ways"):
        if plan.get(key):
            for c in chunks(plan[key]):
                if c or key in ("deaths", "cuts"):
                    yield {**plan, key: c}
    for s in models.shrink_spec(plan["spec"]):
        yield {**plan, "spec": s}


def describe(prop, plan):
    s = plan["spec"]
    return {**{k: v for k, v in plan.items() if k != "spec"},
            "model": "n=%d m=%d N=%d %s ctl=%s" % (s["n"], s["m"], s["N"], s["form"], s["ctl"])}
