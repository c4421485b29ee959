"""Seeded models, records and controls; every array is a pure function of a small JSON spec.

Arrays are drawn step by step from per-family generators, so a shorter record (smaller
"N") is a prefix of a longer one: that is what makes shrinking work.
"""
import functools
import sys
import types

import numpy as np

from . import prng
from .ref import LD, ld, missing


# --------------------------------------------------------------------------
def default_spec(seed=0):
    return dict(seed=seed, n=2, m=2, l=1, N=5, form="full", tv=True, scale=0, rexp=0, qexp=-1,
                akind="stable", qkind="full", pkind="full", ctl="full", drop=[], dtype={}, layout={},
                spikes=[], xform="flat")


AKINDS = ["stable", "rot", "ident", "unstable", "singular", "cv"]


STRUCT = {"A": ["eye", "perm", "int"], "H": ["sel", "sel", "dup", "gap"], "B": ["int"], "U": ["int", "gap", "anti"],
          "Q": ["eye", "same"], "R": ["eye", "same"], "P": ["eye", "perm", "perm", "zero"], "x": ["zero", "one", "int"],
          "Z": ["stuck", "zero", "alt"]}


def random_spec(r, Nmax=8, nmax=4, mmax=3, smooth=False, tier="quick", batch=True):
    s = default_spec(r.getrandbits(48))
    s["n"] = r.choice([1, 1, 2, 2, 2, 3, 3, nmax])
    s["m"] = r.choice([1, 1, 2, 2, mmax])
    s["l"] = r.choice([1, 1, 2, 3])
    if r.random() < 0.05:
        s["n"], s["m"], s["l"] = r.choice([1, 5, 6, 8]), r.choice([1, 4, 6, 9]), r.choice([1, 4, 6])
        if r.random() < 0.15:
            s["n"], s["m"], s["l"] = r.choice([3, 12, 17, 33]), r.choice([1, 3, 12, 20]), r.choice([1, 2, 12])
    s["N"] = r.randint(1, Nmax) if r.random() < 0.85 else r.randint(1, 3)
    if s["m"] == 1 and r.random() < 0.6:
        s["form"] = "m1"
    if s["n"] == 1 and s["m"] == 1 and r.random() < 0.6:
        s["form"] = "scalar"
        s["l"] = 1
        s["xform"] = r.choice(["flat", "col"])
    s["tv"] = r.random() < 0.8
    s["scale"] = r.choice([0, 0, 0, 0, -4, -9, 3, 6])
    s["rexp"] = r.choice([0, 0, 0, -1, -2, 1, 2])
    s["qexp"] = r.choice([-1, 0, -2, 1, -1])
    s["akind"] = r.choice(AKINDS)
    s["qkind"] = r.choice(["full", "full", "diag", "low", "zero"])
    s["pkind"] = r.choice(["full", "full", "diag", "big"])
    s["ctl"] = r.choice(["none", "full", "full", "drop", "Bnone", "Unone"])
    if s["ctl"] == "drop":
        s["drop"] = [k for k in range(64) if r.random() < 0.35]
    if r.random() < 0.35:
        s["spikes"] = [[r.randrange(max(1, s["N"])), r.choice([1e2, -1e3, 1e4])]]
    d = {}
    if r.random() < 0.3 and s["scale"] == 0:
        for a in ("A", "H", "Z", "Q", "R", "x", "P", "U", "B"):
            if r.random() < 0.35:
                d[a] = r.choice(["i8", "i8", "i4", "f4"]) if a in ("A", "H", "Z", "U") else "i8"
        if "Z" in d and r.random() < 0.15:
            d["Z"] = r.choice(["u1", "u2"])
        if d.get("Z") == "f4" and s["form"] != "full":
            d["Z"] = "i8"   # float32 scalars would make single precision the honest result
    s["dtype"] = d
    lay = {}
    if batch and r.random() < 0.35:
        for a in ("A", "H", "Z", "Q", "R", "P", "U", "B", "x"):
            if r.random() < 0.4:
                lay[a] = r.choice(["F", "view", "ro", "rev", "be", "bc"])
    s["layout"] = lay
    if r.random() < 0.35:      # values with structure: identities, permutations, small integers, repetitions
        s["st"] = {a: r.choice(k) for a, k in STRUCT.items() if r.random() < 0.5}
    if r.random() < 0.08:
        s["ss"] = True         # state size given to the constructor
    if r.random() < 0.12:
        s["sub"] = r.choice(["plain", "attrs", "forward", "forward"])      # a class of the user's own, see filter_class
    if r.random() < 0.12:
        s["fn"] = r.choice(["partial", "object"])      # model functions that are not functions
    if smooth:
        if s["qkind"] in ("low", "zero"):
            s["qkind"] = "full"
        if s["akind"] == "singular":
            s["akind"] = "stable"
    return s


def shrink_spec(s):
    """Simpler variants of a spec, simplest first."""
    d = default_spec(s["seed"])
    for key in ("dtype", "layout", "spikes", "drop", "st", "ss", "sub", "fn"):
        if s.get(key):
            yield {**s, key: d.get(key, {})}
    for key in sorted(s.get("st") or {}):
        yield {**s, "st": {k: v for k, v in s["st"].items() if k != key}}
    if s["N"] > 1:
        for N in (1, 2, s["N"] // 2, s["N"] - 1):
            if 0 < N < s["N"]:
                yield {**s, "N": N}
    for key, val in (("scale", 0), ("rexp", 0), ("qexp", -1), ("akind", "ident"), ("qkind", "diag"),
                     ("pkind", "diag"), ("tv", False), ("ctl", "none"), ("l", 1), ("xform", "flat")):
        if s[key] != val:
            yield {**s, key: val}
    if s["form"] == "scalar":
        pass
    else:
        if s["m"] > 1:
            yield {**s, "m": s["m"] - 1}
        if s["n"] > 1:
            yield {**s, "n": s["n"] - 1}


# --------------------------------------------------------------------------
def _psd(g, n, kind, scale):
    a = g.normal(size=(n, n))
    if kind == "zero":
        return np.zeros((n, n))
    if kind == "diag":
        return np.diag(0.3 + g.random(n)) * scale
    if kind == "low" and n > 1:
        v = a[:, :1]
        return v @ v.T * scale
    return (a @ a.T / n + 0.3 * np.eye(n)) * scale


def _psd_l(n):
    return n


def _A(g, n, kind):
    M = g.normal(size=(n, n))
    q, rr = np.linalg.qr(M)
    q = q * np.sign(np.diag(rr) + (np.diag(rr) == 0))
    f = g.random(n)
    if kind == "ident":
        return np.eye(n)
    if kind == "rot":
        return q
    if kind == "unstable":
        return q @ np.diag(0.8 + 0.5 * f)
    if kind == "singular":
        f = 0.4 + 0.6 * f
        f[0] = 0.0
        return q @ np.diag(f)
    if kind == "cv":
        a = np.eye(n)
        for i in range(n - 1):
            a[i, i + 1] = 0.1 + 0.1 * f[i]
        return a
    return q @ np.diag(0.4 + 0.6 * f)


def _steps(spec, tag, fn, N):
    g = prng.gen(spec["seed"], tag)
    if spec["tv"]:
        return np.stack([np.asarray(fn(g), dtype=np.float64) for _ in range(N)]) if N else None
    one = np.asarray(fn(g), dtype=np.float64)
    return np.stack([one] * N) if N else None


def _st(a, name, s, unit=1.0):
    """Replace an array by one with structure, of the same shape; unit is the scale of its entries."""
    kind = (s.get("st") or {}).get(name)
    if kind is None or a is None or a.size == 0:
        return a
    g = prng.gen(s["seed"], "st", name)
    if name == "P":
        n = len(a)
        if kind == "zero":
            return np.zeros((n, n))
        return np.eye(n) * unit if kind == "eye" else np.diag(1.0 + g.permutation(n)) * unit
    if name == "x":
        return {"zero": np.zeros(a.shape), "one": np.ones(a.shape) * unit}.get(
            kind, g.integers(-1, 2, a.shape) * unit)
    if name == "Z":
        a = a.copy()
        if kind == "zero":
            a[g.random(len(a)) < 0.5] = 0
        elif kind == "stuck":
            a[:] = a[:1]
        else:
            a[1::2] = -a[0:len(a) - 1:2][:len(a[1::2])]
        return a
    out = []
    for k in range(len(a)):
        one = a[k]
        n = one.shape[0]
        if name == "A":
            if kind == "eye":
                one = np.eye(n)
            elif kind == "perm" or len(a) > 12:
                one = np.eye(n)[g.permutation(n)]
            else:
                one = np.triu(g.integers(-1, 2, (n, n)), 1) + np.diag(g.choice([-1.0, 1.0], n))
        elif name == "H":
            one = np.eye(one.shape[1])[g.integers(0, one.shape[1], n)]
            if kind == "dup":
                one[:] = one[:1]
            if kind == "gap" and g.random() < 0.3:
                one = one * 0
        elif name == "B":
            one = g.integers(-1, 2, one.shape).astype(float)
        elif name == "U":
            one = g.integers(-2, 3, one.shape) * unit
            if kind == "anti" and n > 1:
                one[-1] = -one[:-1].sum()
            if kind == "gap" and g.random() < 0.5:
                one = one * 0.0
        else:      # Q, R
            one = np.eye(n) * unit if kind == "eye" else a[0]
        out.append(one)
        if not s["tv"] and name != "U":
            out = out * len(a)
            break
    return np.array(out, dtype=float).reshape(a.shape)


_CAST = {"i8": np.int64, "i4": np.int32, "f4": np.float32, "u1": np.uint8, "u2": np.uint16}


def _cast(a, name, spec):
    """Apply a numeric type; integers are kept small and invertible where it matters."""
    t = spec["dtype"].get(name)
    if t is None:
        return a
    if t in ("i8", "i4"):
        if name in ("Q", "R", "P"):
            eye = np.eye(a.shape[-1]) if a.ndim >= 2 and a.shape[-1] == a.shape[-2] else 1.0
            r = np.round(a)
            if a.ndim >= 2 and a.shape[-1] == a.shape[-2]:
                r = np.maximum(np.abs(np.round(a * eye)), 1.0) * eye
            else:
                r = np.maximum(np.abs(r), 1.0)
            return r.astype(_CAST[t])
        k = 2.0 if name in ("H", "B", "U") else (1.0 if name == "A" else 3.0)
        return np.round(a * k).astype(_CAST[t])
    if t in ("u1", "u2"):
        return np.minimum(np.round(np.abs(a) * 3), 255 if t == "u1" else 65535).astype(_CAST[t])
    return a.astype(_CAST[t])


def _lay(a, name, spec):
    t = spec["layout"].get(name)
    if t is None or a is None or a.ndim == 0:
        return a
    if t == "F":
        return np.asfortranarray(a)
    if t == "view":
        big = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), dtype=a.dtype)
        big[..., ::2] = a
        return big[..., ::2]
    if t == "be":            # byte order of the file it was read from
        return a.astype(a.dtype.newbyteorder())
    if t == "bc":            # one value for all steps
        same = len(a) > 1 and (a == a[:1]).all()
        return np.broadcast_to(a[0], a.shape) if same else a
    if t == "rev":
        return np.ascontiguousarray(a[::-1])[::-1]
    if t == "ro":
        a = a.copy()
        a.flags.writeable = False
        return a
    return a


class Canon:
    """Canonical extended-precision view used by the reference."""


class Model:
    """Arrays handed to the standard filter, plus .canon for the reference."""

    def __init__(self, spec):
        s = self.spec = spec
        n, m, l, N = s["n"], s["m"], s["l"], s["N"]
        form = s["form"]
        if form == "scalar":
            n = m = l = 1
        if form == "m1":
            m = 1
        cov = 10.0 ** s["scale"]
        sd = cov ** 0.5
        self.n, self.m, self.l, self.N, self.sd = n, m, l, N, sd
        gx = prng.gen(s["seed"], "x0")
        x0 = gx.normal(size=n) * sd
        P0 = _psd(prng.gen(s["seed"], "P0"), n, "diag" if s["pkind"] == "diag" else "full",
                  cov * (100.0 if s["pkind"] == "big" else 1.0))
        if s["pkind"] == "zero":
            P0 = np.zeros((n, n))
        A = _steps(s, "A", lambda g: _A(g, n, s["akind"]), N)
        H = _steps(s, "H", lambda g: g.normal(size=(m, n)), N)
        Q = _steps(s, "Q", lambda g: _psd(g, n, s["qkind"], cov * 10.0 ** s["qexp"]), N)
        R = _steps(s, "R", lambda g: _psd(g, m, "full", cov * 10.0 ** s["rexp"]), N)
        B = _steps(s, "B", lambda g: g.normal(size=(n, l)), N)
        gu = prng.gen(s["seed"], "U")
        U = np.stack([gu.normal(size=l) for _ in range(N)]) * sd if N else np.zeros((0, l))
        if N == 0:
            A, H, Q = np.zeros((0, n, n)), np.zeros((0, m, n)), np.zeros((0, n, n))
            R, B = np.zeros((0, m, m)), np.zeros((0, n, l))
        A, H, Q, R, B, U = (_cast(_st(a, k, s, c), k, s) for a, k, c in
                            ((A, "A", 1), (H, "H", 1), (Q, "Q", cov * 10.0 ** s["qexp"]),
                             (R, "R", cov * 10.0 ** s["rexp"]), (B, "B", 1), (U, "U", sd)))
        x0, P0 = _cast(_st(x0, "x", s, sd), "x", s), _cast(_st(P0, "P", s, cov), "P", s)
        # plant and record
        gz = prng.gen(s["seed"], "z")
        x = np.asarray(x0, dtype=np.float64) + gz.normal(size=n) * sd
        Z = []
        hasctl = s["ctl"] in ("full", "drop")
        for k in range(N):
            x = A[k] @ x + (B[k] @ U[k] if hasctl else 0) + gz.normal(size=n) * sd * 10 ** (s["qexp"] / 2)
            Z.append(H[k] @ x + gz.normal(size=m) * sd * 10 ** (s["rexp"] / 2))
        Z = _st(np.array(Z).reshape(N, m), "Z", s)
        for k, v in s["spikes"]:
            if k < N:
                Z[k] = Z[k] + v * sd
        Z = _cast(Z, "Z", s)
        # control variants
        U = U.astype(np.float64) if s["ctl"] == "drop" else U
        if s["ctl"] == "drop":
            for k in s["drop"]:
                if k < N:
                    U[k] = np.nan
        Bv = None if s["ctl"] in ("none", "Bnone") else B
        Uv = None if s["ctl"] in ("none", "Unone") else U
        # canonical
        c = self.canon = Canon()
        c.N = N
        c.A, c.H, c.Q, c.R = ld(A), ld(H), ld(Q), ld(R)
        c.B = [None if Bv is None else ld(B[k]) for k in range(N)]
        c.u = [None if (Uv is None or missing(U[k])) else ld(U[k]) for k in range(N)]
        c.z, c.x0, c.P0 = ld(Z), ld(x0), ld(P0)
        # the shapes the library is given
        if form == "m1":
            Z, R = Z[:, 0], R[:, 0, 0]
        if form == "scalar":
            Z, R, Q = Z[:, 0], R[:, 0, 0], Q[:, 0, 0]
            if s["xform"] == "col":
                x0, P0 = x0.reshape(1, 1), P0.reshape(1, 1)
        L = lambda a, k: _lay(a, k, s)
        self.A, self.H, self.Q, self.R = L(A, "A"), L(H, "H"), L(Q, "Q"), L(R, "R")
        self.B, self.U = L(Bv, "B"), L(Uv, "U")
        self.xk, self.Pk, self.Z = L(x0, "x"), L(P0, "P"), L(Z, "Z")

    def kwargs(self):
        d = dict(A=self.A, xk=self.xk, B=self.B, Pk=self.Pk, H=self.H, Q=self.Q, R=self.R)
        if self.spec.get("ss"):
            d["state_size"] = self.n
        return d


# --------------------------------------------------------------------------
class Callback:
    """User-side model functions of the extended filter (harness code, not under test).

    p_* are the pure functions; f/h/jacobian_* additionally report to `hook`, through
    which the simulator observes arguments, injects failures and switches callers.
    """

    def __init__(self, spec):
        self.spec = spec
        n, m, l = spec["n"], spec["m"], spec["l"]
        if spec["form"] in ("m1", "scalar"):
            m = 1
        if spec["form"] == "scalar":
            n = 1
        self.n, self.m, self.l = n, m, l
        sd = self.sd = 10.0 ** (spec["scale"] / 2)
        g = prng.gen(spec["seed"], "ekf")
        self.eps = 0.0 if spec.get("ekf") == "linear" else 0.3
        self.Am = _A(g, n, spec["akind"])
        self.Bm = g.normal(size=(n, l))
        self.C = g.normal(size=(n, n)) * 0.4
        self.D = g.normal(size=(n, l)) * 0.8
        self.Hm = g.normal(size=(m, n))
        st = {**spec, "tv": True}
        self.Am, self.Hm = _st(self.Am[None], "A", st)[0], _st(self.Hm[None], "H", st)[0]
        self.E = g.normal(size=(m, n)) * 0.4
        self.G = g.normal(size=(n, m)) * 0.7
        self.scalar_h = spec["form"] in ("m1", "scalar")
        self.hook = None

    def __getstate__(self):
        d = dict(self.__dict__)
        d["hook"] = None
        return d

    def _u(self, u):
        if missing(u):
            return np.zeros(self.l)
        return np.asarray(u, dtype=np.float64).reshape(-1)

    def p_f(self, x, u):
        x = np.asarray(x, dtype=np.float64).reshape(-1)
        u = self._u(u)
        w = (self.C @ x + self.D @ u) / self.sd
        return self.Am @ x + self.Bm @ u + self.eps * self.sd * np.sin(w)

    def p_jacA(self, x, u):
        x = np.asarray(x, dtype=np.float64).reshape(-1)
        u = self._u(u)
        w = (self.C @ x + self.D @ u) / self.sd
        return self.Am + self.eps * np.cos(w)[:, None] * self.C

    def p_h(self, x):
        x = np.asarray(x, dtype=np.float64).reshape(-1)
        v = self.E @ x / self.sd
        out = self.Hm @ x + self.eps * self.sd * np.tanh(v)
        return float(out[0]) if self.scalar_h else out

    def p_jacH(self, x):
        x = np.asarray(x, dtype=np.float64).reshape(-1)
        v = self.E @ x / self.sd
        return self.Hm + self.eps * (1 - np.tanh(v) ** 2)[:, None] * self.E

    # what the library is given
    def _tell(self, name, x, u=None):
        h = self.hook
        if h is not None:
            h(name, x, u)

    def f(self, xk, uk):
        self._tell("f", xk, uk)
        return self.p_f(xk, uk).reshape(np.shape(xk))

    def h(self, xk):
        self._tell("h", xk)
        return self.p_h(xk)

    def jacobian_A(self, x, u):
        self._tell("jacA", x, u)
        return self.p_jacA(x, u)

    def jacobian_H(self, x):
        self._tell("jacH", x)
        return self.p_jacH(x)


class Fn:
    """A callable without a name, a signature or a code object."""
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func

    def __call__(self, *a, **k):
        return self.func(*a, **k)


def callback_of(fn):
    """The Callback behind a model function."""
    cb = getattr(getattr(fn, "func", fn), "__self__", None)
    return cb if isinstance(cb, Callback) else None


def filter_class(kk, cls, spec):
    """The package's class, or a class a user derived from it (importable, so that its objects can be pickled)."""
    base = kk.KalmanFilter if cls == "KF" else kk.ExtendedKalmanFilter
    kind = spec.get("sub")
    if kind is None:
        return base
    name = kind.capitalize() + base.__name__
    land = sys.modules.get("userland")
    if land is None or getattr(land, name, base).__mro__[1] is not base:
        land = sys.modules["userland"] = land or types.ModuleType("userland")
        body = {"__module__": "userland"}
        if kind == "attrs":
            def __init__(self, *a, **k):
                base.__init__(self, *a, **k)
                self.name, self.history, self.count = "user's", [], 0
            body["__init__"] = __init__
        if kind == "forward":
            body["predict"] = lambda self, *a, **k: base.predict(self, *a, **k)
            body["update"] = lambda self, *a, **k: base.update(self, *a, **k)
            body["filter"] = lambda self, *a, **k: base.filter(self, *a, **k)
            body["smooth"] = lambda self, *a, **k: base.smooth(self, *a, **k)
        setattr(land, name, type(name, (base,), body))
    return getattr(land, name)


class EkfModel:
    """Arrays and functions for the extended filter."""

    def __init__(self, spec):
        s = self.spec = spec
        cb = self.cb = Callback(spec)
        n, m, l, N = cb.n, cb.m, cb.l, s["N"]
        cov = 10.0 ** s["scale"]
        sd = cov ** 0.5
        self.n, self.m, self.l, self.N, self.sd = n, m, l, N, sd
        x0 = prng.gen(s["seed"], "x0").normal(size=n) * sd
        P0 = _psd(prng.gen(s["seed"], "P0"), n, "diag" if s["pkind"] == "diag" else "full", cov)
        if s["pkind"] == "zero":
            P0 = np.zeros((n, n))
        Q = _steps(s, "Q", lambda g: _psd(g, n, s["qkind"], cov * 10.0 ** s["qexp"]), N)
        R = _steps(s, "R", lambda g: _psd(g, m, "full", cov * 10.0 ** s["rexp"]), N)
        if N == 0:
            Q, R = np.zeros((0, n, n)), np.zeros((0, m, m))
        gu = prng.gen(s["seed"], "U")
        U = np.stack([gu.normal(size=l) for _ in range(N)]) * sd if N else np.zeros((0, l))
        Q, R, U = (_cast(_st(a, k, s, c), k, s) for a, k, c in
                   ((Q, "Q", cov * 10.0 ** s["qexp"]), (R, "R", cov * 10.0 ** s["rexp"]), (U, "U", sd)))
        x0, P0 = _cast(_st(x0, "x", s, sd), "x", s), _cast(_st(P0, "P", s, cov), "P", s)
        gz = prng.gen(s["seed"], "z")
        x = np.asarray(x0, dtype=np.float64) + gz.normal(size=n) * sd
        hasctl = s["ctl"] not in ("none", "Unone")
        Z = []
        for k in range(N):
            x = cb.p_f(x, U[k] if hasctl else None) + gz.normal(size=n) * sd * 10 ** (s["qexp"] / 2)
            Z.append(np.atleast_1d(cb.p_h(x)) + gz.normal(size=m) * sd * 10 ** (s["rexp"] / 2))
        Z = _st(np.array(Z).reshape(N, m), "Z", s)
        for k, v in s["spikes"]:
            if k < N:
                Z[k] = Z[k] + np.clip(v, -15, 15) * sd
        Z = _cast(Z, "Z", s)
        if s["ctl"] == "drop":
            U = U.astype(np.float64)
            for k in s["drop"]:
                if k < N:
                    U[k] = np.nan
        Uv = U if hasctl else None
        self.cQ, self.cR, self.cZ = ld(Q), ld(R), ld(Z)
        self.cU = [None if Uv is None else U[k] for k in range(N)]
        self.cx, self.cP = ld(x0), ld(P0)
        if s["form"] in ("m1", "scalar"):
            Z, R = Z[:, 0], R[:, 0, 0]
        if s["form"] == "scalar":
            Q = Q[:, 0, 0]
            if s["xform"] == "col":
                x0, P0 = x0.reshape(1, 1), P0.reshape(1, 1)
        L = lambda a, k: _lay(a, k, s)
        self.Q, self.R, self.Z, self.U = L(Q, "Q"), L(R, "R"), L(Z, "Z"), L(Uv, "U")
        self.xk, self.Pk = L(x0, "x"), L(P0, "P")

    def kwargs(self):
        cb = self.cb
        wrap = {"partial": functools.partial, "object": Fn}.get(self.spec.get("fn"), lambda fn: fn)
        return dict(xk=self.xk, Pk=self.Pk, Q=self.Q, R=self.R, f=wrap(cb.f), h=wrap(cb.h),
                    jacobian_A=wrap(cb.jacobian_A), jacobian_H=wrap(cb.jacobian_H))


def build(spec, cls):
    return Model(spec) if cls == "KF" else EkfModel(spec)


def reference(model, cls, N=None):
    """(filter Rec) for the model from its start."""
    from . import ref
    if cls == "KF":
        return ref.filter_pass(model.canon, N)
    return ref.ekf_filter(model.cb, model.cQ, model.cR, model.cZ, model.cU, model.cx, model.cP, 0, N)


def reference_smooth(model, cls, N=None):
    from . import ref
    r = reference(model, cls, N)
    if cls == "KF":
        return ref.rts(model.canon, r), r
    return ref.ekf_rts(model.cb, model.cQ, model.cU, r), r
