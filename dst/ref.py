"""Executable reference model: textbook Kalman/EKF/RTS equations and dense Gaussian conditioning.

Everything is computed in extended precision (numpy longdouble, own Gauss-Jordan
elimination) with symmetrised, Joseph-form covariances, so that it shares neither the
formulas nor the solver of the code under test.
"""
import numpy as np

LD = np.longdouble


def ld(a):
    return np.asarray(a, dtype=np.float64).astype(LD)


def inv(M):
    """Gauss-Jordan inverse with row pivoting, in longdouble."""
    n = M.shape[0]
    W = np.concatenate([M.astype(LD), np.eye(n, dtype=LD)], axis=1)
    for i in range(n):
        p = i + int(np.argmax(np.abs(W[i:, i])))
        if W[p, i] == 0:
            raise ZeroDivisionError("singular")
        if p != i:
            W[[i, p]] = W[[p, i]]
        W[i] = W[i] / W[i, i]
        col = W[:, i].copy()
        col[i] = 0
        W = W - np.outer(col, W[i])
    return W[:, n:]


def sym(P):
    return (P + P.T) / LD(2)


def missing(a):
    return a is None or bool(np.all(np.isnan(np.asarray(a, dtype=np.float64))))


def vec(x):
    return ld(x).reshape(-1)


def mat(P, n):
    return ld(P).reshape(n, n)


def predict(A, x, B, u, P, Q):
    xp = A @ x
    if B is not None and u is not None:
        xp = xp + B @ u
    return xp, sym(A @ P @ A.T) + Q


def update(H, x, P, z, R):
    n = x.shape[0]
    S = sym(H @ P @ H.T) + R
    K = P @ H.T @ inv(S)
    xn = x + K @ (z - H @ x)
    J = np.eye(n, dtype=LD) - K @ H
    Pn = sym(J @ P @ J.T + K @ R @ K.T)
    return xn, Pn, K


class Rec:
    """Result of a reference pass."""

    def __init__(self):
        self.x, self.P, self.K, self.xp, self.Pp = [], [], [], [], []


def filter_pass(c, N=None, start=0, x=None, P=None):
    """c: canonical model (see models.Canon); rows start..N-1."""
    N = c.N if N is None else N
    x = c.x0 if x is None else x
    P = c.P0 if P is None else P
    r = Rec()
    for k in range(start, N):
        xp, Pp = predict(c.A[k], x, c.B[k], c.u[k], P, c.Q[k])
        x, P, K = update(c.H[k], xp, Pp, c.z[k], c.R[k])
        r.xp.append(xp), r.Pp.append(Pp), r.x.append(x), r.P.append(P), r.K.append(K)
    return r


def rts(c, r):
    """Backward pass over filter results r (from step 0)."""
    N = len(r.x)
    xs, Ps = list(r.x), list(r.P)
    for k in range(N - 2, -1, -1):
        A = c.A[k + 1]
        xp, Pp = r.xp[k + 1], r.Pp[k + 1]
        G = r.P[k] @ A.T @ inv(Pp)
        xs[k] = r.x[k] + G @ (xs[k + 1] - xp)
        Ps[k] = sym(r.P[k] + G @ (Ps[k + 1] - Pp) @ G.T)
    return xs, Ps


def dense_posterior(A, Bu, Q, x0, P0, meas):
    """Condition the joint Gaussian of all states on all measurements.

    A, Bu, Q: per step; meas: list of (step, H, R, z).  Returns per-step mean and
    covariance given ALL of meas (the smoothing distribution).  Order of meas is
    irrelevant by construction.
    """
    N, n = len(A), len(x0)
    mean = np.zeros((N, n), dtype=LD)
    C = np.zeros((N, N, n, n), dtype=LD)
    x, P = x0, P0
    for k in range(N):
        x = A[k] @ x + (Bu[k] if Bu[k] is not None else 0)
        P = sym(A[k] @ P @ A[k].T) + Q[k]
        mean[k] = x
        C[k, k] = P
        for j in range(k):
            C[j, k] = C[j, k - 1] @ A[k].T
            C[k, j] = C[j, k].T
    full = C.transpose(0, 2, 1, 3).reshape(N * n, N * n)
    if meas:
        rows = []
        tot = sum(h[1].shape[0] for h in meas)
        G = np.zeros((tot, N * n), dtype=LD)
        RR = np.zeros((tot, tot), dtype=LD)
        zz = np.zeros(tot, dtype=LD)
        o = 0
        for (k, H, R, z) in meas:
            m = H.shape[0]
            G[o:o + m, k * n:(k + 1) * n] = H
            RR[o:o + m, o:o + m] = R
            zz[o:o + m] = z
            o += m
        S = sym(G @ full @ G.T) + RR
        W = full @ G.T @ inv(S)
        mu = mean.reshape(-1) + W @ (zz - G @ mean.reshape(-1))
        full = sym(full - W @ G @ full)
    else:
        mu = mean.reshape(-1)
    mu = mu.reshape(N, n)
    Ps = [full[k * n:(k + 1) * n, k * n:(k + 1) * n] for k in range(N)]
    return mu, Ps


# ---- extended filter -------------------------------------------------------
def ekf_predict(em, x, u, P, Q):
    x64 = np.asarray(x, dtype=np.float64)
    A = ld(em.p_jacA(x64, u))
    return ld(em.p_f(x64, u)), sym(A @ P @ A.T) + Q, A


def ekf_update(em, x, P, z, R):
    x64 = np.asarray(x, dtype=np.float64)
    n = x64.shape[0]
    H = ld(em.p_jacH(x64))
    h = np.atleast_1d(ld(em.p_h(x64)))
    S = sym(H @ P @ H.T) + R
    K = P @ H.T @ inv(S)
    J = np.eye(n, dtype=LD) - K @ H
    return x + K @ (z - h), sym(J @ P @ J.T + K @ R @ K.T), K


def rough_predict(A, xp, P, Q):
    """Plain float64, no care taken: as inaccurate as a correct implementation may be."""
    A, P = np.asarray(A, dtype=np.float64), np.asarray(P, dtype=np.float64)
    return np.asarray(xp, dtype=np.float64).reshape(-1), A @ P @ A.T + np.asarray(Q, dtype=np.float64)


def rough_update(H, h, x, P, z, R):
    H, P, R = (np.asarray(v, dtype=np.float64) for v in (H, P, R))
    n = len(x)
    H, R = H.reshape(-1, n), R.reshape(H.size // n, H.size // n)
    try:
        K = P @ H.T @ np.linalg.inv(H @ P @ H.T + R)
    except np.linalg.LinAlgError:
        K = np.full((n, H.shape[0]), np.nan)
    return x + K @ (np.asarray(z, dtype=np.float64).reshape(-1) - np.asarray(h, dtype=np.float64).reshape(-1)), \
        (np.eye(n) - K @ H) @ P


def ekf_update_rough(em, x, P, z, R):
    """The same in plain float64 with an explicit inverse: as inaccurate as a correct implementation may be."""
    x64, P64, z64, R64 = (np.asarray(v, dtype=np.float64) for v in (x, P, z, R))
    H = np.asarray(em.p_jacH(x64), dtype=np.float64)
    h = np.atleast_1d(np.asarray(em.p_h(x64), dtype=np.float64))
    with np.errstate(all="ignore"):
        try:
            K = P64 @ H.T @ np.linalg.inv(H @ P64 @ H.T + R64)
        except np.linalg.LinAlgError:
            K = np.full((len(x64), len(R64)), np.nan)
        Pn = (np.eye(len(x64)) - K @ H) @ P64
        return ld(x64 + K @ (z64 - h)), ld(Pn), ld(K)


def ekf_filter(em, Q, R, Z, U, x, P, start=0, N=None, jitter=None):
    N = len(Z) if N is None else N
    r = Rec()
    for k in range(start, N):
        if jitter:
            x, P = jitter(x, P)
        xp, Pp, _ = ekf_predict(em, x, U[k], P, Q[k])
        if jitter:
            xp, Pp = jitter(xp, Pp)
        x, P, K = (ekf_update_rough if jitter else ekf_update)(em, xp, Pp, Z[k], R[k])
        r.xp.append(xp), r.Pp.append(Pp), r.x.append(x), r.P.append(P), r.K.append(K)
    return r


def jitterer(seed, sx, sp):
    """Rounding-sized disturbance: how far may correct float64 computations of a nonlinear recursion drift apart."""
    g = np.random.default_rng([seed & 0xffffffff, 7])

    def jitter(x, P):
        n = len(x)
        return x + ld(g.normal(size=n) * 1e-15 * sx), P + sym(ld(g.normal(size=(n, n)) * 1e-15 * sp))
    return jitter


def spread(a, b, sx, sp):
    """Tolerance (relative) that the difference between a record and its jittered twin calls for."""
    d = 0.0
    for u, v in zip(a.x, b.x):
        d = max(d, finite(np.max(np.abs(u - v))) / sx)
    for u, v in zip(a.P, b.P):
        d = max(d, finite(np.max(np.abs(u - v))) / sp)
    return 300 * d


def finite(v):
    return float(v) if np.isfinite(v) else float("inf")


def ekf_rts(em, Q, U, r):
    N = len(r.x)
    xs, Ps = list(r.x), list(r.P)
    for k in range(N - 2, -1, -1):
        xp, Pp, A = ekf_predict(em, r.x[k], U[k + 1], r.P[k], Q[k + 1])
        G = r.P[k] @ A.T @ inv(Pp)
        xs[k] = r.x[k] + G @ (xs[k + 1] - xp)
        Ps[k] = sym(r.P[k] + G @ (Ps[k + 1] - Pp) @ G.T)
    return xs, Ps
