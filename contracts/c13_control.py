"""C13: DMD with control satisfies its state equation."""
import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
from pydmd import DMDc

KNOWN = "dmdc.DMDBKnownOperator.compute_operator"
UNKNOWN = "dmdc.DMDBUnknownOperator.compute_operator"
REC = "dmdc.DMDc.reconstructed_data"
FIT = "dmdc.DMDc.fit"


def rebuilt(N, d):
    return N.linalg.multi_dot([d.modes, N.diag(d.eigs), N.linalg.pinv(d.modes)])


@unit("C13", funcs=[REC, FIT, KNOWN, UNKNOWN, "dmdoperator.DMDOperator.compute_operator"], cases=150, weight=2, timeout=400, split=[("B", 2), ("control", 2)])
def state_equation(m):
    """x[k+lag] = A x[k] + B u[k], starting from the first snapshots, for any control"""
    N = m.np
    n, q, lag = m.dim("n", 1, 5), m.dim("q", 1, 3), m.dim("lag", 1, 3)
    T = m.dim("T", 3, 12)
    m.assume(T > 2 * lag)
    kind = m.kind()
    X = m.array("X", (n, T), kind)
    I = m.array("I", (q, T - lag), kind)
    known = m.choice("B", ["known", "unknown"]) == "known"
    r = m.choice("rank", ["r", "all"])
    r = -1 if r == "all" else m.dim("r", 1, 3)
    d = DMDc(svd_rank=r, lag=lag)
    if known:
        B = m.array("B", (n, q), kind)
        d.fit(X, I, B)
        m.eq("supplied B is used", d.B, B)
    else:
        d.fit(X, I)
    B = d.B
    A = rebuilt(N, d)
    ctl = m.choice("control", ["original", "other"])
    if ctl == "original":
        u = I
        Z = d.reconstructed_data()
    else:
        if m.choice("horizon", ["same", "longer"]) == "longer":
            d.dmd_time["tend"] = T + 3
            u = m.array("u", (q, T + 4 - lag), kind)
        else:
            u = m.array("u", (q, T - lag), kind)
        Z = d.reconstructed_data(u)
    m.same("shape", Z.shape, (n, u.shape[1] + lag))
    m.eq("first snapshots", Z[:, :lag], X[:, :lag])
    m.eq("state equation", Z[:, lag:], N.dot(A, Z[:, :-lag]) + N.dot(B, u), tol=1e-6)


@unit("C13", funcs=[KNOWN, FIT, "dmdoperator.DMDOperator.compute_operator"], cases=150)
def known_fit(m):
    """the reduced operator is the least-squares fit of the control-free successors"""
    N = m.np
    n, q, lag, T = m.dim("n", 2, 5), m.dim("q", 1, 3), m.dim("lag", 1, 3), m.dim("T", 6, 12)
    m.assume(T > lag + 1)
    kind = m.kind()
    X, I, B = m.array("X", (n, T), kind), m.array("I", (q, T - lag), kind), m.array("B", (n, q), kind)
    r = -1 if m.choice("rank", ["r", "all"]) == "all" else m.dim("r", 1, 3)
    d = DMDc(svd_rank=r, lag=lag).fit(X, I, B)
    U = d.basis
    At = d.operator.as_numpy_array
    Xr = N.dot(U.conj().T, X[:, :-lag])
    free = X[:, lag:] - N.dot(B, I)
    m.eq("normal equations", N.linalg.multi_dot([At, Xr, Xr.conj().T]), N.linalg.multi_dot([U.conj().T, free, Xr.conj().T]), tol=1e-6)
    m.eq("orthonormal basis", N.dot(U.conj().T, U), N.eye(U.shape[1]))
    W = d.operator.eigenvectors
    m.eq("reduced eigenpairs", N.dot(At, W), W * d.eigs[None], tol=1e-6)


@unit("C13", funcs=[UNKNOWN, FIT], cases=150)
def unknown_fit(m):
    """operator and B are the least-squares fit of the successors on state and control together, in the retained basis"""
    N = m.np
    n, q, lag, T = m.dim("n", 2, 5), m.dim("q", 1, 3), m.dim("lag", 1, 3), m.dim("T", 6, 12)
    m.assume(T > lag + 1)
    kind = m.kind()
    X, I = m.array("X", (n, T), kind), m.array("I", (q, T - lag), kind)
    r = -1 if m.choice("rank", ["r", "all"]) == "all" else m.dim("r", 1, 3)
    d = DMDc(svd_rank=r, lag=lag).fit(X, I)
    U = d.basis
    At = d.operator.as_numpy_array
    x, y = X[:, :-lag], X[:, lag:]
    om = N.vstack([x, I])
    G = N.linalg.multi_dot([y, N.linalg.pinv(om)])
    m.eq("orthonormal basis", N.dot(U.conj().T, U), N.eye(U.shape[1]))
    Q = N.linalg.svd(y, full_matrices=False)[0][:, : U.shape[1]]
    m.eq("leading directions of the successors", N.dot(U, U.conj().T), N.dot(Q, Q.conj().T), tol=1e-6)
    S, s, V = N.linalg.svd(om, full_matrices=False)
    P = N.linalg.multi_dot([y, V.conj().T, N.diag(1 / s), S.conj().T])
    m.eq("reduced operator", At, N.linalg.multi_dot([U.conj().T, P[:, :n], U]), tol=1e-6)
    m.eq("control matrix", d.B, N.linalg.multi_dot([U, U.conj().T, P[:, n:]]), tol=1e-6)
    m.eq("normal equations", N.linalg.multi_dot([P, om, om.conj().T]), N.linalg.multi_dot([y, om.conj().T]), tol=1e-6)
    W = d.operator.eigenvectors
    m.eq("reduced eigenpairs", N.dot(At, W), W * d.eigs[None], tol=1e-6)
    m.eq("modes", d.modes, N.linalg.multi_dot([P[:, :n], U, W]), tol=1e-6)


def system(m, n, q, kind):
    lam = C.eigenvalues(m, n, kind, lo=0.5, hi=1.0, sep=0.15)
    if kind == "c":
        V = C.unitary(m.rng, n, "c") + 0.2 * C.cplx(m.rng, (n, n), "c")
        A = V @ np.diag(lam) @ np.linalg.inv(V)
    else:
        D = np.zeros((n, n))
        i = 0
        while i < n:
            if lam[i].imag == 0:
                D[i, i] = lam[i].real
                i += 1
            else:
                a, b = lam[i].real, lam[i].imag
                D[i : i + 2, i : i + 2] = [[a, b], [-b, a]]
                i += 2
        V = C.unitary(m.rng, n, "f") + 0.2 * C.cplx(m.rng, (n, n), "f")
        A = V @ D @ np.linalg.inv(V)
    m.assume(np.linalg.cond(V) < 50)
    return A, C.cplx(m.rng, (n, q), kind), lam


@unit("C13", funcs=[REC, FIT, KNOWN, UNKNOWN], sym=False, cases=500, bounded="random controlled linear systems, 1-5 states, 1-3 controls, lags 1-4, up to 40 instants")
def recovered(m):
    """noise-free controlled data is reproduced, forecast under another control, B identified"""
    quiet(m)
    n, q, lag = m.dim("n", 1, 5), m.dim("q", 1, 3), m.dim("lag", 1, 4)
    kind = m.choice("kind", ["f", "c"])
    A, B, lam = system(m, n, q, kind)
    T = (n + q + 3) * max(lag, 2) + m.pr.randint(2, 10)
    u = C.cplx(m.rng, (q, T - lag), kind)
    X = np.zeros((n, T), dtype=complex if kind == "c" else float)
    X[:, :lag] = C.cplx(m.rng, (n, lag), kind)
    for k in range(T - lag):
        X[:, k + lag] = A @ X[:, k] + B @ u[:, k]
    known = m.choice("B", [True, False])
    m.assume(np.linalg.cond(np.vstack([X[:, :-lag], u])) < 1e4 and np.linalg.cond(X[:, lag:]) < 1e4)
    rank = m.choice("rank", [-1, n])
    d = DMDc(svd_rank=rank, lag=lag, opt=m.choice("opt", [True, False]))
    if known:
        d.fit(X, u, B)
    else:
        d.fit(X, u)
        m.eq("identified B", d.B, B, tol=1e-5)
    C.match(m, "eigenvalues", d.eigs, lam, tol=1e-5)
    m.eq("data", d.reconstructed_data(), X, tol=1e-5)
    m.eq("data, control given", d.reconstructed_data(u), X, tol=1e-5)
    w = C.cplx(m.rng, (q, T - lag), kind)
    Z = X.copy()
    for k in range(T - lag):
        Z[:, k + lag] = A @ Z[:, k] + B @ w[:, k]
    m.eq("other control", d.reconstructed_data(w), Z, tol=1e-5)
    m.eq("other control, list", d.reconstructed_data(w.tolist()), Z, tol=1e-5)
    bad = m.choice("bad", [-1, 1, 2])
    m.raises("control of another length", (RuntimeError, ValueError), d.reconstructed_data, C.cplx(m.rng, (q, T - lag + bad), kind))
    if q == 1:
        m.eq("single control as a vector", d.reconstructed_data(w[0]), Z, tol=1e-5)


@unit("C13", funcs=[FIT], sym=False, cases=60, bounded="lags below one")
def rejected(m):
    n, T = m.dim("n", 1, 4), m.dim("T", 4, 8)
    lag = m.choice("lag", [0, -1, -2])
    X = m.rng.standard_normal((n, T))
    m.raises("lag below one", ValueError, DMDc(svd_rank=-1, lag=lag).fit, X, m.rng.standard_normal((1, max(T - lag, 1))))
