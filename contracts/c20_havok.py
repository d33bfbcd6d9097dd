"""C20: HAVOK embedding, regression and simulation are mutually consistent."""
import numpy as np

from contracts import common as C
from engine.contract import unit
import pydmd
from pydmd import HAVOK
from pydmd.utils import differentiate

K = "havok.HAVOK."


# -- embedding -----------------------------------------------------------------
def embedded(m, H, X, n, d, l):
    """row j of block i of H is row j of X, i lags later"""
    i, j = m.choice("block", list(range(d))) if type(d) is int else C.idx(m, "block", d), C.idx(m, "row", n)
    w = X.shape[-1] - (d - 1) * l
    m.eq("delayed copy", H[i * n + j], X[j, i * l : i * l + w])


@unit("C20", funcs=[K + "hankel", K + "dehankel"], cases=120, split=[("delays", 4)])
def embedding(m):
    """the time-delay matrix stacks the delayed copies; the way back returns the signal (every lag and number of
    variables, up to four delays)"""
    n, l = m.dim("n", 1, 4), m.dim("lag", 1, 4)
    d = m.choice("delays", [1, 2, 3, 4])
    nt = m.dim("nt", 1, 24)
    m.assume(nt >= (d - 1) * l + 1)
    X = m.array("X", (n, nt), m.kind())
    h = HAVOK(delays=d, lag=l)
    H = h.hankel(X)
    m.holds("shape", H.shape[0] == n * d and H.shape[1] == nt - (d - 1) * l)
    embedded(m, H, X, n, d, l)
    m.assume(nt - (d - 1) * l >= l)
    back = h.dehankel(H)
    m.eq("inverse", back.reshape(n, nt), X)


@unit("C20", funcs=[K + "hankel", K + "dehankel"], cases=120, split=[("lag", 3), ("vars", 2)])
def delays(m):
    """as above for every number of delays (lags up to three, up to two variables)"""
    n, l = m.choice("vars", [1, 2]), m.choice("lag", [1, 2, 3])
    d = m.dim("delays", 1, 12)
    nt = m.dim("nt", 1, 60)
    w = nt - (d - 1) * l
    m.assume(w >= 1)
    X = m.array("X", (n, nt), m.kind())
    N = m.np
    h = HAVOK(delays=d, lag=l)
    if m.sym:
        from engine import models as M, term as T

        full = M.new((M.ix(n * d), M.ix(w)), X.kind, lambda r, c: X.num()(M.I.imod(r, M.ix(n)), c + M.I.idiv(r, M.ix(n)) * M.ix(l)))
        rows = N.arange(n * d)
        part = lambda v: N.where((rows < v.index * n)[:, None], v.H, 0 * full)
        done = lambda v: N.where((rows < v.index * n)[:, None], full, 0 * full)
        m.loop("pydmd.havok:HAVOK.hankel", "for0", lambda v: [("blocks so far", part(v), done(v))])
    H = h.hankel(X)
    m.holds("shape", H.shape[0] == n * d and H.shape[1] == w)
    embedded(m, H, X, n, d, l)


# -- derivative ----------------------------------------------------------------
@unit("C20", funcs=["utils.differentiate"], cases=80)
def derivative(m):
    """second order differences: central inside, one-sided at the ends; exact for quadratics"""
    N = m.np
    n, nt = m.dim("n", 2, 5), m.dim("nt", 3, 12)
    dt = m.scalar("dt", 0.1, 2.0)
    m.assume(dt > 0)
    X = m.array("X", (n, nt), m.kind())
    D = differentiate(X, dt)
    j = C.idx(m, "inner", nt - 2)
    m.eq("central", 2 * dt * D[:, j + 1], X[:, j + 2] - X[:, j])
    m.eq("first", 2 * dt * D[:, 0], -3 * X[:, 0] + 4 * X[:, 1] - X[:, 2])
    m.eq("last", 2 * dt * D[:, nt - 1], 3 * X[:, nt - 1] - 4 * X[:, nt - 2] + X[:, nt - 3])
    t = dt * N.arange(nt)
    a, b, c = (m.array(k, (n,), m.kind()) for k in "abc")
    Q = a[:, None] + b[:, None] * t[None, :] + c[:, None] * (t * t)[None, :]
    m.eq("quadratics", differentiate(Q, dt), b[:, None] + 2 * c[:, None] * t[None, :])


# -- regression and simulation -------------------------------------------------
@unit("C20", funcs=[K + "fit", K + "linear_dynamics", K + "forcing", K + "A", K + "B", K + "eigs", K + "operator", K + "predict", K + "reconstructed_data", K + "reconstructed_embeddings", K + "_compute_embeddings", K + "_embeddings_to_original"], con=False, split=[("structured", 2), ("lstsq", 2)])
def regression(m):
    """operator, blocks, eigenvalues, index sets and the simulated system agree, whatever the embedding"""
    C.quiet(m)
    N = m.np
    nt, hn, hm, r, c = m.dim("nt", 4), m.dim("hn", 2), m.dim("hm", 4), m.dim("r", 2), m.dim("chaos", 1)
    m.assume(r <= hn)
    m.assume(r < hm)
    m.assume(hm <= nt)
    m.assume(c < r)
    structured, lstsq = m.choice("structured", [False, True]), m.choice("lstsq", [True, False])
    H = m.array("H", (hn, hm), "f")
    x = m.array("x", (nt,), "f")
    t0, dt = m.scalar("t0"), m.scalar("dt")
    m.assume(dt > 0)
    m.stub("pydmd.havok:HAVOK.hankel", lambda self, X: H, "any embedding (proved above)")
    seen = {}

    def lsim(system, U=None, T=None, X0=None):
        seen.update(system=system, U=U, T=T, X0=X0)
        seen["Z"] = m.array("Z", (T.shape[0], r - c), "f")
        return T, seen["Z"], None

    m.stub("pydmd.havok:lsim", lsim, "simulation of a linear system (scipy)")
    m.stub("pydmd.havok:StateSpace", lambda *a: a, "container of the system matrices (scipy)")
    m.stub("pydmd.havok:HAVOK.dehankel", lambda self, G: G, "way back proved above")
    svd, diff = {}, {}

    def factors(G, rank):
        w = G.shape[1]
        svd[len(svd)] = out = (m.array("U", (hn, r), "f"), m.array("s", (r,), "f"), m.array("V", (w, r), "f"))
        m.eq("decomposed", G, (H[:, :-1], H[:, 1:])[len(svd) - 1] if structured else H)
        return out

    def slope(G, step):
        diff["G"] = G
        m.eq("time step", step, dt)
        diff["D"] = m.array("D", (r, G.shape[1]), "f")
        return diff["D"]

    m.stub("pydmd.havok:compute_svd", factors, "any factors (C01, C02)")
    m.stub("pydmd.havok:differentiate", slope, "any derivative (proved above)")
    h = HAVOK(svd_rank=r, delays=2, num_chaos=c, structured=structured, lstsq=lstsq).fit(x, t0 + dt * N.arange(nt))
    V, Om = h.delay_embeddings, h.operator
    m.eq("spatial basis", h.modes, svd[0][0])
    m.eq("singular values", h.singular_vals, svd[0][1])
    m.eq("delay coordinates", V, svd[0][2])
    if structured:
        Vd = (svd[1][2] - V) / dt
    else:
        m.eq("differentiated", diff["G"], V.T)
        Vd = diff["D"].T
    m.eq("least squares", V.T @ V @ Om.T, V.T @ Vd)
    m.eq("linear coordinates", h.linear_dynamics, V[:, : r - c])
    m.eq("forcing", h.forcing, V[:, r - c :])
    m.eq("linear block", h.A, Om[: r - c, : r - c])
    m.eq("forcing block", h.B, Om[: r - c, r - c :])
    m.eq("eigenvalues", h.eigs, N.linalg.eig(h.A)[0])
    m.holds("rank", h.r == r)
    m.eq("time", h.time, t0 + dt * N.arange(nt))
    q = m.dim("q", 2)
    F, T = m.array("F", (q, c), "f"), m.array("T", (q,), "f")
    k = C.idx(m, "state", V.shape[0])
    start = m.choice("start", ["index", "vector"])
    v0 = m.array("v0", (r - c,), "f")
    got = h.predict(F, T, k if start == "index" else v0)
    A, B, Cm, D = seen["system"]
    m.eq("lifted", got, svd[0][0][:, : r - c] @ N.diag(svd[0][1][: r - c]) @ seen["Z"].T)
    m.eq("simulated block", A, h.A)
    m.eq("simulated input", B, h.B)
    m.eq("output", Cm, N.eye(r - c))
    m.eq("feedthrough", D, 0 * B)
    m.eq("initial state", seen["X0"], V[k, : r - c] if start == "index" else v0)
    m.eq("inputs", seen["U"], F)
    m.eq("times", seen["T"] - seen["T"][0], T - T[0])
    m.eq("starts at the initial state", seen["T"][0], 0)
    h.reconstructed_data
    m.eq("reconstruction: forcing", seen["U"], h.forcing)
    m.eq("reconstruction: times", seen["T"], dt * N.arange(V.shape[0]))
    m.eq("reconstruction: initial state", seen["X0"], V[0, : r - c])


@unit("C20", name="scalar_step", funcs=[K + "fit"], sym=False, cases=30, bounded="random signals")
def scalar_step(m):
    """a time step and the times it stands for give the same model"""
    x, dt = wave(m)[0], 0.05
    kw = dict(svd_rank=4, delays=6, structured=m.choice("structured", [True, False]))
    a, b = HAVOK(**kw).fit(x, dt), HAVOK(**kw).fit(x, dt * np.arange(x.shape[-1]))
    m.eq("operator", a.operator, b.operator)
    m.eq("time", a.time, b.time)


def wave(m, n=None):
    n = n or m.choice("vars", [1, 2, 3])
    nt = m.dim("nt", 60, 90)
    t = 0.05 * np.arange(nt)
    x = np.array([np.sin(m.pr.uniform(1, 3) * t + k) + 0.5 * np.cos(m.pr.uniform(3, 6) * t) + 0.05 * m.rng.standard_normal(nt) for k in range(n)])
    t = t + m.choice("first", [0.0, 0.0, 2.0, -1.3])
    return (x if n > 1 or m.choice("2d", [True, False]) else x[0]), t


@unit("C20", name="consistent", funcs=[K + "fit", K + "predict", K + "hankel", K + "dehankel", K + "forcing", K + "reconstructed_data"], sym=False, cases=120, bounded="random signals, up to 3 variables, 8 delays, 3 lags, 3 forcing terms")
def consistent(m):
    """embedding, coordinates, regression, blocks, eigenvalues and simulation against first principles"""
    from scipy.linalg import expm

    x, t = wave(m)
    X = np.atleast_2d(x)
    n, nt = X.shape
    d, l, c, r = m.choice("delays", [4, 6, 8]), m.choice("lag", [1, 2, 3]), m.choice("chaos", [1, 2, 3]), m.choice("r", [-1, 4, 6])
    r = -1 if r > n * d or r <= c else r
    structured = m.choice("structured", [False, True])
    h = HAVOK(svd_rank=r, delays=d, lag=l, num_chaos=c, structured=structured, lstsq=m.choice("lstsq", [True, False])).fit(x, t)
    w = nt - (d - 1) * l
    H = np.vstack([X[:, i * l : i * l + w] for i in range(d)])
    m.eq("embedding", h.ho_snapshots, H)
    m.eq("signal", h.snapshots, np.squeeze(X))
    m.eq("way back", h.dehankel(h.ho_snapshots), np.squeeze(X))
    if r == -1:
        r = h.r
    m.holds("rank", h.r == r and h.delay_embeddings.shape == (w - (1 if structured else 0), r))
    U, s, V = h.modes, h.singular_vals, h.delay_embeddings
    G = H[:, :-1] if structured else H
    best = np.linalg.svd(G, full_matrices=False)[1]
    m.eq("singular values", s, best[:r], 1e-6)
    m.eq("orthonormal basis", U.T @ U, np.eye(r))
    m.eq("orthonormal coordinates", V.T @ V, np.eye(r))
    m.eq("coordinates", U.T @ G, s[:, None] * V.T, 1e-6)
    dt = t[1] - t[0]
    if structured:
        V2 = np.linalg.svd(H[:, 1:], full_matrices=False)[2][:r].T
        V2 = V2 * np.sign(np.sum(V * V2, axis=0))
        dV = (V2 - V) / dt
    else:
        dV = np.gradient(V, dt, axis=0, edge_order=2)
    if not structured or np.min(np.abs(np.diff(best[: r + 1]))) > 1e-2 * best[0]:
        M = np.linalg.lstsq(V, dV, rcond=None)[0].T
        got = h.operator
        if structured:  # coordinates of the shifted matrix are fixed up to their signs only
            sg = np.sign(np.sum(V * (dt * (V @ h.operator.T) + V), axis=0) * 1.0)
            if np.any(sg < 0):
                m.skip("orientation of the shifted coordinates")
        m.eq("regression", got, M, 1e-5)
    m.eq("linear coordinates", h.linear_dynamics, V[:, : r - c])
    m.eq("forcing", h.forcing, V[:, r - c :])
    m.eq("linear block", h.A, h.operator[: r - c, : r - c])
    m.eq("forcing block", h.B, h.operator[: r - c, r - c :])
    C.match(m, "eigenvalues", h.eigs, np.linalg.eigvals(h.A), 1e-7)
    m.holds("count", len(h.eigs) == r - c)
    # simulation: exact for inputs linear between the samples
    q = m.dim("q", max(3, l), 12)
    T = m.choice("from", [0.0, 1.3]) + dt * np.arange(q)
    F = m.rng.standard_normal((q, c))
    k = m.dim("start", 0, 5)
    how = m.choice("init", ["index", "vector"])
    k = -1 - k if m.pr.random() < 0.25 else k  # indices count from the end too
    z = h.linear_dynamics[k] if how == "index" else m.rng.standard_normal(r - c)
    if m.pr.random() < 0.3 and how == "index":
        k, z, got = 0, h.linear_dynamics[0], h.predict(F, T)
    else:
        got = h.predict(F, T, k if how == "index" else z)
    p = r - c
    big = np.zeros((p + 2 * c, p + 2 * c))
    big[:p, :p], big[:p, p : p + c], big[p : p + c, p + c :] = h.A * dt, h.B * dt, np.eye(c)
    E = expm(big)
    Z = [z]
    for i in range(q - 1):
        Z.append((E @ np.concatenate([Z[-1], F[i], F[i + 1] - F[i]]))[:p])
    Z = np.array(Z)
    if np.max(np.abs(Z)) > 1e6:
        m.skip("growing system")
    rec = (U[:, :p] * s[:p]) @ Z.T
    total = q + (d - 1) * l
    want = np.full((n, total), np.nan)
    for i in range(d):
        want[:, i * l : i * l + q] = rec[i * n : (i + 1) * n]
    if np.any(np.isnan(want)):
        m.skip("fewer samples than the lag")
    m.eq("prediction", got, np.squeeze(want), 1e-5)
    if np.max(np.abs(np.linalg.eigvals(h.A).real)) * (t[-1] - t[0]) < 12:
        m.eq("reconstruction", h.reconstructed_data, h.predict(h.forcing, t[: len(V)], h.linear_dynamics[0]), 1e-5)


@unit("C20", name="refuses", funcs=[K + "hankel", K + "fit", K + "dehankel"], cases=60)
def refuses(m):
    """too short signals are refused, exactly long enough ones accepted"""
    n, l = m.dim("n", 1, 3), m.dim("lag", 1, 4)
    d = m.choice("delays", [1, 2, 3, 4])
    nt = m.dim("nt", 1, 14)
    X = m.array("X", (n, nt), "f")
    h = HAVOK(delays=d, lag=l)
    if nt < (d - 1) * l + 1:
        m.raises("too short", ValueError, lambda: h.hankel(X))
    else:
        m.holds("accepted", h.hankel(X).shape[1] >= 1)


@unit("C20", name="external", funcs=[K + "fit"], sym=False, cases=25, bounded="random signals")
def external(m):
    """an external DMD replaces the regression: it is fitted on the coordinates and their derivative, the operator has its
    modes and eigenvalues"""
    x, t = wave(m)
    kind = m.choice("dmd", ["dmd", "bop"])
    d = pydmd.BOPDMD(svd_rank=4, use_proj=True) if kind == "bop" else pydmd.DMD(svd_rank=-1, exact=True)
    h = HAVOK(svd_rank=4, delays=6, dmd=d, num_chaos=m.choice("chaos", [1, 2])).fit(x, t)
    V, dt = h.delay_embeddings, t[1] - t[0]
    m.eq("operator", h.operator, d.modes @ np.diag(d.eigs) @ np.linalg.pinv(d.modes), 1e-6)
    m.eq("fitted on the coordinates", d.snapshots, V.T)
    if kind == "dmd":
        dV = np.gradient(V, dt, axis=0, edge_order=2)
        m.eq("regression", h.operator, (np.linalg.lstsq(V, dV, rcond=None)[0].T).astype(complex), 1e-5)
    else:
        m.eq("times", d.time, t[: len(V)])
