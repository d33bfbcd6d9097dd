"""C16: denoising and sketching project the data as documented."""
import contextlib

import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
import pydmd
from pydmd import CDMD, DMD, RDMD
from pydmd.utils import compute_rqb, compute_tlsq

OP = ["cdmd.CDMDOperator.compute_operator", "dmdoperator.DMDOperator._least_square_operator", "utils.compute_svd"]


@unit("C16", funcs=["utils.compute_tlsq"], cases=250)
def denoise(m):
    """both matrices times one orthogonal projector of the requested rank onto the leading row space"""
    N = m.np
    n, q, k = m.dim("n", 1, 6), m.dim("q", 1, 6), m.dim("k", 1, 9)
    kind = m.kind()
    X, Y = m.array("X", (n, k), kind), m.array("Y", (q, k), kind)
    r = m.dim("r", 1, 12)
    A, B = compute_tlsq(X, Y, r)
    S = N.vstack([X, Y])
    Vh = N.linalg.svd(S, full_matrices=False)[2]
    p = Vh.shape[0]
    c = r if r <= p else p
    P = N.dot(Vh[:c].conj().T, Vh[:c])
    m.eq("first matrix projected", A, N.dot(X, P))
    m.eq("second matrix projected", B, N.dot(Y, P))
    m.eq("projector", N.dot(P, P), P)
    m.eq("orthogonal", P, P.conj().T)
    m.eq("denoising twice", N.dot(A, P), A)
    if r >= p:
        m.eq("full rank: nothing changes", A, X)
        m.eq("full rank: nothing changes", B, Y)


@unit("C16", funcs=["utils.compute_tlsq"], cases=20)
def disabled(m):
    n, k = m.dim("n"), m.dim("k")
    X, Y = m.array("X", (n, k), m.kind()), m.array("Y", (n, k), "f")
    A, B = compute_tlsq(X, Y, 0)
    m.eq("identity", A, X)
    m.eq("identity", B, Y)


def sketch(m, X, Q, B):
    N = m.np
    m.eq("orthonormal columns", N.dot(Q.conj().T, Q), N.eye(Q.shape[1]))
    m.eq("factor", B, N.dot(Q.conj().T, X))


@unit("C16", funcs=["utils.compute_rqb"], cases=250, timeout=300)
def rqb_given(m):
    """given test matrix"""
    N = m.np
    n, k, l = m.dim("n", 1, 7), m.dim("k", 1, 7), m.dim("l", 1, 9)
    X, G = m.array("X", (n, k), m.kind()), m.array("G", (k, l), "f")
    p = m.dim("power", 0, 4)
    wide = bool(l >= n) and bool(k >= n)
    m.loop("pydmd.utils:compute_rqb", "for0", lambda v: [("rows", v.Y.shape[0] == n)] + ([("sketch stays wide enough", v.Y.shape[1] >= n)] if wide else []), fresh=dict(Y=lambda v: m.array("Y", (n, m.dim("w")), "c")))
    Q, B, T = compute_rqb(X, m.dim("r", 1, 3), m.dim("o", 0, 3), p, G)
    sketch(m, X, Q, B)
    m.eq("test matrix returned", T, G)
    if wide:
        m.eq("reproduces the data", N.dot(Q, B), X)


@unit("C16", funcs=["utils.compute_rqb"], cases=250, bounded="power iterations 0..3 (all shapes, test matrices and data)", split=[("power", 4)], timeout=300)
def rqb_function(m):
    """the factors are a function of data and test matrix, and span the sketch"""
    N = m.np
    n, k, l = m.dim("n", 1, 7), m.dim("k", 1, 7), m.dim("l", 1, 9)
    X, G = m.array("X", (n, k), m.kind()), m.array("G", (k, l), "f")
    p = m.choice("power", [0, 1, 2, 3])
    Q, B, T = compute_rqb(X, m.dim("r", 1, 3), m.dim("o", 0, 3), p, G)
    Q2, B2, _ = compute_rqb(X, m.dim("r2", 1, 3), m.dim("o2", 0, 3), p, G, seed=m.choice("seed", [None, 3]))
    m.eq("determined by the test matrix", Q2, Q)
    m.eq("determined by the test matrix", B2, B)
    if p == 0 and m.sym:
        m.eq("columns span the sketch", N.dot(Q, N.dot(Q.conj().T, N.dot(X, G))), N.dot(X, G))


@unit("C16", funcs=["utils.compute_rqb", "utils.compute_rank"], cases=200, bounded="power iterations 0..2 (all shapes, ranks and data)", split=[("power", 3)], timeout=300)
def rqb_seeded(m):
    """drawn test matrix: shape, and reproducible with a seed"""
    N = m.np
    n, k = m.dim("n", 1, 7), m.dim("k", 1, 7)
    X = m.array("X", (n, k), m.kind())
    r, o = m.dim("r", 1, 9), m.dim("o", 0, 4)
    c = m.choice("rank", ["r", "all"])
    p = m.choice("power", [0, 1, 2])
    rr = r if c == "r" else -1
    Q, B, T = compute_rqb(X, rr, o, p, seed=5)
    d = n if n <= k else k
    w = d if c == "all" else (r if r <= d else d)
    m.same("sketch width", T.shape, (k, w + o))
    sketch(m, X, Q, B)
    if not m.sym:
        np.random.seed(m.pr.randrange(10**6))
    Q2, B2, T2 = compute_rqb(X, rr, o, p, seed=5)
    m.eq("reproducible", T2, T)
    m.eq("reproducible", Q2, Q)
    m.eq("reproducible", B2, B)
    Q3, B3, _ = compute_rqb(X, rr, o, p, test_matrix=T)
    m.eq("same as giving the test matrix", Q3, Q)
    m.eq("same as giving the test matrix", B3, B)


def fits(m, d, x, y, r, tl, full):
    """the operator is the least-squares fit of the compressed pair and the modes lift with the full data"""
    N = m.np
    if tl:
        x, y = compute_tlsq(x, y, tl)
    U, s, Vh = N.linalg.svd(x, full_matrices=False)
    p = s.shape[0]
    c = p if r == -1 else (r if r <= p else p)
    U, s, V = U[:, :c], s[:c], Vh[:c].conj().T
    At = d.operator.as_numpy_array
    m.eq("reduced operator", At, N.dot(N.dot(U.conj().T, y), V) / s, tol=1e-6)
    W = d.operator.eigenvectors
    m.eq("reduced eigenpairs", N.dot(At, W), W * d.eigs, tol=1e-6)
    m.eq("modes lifted with the uncompressed data", d.modes, N.dot(N.dot(full, V) / s, W), tol=1e-6)


def keep_conditioned(m, x, r):
    if not m.sym:
        s = np.linalg.svd(x, compute_uv=False)
        c = len(s) if r == -1 else min(r, len(s))
        m.assume(s[c - 1] > 1e-3 * s[0])


@unit("C16", funcs=["cdmd.CDMD.fit", "cdmd.CDMD._compress_snapshots", "utils.compute_tlsq"] + OP, cases=150, split=[("tlsq", 2), ("rank", 2)], weight=2)
def compressed(m):
    """compressed model with a given compression matrix"""
    N = m.np
    quiet(m)
    n, k, c = m.dim("n", 2, 7), m.dim("k", 4, 9), m.dim("c", 1, 7)
    kind = m.kind()
    X, M = m.array("X", (n, k), kind), m.array("C", (c, n), kind)
    tl = m.dim("t", 1, 9) if m.choice("tlsq", [0, 1]) else 0
    r = -1 if m.choice("rank", ["r", "all"]) == "all" else m.dim("r", 1, 4)
    Z = N.dot(M, X)
    keep_conditioned(m, (compute_tlsq(Z[:, :-1], Z[:, 1:], tl)[0]), r)
    d = CDMD(svd_rank=r, tlsq_rank=tl, compression_matrix=M)
    d.fit(X)
    m.eq("compression matrix kept", d.compression_matrix, M)
    fits(m, d, Z[:, :-1], Z[:, 1:], r, tl, X[:, 1:])
    m.eq("snapshots are the uncompressed ones", d.snapshots, X)


@contextlib.contextmanager
def recorded(m):
    """the numbers drawn from numpy's process-wide generator"""
    if m.sym:
        from engine import ix as I

        I.ctx().memo["drawn"] = L = []
        yield L
        return
    L, old = [], {f: getattr(np.random, f) for f in ("uniform", "normal")}

    def wrap(f):
        def g(*a, **k):
            L.append(old[f](*a, **k))
            return L[-1]

        return g

    try:
        for f in old:
            setattr(np.random, f, wrap(f))
        yield L
    finally:
        for f, v in old.items():
            setattr(np.random, f, v)


@unit("C16", funcs=["cdmd.CDMD.fit", "cdmd.CDMD._compress_snapshots"] + OP, cases=150)
def drawn_compression(m):
    """one drawn matrix compresses all snapshots"""
    N = m.np
    quiet(m)
    n, k = m.dim("n", 2, 7), m.dim("k", 4, 9)
    X = m.array("X", (n, k), m.kind())
    how = m.choice("how", ["uniform", "normal"])
    r = -1 if m.choice("rank", ["r", "all"]) == "all" else m.dim("r", 1, 4)
    with recorded(m) as L:
        d = CDMD(svd_rank=r, compression_matrix=how).fit(X)
    if len(L) != 1:
        m.skip("drawn in another way")
    m.same("one column of weights per space point", L[0].shape[1], X.shape[0])
    Z = N.dot(L[0], X)
    keep_conditioned(m, Z[:, :-1], r)
    fits(m, d, Z[:, :-1], Z[:, 1:], r, 0, X[:, 1:])


RD = ["rdmd.RDMD.fit", "rdmd.RDMD._compress_snapshots", "utils.compute_rqb"] + OP


def rd(m):
    quiet(m)
    n, k = m.dim("n", 2, 7), m.dim("k", 4, 9)
    X = m.array("X", (n, k), m.kind())
    r = -1 if m.choice("rank", ["r", "all"]) == "all" else m.dim("r", 1, 4)
    how = m.choice("how", ["seed", "matrix"])
    kw = dict(seed=7) if how == "seed" else dict(test_matrix=m.array("G", (k, m.dim("l", 2, 6)), "f"))
    return X, r, m.dim("o", 0, 3), kw


@unit("C16", funcs=RD, cases=150, split=[("how", 2), ("tlsq", 2)], weight=2, timeout=300)
def randomised(m):
    """randomised model: the compression matrix has orthonormal rows, the model fits the pair it compresses"""
    N = m.np
    X, r, o, kw = rd(m)
    n = X.shape[0]
    m.loop("pydmd.utils:compute_rqb", "for0", lambda v: [("rows", v.Y.shape[0] == n)], fresh=dict(Y=lambda v: m.array("Y", (n, m.dim("w")), "c")))
    tl = m.dim("t", 1, 9) if m.choice("tlsq", [0, 1]) else 0
    d = RDMD(svd_rank=r, oversampling=o, power_iters=m.dim("power", 0, 3), tlsq_rank=tl, **kw).fit(X)
    M = d.compression_matrix
    m.eq("orthonormal rows", N.dot(M, M.conj().T), N.eye(M.shape[0]))
    Z = N.dot(M, X)
    keep_conditioned(m, (compute_tlsq(Z[:, :-1], Z[:, 1:], tl)[0]), r)
    fits(m, d, Z[:, :-1], Z[:, 1:], r, tl, X[:, 1:])
    m.eq("snapshots are the uncompressed ones", d.snapshots, X)


@unit("C16", funcs=RD, cases=150, bounded="power iterations 0..2 (all shapes, ranks and data)", split=[("how", 2), ("power", 3)], timeout=300)
def reproducible(m):
    """the compression is the range of the sketch of the data, the same on every fit"""
    X, r, o, kw = rd(m)
    p = m.choice("power", [0, 1, 2])
    d = RDMD(svd_rank=r, oversampling=o, power_iters=p, **kw).fit(X)
    M = d.compression_matrix
    m.eq("rows come from the sketch", M, compute_rqb(X, r, o, p, kw.get("test_matrix"), kw.get("seed"))[0].conj().T)
    if not m.sym:
        np.random.seed(m.pr.randrange(10**6))
    e = RDMD(svd_rank=r, oversampling=o, power_iters=p, **kw).fit(X)
    m.eq("reproducible", e.modes, d.modes)
    m.eq("reproducible", e.eigs, d.eigs)
    m.eq("reproducible", e.amplitudes, d.amplitudes)


@unit("C16", funcs=["utils.compute_rqb", "rdmd.RDMD.fit"], sym=False, cases=400, bounded="random matrices of rank 1..4, up to 9 x 9")
def exact_range(m):
    """enough columns: the data is reproduced; the same numbers whatever the global generator did"""
    quiet(m)
    n, k = m.dim("n", 2, 9), m.dim("k", 2, 9)
    kind = m.choice("kind", ["f", "c"])
    rk = m.pr.randint(1, min(n, k, 4))
    X = C.cplx(m.rng, (n, rk), kind) @ C.cplx(m.rng, (rk, k), kind)
    p, o = m.choice("power", [0, 1, 2, 4]), m.choice("over", [0, 1, 3, 10])
    seed = m.choice("seed", [None, 0, 3])
    rank = m.choice("rank", [rk, -1, rk + 1, 0.9999999])
    st = np.random.get_state()[1].copy()
    Q, B, T = compute_rqb(X, rank, o, p, seed=seed)
    m.same("global generator untouched", np.random.get_state()[1].copy(), st)
    s = np.linalg.svd(X @ T, compute_uv=False)
    m.assume(T.shape[1] >= rk and s[rk - 1] > 1e-6 * s[0] and np.linalg.svd(X, compute_uv=False)[rk - 1] > 1e-3 * np.linalg.norm(X))
    m.eq("orthonormal", Q.conj().T @ Q, np.eye(Q.shape[1]))
    m.eq("reproduces the data", Q @ B, X)


@unit("C16", funcs=["utils.compute_rqb"], sym=False, cases=300, bounded="random matrices up to 8 x 8 with condition number at most 30, power iterations 0..3")
def power_range(m):
    """the sketch spans the range of (X X^H)^p X T: the power iterations sharpen towards the leading left singular vectors"""
    quiet(m)
    n, k = m.dim("n", 2, 8), m.dim("k", 2, 8)
    kind = m.choice("kind", ["f", "c"])
    q = min(n, k)
    U, V = np.linalg.qr(C.cplx(m.rng, (n, q), kind))[0], np.linalg.qr(C.cplx(m.rng, (k, q), kind))[0]
    X = (U * m.rng.uniform(0.1, 3, q)) @ V.conj().T
    p = m.choice("power", [0, 1, 2, 3])
    r = m.pr.randint(1, q)
    G = C.cplx(m.rng, (k, r), kind) if m.choice("test", [True, False]) else None
    Q, B, T = compute_rqb(X, r, 0, p, G, seed=2)
    Y = np.linalg.matrix_power(X @ X.conj().T, p) @ X @ T
    s = np.linalg.svd(Y, compute_uv=False)
    m.assume(s[-1] > 1e-5 * s[0])
    P = Y @ np.linalg.pinv(Y)
    m.eq("range of the powered sketch", Q @ Q.conj().T, P, tol=1e-6)


@unit("C16", funcs=["utils.compute_tlsq", "dmd.DMD.fit", "cdmd.CDMD.fit"], sym=False, cases=300, bounded="random matrices up to 6 x 9")
def leading(m):
    """the projector is onto the leading directions (independent eigen-decomposition), also through the models"""
    quiet(m)
    n, k = m.dim("n", 2, 5), m.dim("k", 4, 9)
    kind = m.choice("kind", ["f", "c"])
    X, Y = C.cplx(m.rng, (n, k), kind), C.cplx(m.rng, (n, k), kind)
    r = m.pr.randint(1, min(2 * n, k))
    w, V = np.linalg.eigh(X.conj().T @ X + Y.conj().T @ Y)
    m.assume(r == k or w[-r] - w[-r - 1] > 1e-3 * w[-1])
    P = V[:, -r:] @ V[:, -r:].conj().T
    A, B = compute_tlsq(X, Y, r)
    m.eq("first", A, X @ P)
    m.eq("second", B, Y @ P)
    d = DMD(svd_rank=1, tlsq_rank=r, exact=True).fit(X, Y)
    e = DMD(svd_rank=1, exact=True).fit(X @ P, Y @ P)
    m.eq("model", d.eigs, e.eigs, tol=1e-6)
    Z = C.cplx(m.rng, (n, k + 1), kind)
    w, V = np.linalg.eigh(Z[:, :-1].conj().T @ Z[:, :-1] + Z[:, 1:].conj().T @ Z[:, 1:])
    m.assume(r == k or w[-r] - w[-r - 1] > 1e-3 * w[-1])
    P = V[:, -r:] @ V[:, -r:].conj().T
    M = np.eye(n)
    d = CDMD(svd_rank=1, tlsq_rank=r, compression_matrix=M).fit(Z)
    e = DMD(svd_rank=1, exact=True).fit(Z[:, :-1] @ P, Z[:, 1:] @ P)
    m.eq("compressed model", d.eigs, e.eigs, tol=1e-6)


@unit("C16", funcs=["cdmd.CDMD._compress_snapshots", "cdmd.CDMD.fit"], sym=False, cases=150, bounded="linear data of rank 1..3, at most 8 points")
def named_compression(m):
    """every named compression keeps the dynamics of data it does not lose"""
    quiet(m)
    L = C.lin(m, n=m.dim("n", 4, 8), r=m.dim("rk", 1, 3))
    X = L.X
    how = m.choice("how", ["uniform", "normal", "sparse", "sample"])
    m.assume(how != "sample" or X.shape[1] <= X.shape[0])
    d = CDMD(svd_rank=len(L.lam), compression_matrix=how).fit(X)
    C.match(m, "eigenvalues", d.eigs, L.lam, tol=1e-4)
