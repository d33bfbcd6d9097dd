"""C02: eigenpairs of the fitted operator."""
import numpy as np

from contracts import common as C
from engine.contract import unit
from pydmd.dmdoperator import DMDOperator


@unit("C02", funcs=["dmdoperator.DMDOperator.compute_operator", "dmdoperator.DMDOperator._least_square_operator", "dmdoperator.DMDOperator._compute_eigenquantities", "dmdoperator.DMDOperator._compute_modes", "utils.compute_svd"], split=[("exact", 2), ("fb", 2), ("tik", 2)])
def operator(m):
    N = m.np
    n, k = m.dim("n"), m.dim("k")
    kind = m.kind()
    X = m.array("X", (n, k), kind)
    Y = m.array("Y", (n, k), kind)
    exact = m.choice("exact", [False, True])
    fb = m.choice("fb", [False, True])
    tik = m.choice("tik", [None, "v"])
    resc = m.choice("rescale", [None, "auto", "array"])
    r = m.dim("r")
    if tik:
        tik = m.scalar("tik", lo=0.1, hi=1)
    p = n if n <= k else k
    q = r if r <= p else p
    fac = m.array("fac", (q,), pos=True) if resc == "array" else resc
    op = DMDOperator(svd_rank=r, exact=exact, forward_backward=fb, rescale_mode=fac, sorted_eigs=False, tikhonov_regularization=tik)
    U, s, V = op.compute_operator(X, Y)

    def lsq(U, s, V, Y):
        d = s if tik is None else (s**2 + tik * N.linalg.norm(X)) / s
        return N.dot(N.dot(U.conj().T, Y), V) / d

    At = op.as_numpy_array
    A0 = lsq(U, s, V, Y)
    if not fb:
        m.eq("Atilde", At, A0)
    else:
        from pydmd.utils import compute_svd

        bU, bs, bV = compute_svd(Y, q)
        B0 = lsq(bU, bs, bV, X)
        m.eq("fb: At^2 = F B^-1", N.dot(At, At), N.dot(A0, N.linalg.inv(B0)), tol=1e-5)
    lam, W, Phi = op.eigenvalues, op.eigenvectors, op.modes
    if resc is not None:
        f = s if resc == "auto" else fac
        W = N.sqrt(f)[:, None] * W
    m.eq("eigen-equation", N.dot(At, W), W * lam, tol=1e-6)
    if exact:
        d = s if tik is None else (s**2 + tik * N.linalg.norm(X)) / s
        m.eq("exact modes", Phi, N.dot(N.dot(Y, V) / d, W), tol=1e-6)
    else:
        m.eq("projected modes", Phi, N.dot(U, W), tol=1e-6)
    if exact and not fb and tik is None:
        A = N.dot(N.dot(Y, V) / s, U.conj().T)
        m.eq("full operator", N.dot(A, Phi), Phi * lam, tol=1e-5)


@unit("C02", name="compressed", funcs=["cdmd.CDMDOperator.compute_operator", "dmdoperator.DMDOperator._least_square_operator", "dmdoperator.DMDOperator._compute_eigenquantities", "dmdoperator.DMDOperator._compute_modes"], con=False, split=[("fb", 2), ("tik", 2), ("rescale", 2)])
def compressed(m):
    """the compressed operator: least-squares formula on the compressed pair, modes lifted from the uncompressed successors"""
    from pydmd.cdmd import CDMDOperator
    from pydmd.utils import compute_svd

    C.quiet(m)
    N = m.np
    n, k, p, r = m.dim("n"), m.dim("k"), m.dim("p"), m.dim("r")
    cX, cY, Y = m.array("cX", (p, k), "c"), m.array("cY", (p, k), "c"), m.array("Y", (n, k), "c")
    tik = m.scalar("tik", lo=0.1, hi=1) if m.choice("tik", [0, 1]) else None
    fb, resc = m.choice("fb", [False, True]), m.choice("rescale", [None, "auto"])
    op = CDMDOperator(svd_rank=r, rescale_mode=resc, forward_backward=fb, sorted_eigs=False, tikhonov_regularization=tik)
    U, s, V = op.compute_operator(cX, cY, Y)
    eU, es, eV = compute_svd(cX, r)
    m.eq("left vectors", U, eU)
    m.eq("singular values", s, es)

    def lsq(U, s, V, Z):
        d = s if tik is None else (s**2 + tik * N.linalg.norm(cX)) / s
        return N.dot(N.dot(U.conj().T, Z), V) / d

    At, A0 = op.as_numpy_array, lsq(U, s, V, cY)
    if fb:
        bU, bs, bV = compute_svd(cY, s.shape[0])
        m.eq("fb: At^2 = F B^-1", N.dot(At, At), N.dot(A0, N.linalg.inv(lsq(bU, bs, bV, cX))))
    else:
        m.eq("Atilde", At, A0)
    lam, W = op.eigenvalues, op.eigenvectors
    if resc is not None:
        W = N.sqrt(s)[:, None] * W
    m.eq("eigen-equation", N.dot(At, W), W * lam)
    d = s if tik is None else (s**2 + tik * N.linalg.norm(cX)) / s
    m.eq("modes", op.modes, N.dot(N.dot(Y, V) / d, W))


@unit("C02", name="subspace", funcs=["subspacedmd.SubspaceDMDOperator.compute_operator", "subspacedmd.SubspaceDMDOperator._compute_modes"], con=False, split=[("rescale", 2)])
def subspace(m):
    """the subspace operator: successors of the leading directions of the future projected on the past"""
    from pydmd.subspacedmd import SubspaceDMDOperator

    C.quiet(m)
    N = m.np
    n, k, r = m.dim("n"), m.dim("k"), m.dim("r")
    Yp, Yf = m.array("Yp", (2 * n, k), "c"), m.array("Yf", (2 * n, k), "c")
    resc = m.choice("rescale", [None, "auto"])

    def reduced(X, r=None):
        U, s, V = N.linalg.svd(X, full_matrices=False)
        r = N.linalg.matrix_rank(X) if r is None else r
        return U[:, :r], s[:r], V.conj().T[:, :r]

    m.stub("pydmd.subspacedmd:reducedsvd", reduced, "the leading singular triples, as many as the rank (checked concretely by reduced below)")
    op = SubspaceDMDOperator(svd_rank=r, rescale_mode=resc, sorted_eigs=False)
    op.compute_operator(Yp, Yf)
    At, lam, W = op.as_numpy_array, op.eigenvalues, op.eigenvectors
    q = At.shape[0]
    m.holds("rank", q <= r)
    m.holds("rank of the space", q <= n)
    V = reduced(Yp)[2]
    O = N.dot(N.dot(Yf, V), V.conj().T)
    Uq = reduced(O)[0]
    k_ = N.linalg.matrix_rank(O)
    k_ = k_ if k_ <= n else n
    k_ = k_ if k_ <= r else r
    U1, U2 = Uq[:n, :k_], Uq[n:, :k_]
    U, S, V = reduced(U1)
    m.eq("Atilde", At, N.dot(N.dot(U.conj().T, U2), V) / S)
    if resc is not None:
        W = N.sqrt(S)[:, None] * W
    m.eq("eigen-equation", N.dot(At, W), W * lam)
    m.eq("modes", op.modes, N.dot(N.dot(U2, V) / S, W) / lam)


@unit("C02", name="reduced", funcs=["subspacedmd.reducedsvd"], sym=False, cases=60, bounded="random matrices up to 9 x 9 of any rank")
def reduced(m):
    from pydmd.subspacedmd import reducedsvd

    n, k = m.dim("n", 2, 9), m.dim("k", 2, 9)
    r = m.dim("r", 1, 9)
    kind = m.kind()
    X = C.cplx(m.rng, (n, r), kind) @ C.cplx(m.rng, (r, k), kind)
    q = min(n, k, r)
    if m.choice("given", [False, True]):
        j = m.dim("j", 1, 9)
        U, s, V = reducedsvd(X, j)
        m.holds("size given", U.shape[1] == min(j, n) and len(s) == min(j, n, k) and V.shape[1] == min(j, k))
        q = min(j, q)
        U, s, V = U[:, :q], s[:q], V[:, :q]
    else:
        U, s, V = reducedsvd(X)
        m.holds("as many as the rank", U.shape == (n, q) and s.shape == (q,) and V.shape == (k, q))
        m.eq("all of the matrix", (U * s) @ V.conj().T, X, 1e-8)
    m.eq("singular values", s, np.linalg.svd(X, compute_uv=False)[:q], 1e-8)
    m.eq("triples", X @ V, U * s, 1e-8)
    m.eq("orthonormal", U.conj().T @ U, np.eye(q), 1e-8)


@unit("C02", name="every_model", funcs=["dmd.DMD.fit", "fbdmd.FbDMD.fit", "cdmd.CDMD.fit", "rdmd.RDMD.fit", "hankeldmd.HankelDMD.fit", "hodmd.HODMD.fit", "spdmd.SpDMD.fit", "subspacedmd.SubspaceDMD.fit", "utils.compute_tlsq"], sym=False, cases=400, bounded="random data (4..9 points, 8..14 snapshots) and options of every linear model")
def every_model(m):
    """public fit of every linear model: eigen-equation, least-squares operator and lift on the documented snapshot pair"""
    rec = C.model(m, ["DMD", "FbDMD", "CDMD", "RDMD", "HankelDMD", "SpDMD", "SubspaceDMD"])
    args = rec.data()
    d = rec.make()
    try:
        d.fit(*args)
    except (np.linalg.LinAlgError, ValueError):
        m.skip("not fitted")
    op, o = d.operator, rec.opts
    At = op.as_numpy_array
    W = op.eigenvectors
    m.assume(np.abs(op.eigenvalues).min() > 1e-3)
    if rec.name == "SubspaceDMD":
        resc = None
        if o.get("rescale_mode") is not None:
            return
        m.eq("eigen-equation", At @ W, W * op.eigenvalues, 1e-6)
        return
    S = d.ho_snapshots if rec.name == "HankelDMD" else d.snapshots
    if len(args) > 1 and rec.name in ("DMD", "FbDMD"):
        Xf, Yf = S, d.snapshots_y
    else:
        Xf, Yf = S[:, :-1], S[:, 1:]
    X, Y = Xf, Yf
    if rec.name in ("CDMD", "RDMD"):
        c = d.compression_matrix
        if not isinstance(c, np.ndarray):
            m.skip("random compression")
        X, Y = c @ X, c @ Y
    t = o.get("tlsq_rank", 0)
    if t:
        V = np.linalg.svd(np.vstack([X, Y]), full_matrices=False)[2][:t]
        X, Y = X @ V.conj().T @ V, Y @ V.conj().T @ V
        if rec.name not in ("CDMD", "RDMD"):
            Yf = Y
    q = At.shape[0]

    def triples(Z):
        U, s, Vh = np.linalg.svd(Z, full_matrices=False)
        return U[:, :q], s[:q], Vh[:q].conj().T

    tik = o.get("tikhonov_regularization")
    nX = np.linalg.norm(X)
    dd = lambda s: s if tik is None else (s**2 + tik * nX) / s
    lsq = lambda U, s, V, Z: U.conj().T @ Z @ V / dd(s)
    U, s, V = triples(X)
    m.assume(s[-1] > 1e-6 * s[0])
    full = np.linalg.svd(X, compute_uv=False)
    m.assume(len(full) == q or s[-1] - full[q] > 1e-4 * s[0])
    A0 = lsq(U, s, V, Y)
    if o.get("forward_backward") or rec.name == "FbDMD":
        bU, bs, bV = triples(Y)
        m.assume(bs[-1] > 1e-6 * bs[0])
        B0 = lsq(bU, bs, bV, X)
        m.assume(np.linalg.cond(B0) < 1e6 and np.linalg.cond(At) < 1e6)
        m.eq("spectrum of the squared operator", np.poly(At @ At), np.poly(A0 @ np.linalg.inv(B0)), 1e-4)
    else:
        m.eq("spectrum", np.poly(At), np.poly(A0), 1e-5)
        # coordinates differ by the phases of the singular vectors: compare the operator in space
        U_ = getattr(d, "_svd_modes", None)
    resc = o.get("rescale_mode")
    if resc is not None:
        f = s if isinstance(resc, str) else np.asarray(resc)
        W = np.sqrt(f)[:, None] * W
    m.eq("eigen-equation", At @ W, W * op.eigenvalues, 1e-5)
    exact = o.get("exact", rec.name in ("CDMD", "RDMD", "SpDMD"))
    P = Yf @ V / dd(s) if exact else U
    Phi = op.modes
    # the lift of any eigenvector lies in the span and has its eigenvalue there
    m.eq("span of the modes", P @ np.linalg.lstsq(P, Phi, rcond=None)[0], Phi, 1e-5)
    if not (o.get("forward_backward") or rec.name == "FbDMD"):
        c = np.linalg.lstsq(P, Phi, rcond=None)[0]
        m.assume(np.linalg.cond(P) < 1e6)
        m.eq("lift", A0 @ c, c * op.eigenvalues, 1e-4)
