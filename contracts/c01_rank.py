"""C01: rank truncation."""
import numpy as np

from contracts import common as C
from engine.contract import unit
import pydmd
from pydmd import utils


def spectrum(m, n, k, kind):
    """matrices with interesting singular spectra (concrete); any matrix (deductive)"""
    if m.sym:
        return m.array("X", (n, k), kind)
    return C.spectral_matrix(m, n, k, kind)


@unit("C01", funcs=["utils.compute_svd", "utils._compute_rank", "utils.compute_rank"], cases=150)
def svd_integer(m):
    N = m.np
    n, k = m.dim("n"), m.dim("k")
    X = spectrum(m, n, k, m.kind())
    allr = m.choice("r", ["int", "all", "npint"])
    r = m.dim("r") if allr != "all" else -1
    if allr == "npint":
        r = np.int64(r) if not m.sym else r
    U, s, V = utils.compute_svd(X, r)
    p = n if n <= k else k
    q = p if allr == "all" else (r if r <= p else p)
    m.same("rank", s.shape, (q,))
    m.same("rank query", utils.compute_rank(X, r), q)
    m.same("shapes", (U.shape, V.shape), ((n, q), (k, q)))
    triples(m, X, U, s, V, q)


def triples(m, X, U, s, V, q):
    N = m.np
    m.eq("U orthonormal", N.dot(U.conj().T, U), N.eye(q))
    m.eq("V orthonormal", N.dot(V.conj().T, V), N.eye(q))
    m.eq("U^H X = S V^H", N.dot(U.conj().T, X), s[:, None] * V.conj().T)
    if not m.sym:
        full = np.linalg.svd(X, compute_uv=False)
        m.eq("leading values", s, full[: len(s)], atol=1e-10 * (1 + full[0]))
        # X restricted to the discarded directions has exactly the discarded values
        R = X - U @ np.diag(s) @ V.conj().T
        rest = np.linalg.svd(R, compute_uv=False)
        nxt = full[len(s)] if len(s) < len(full) else 0.0
        m.eq("nothing larger discarded", rest[0], nxt, atol=1e-9 * (1 + full[0]))


@unit("C01", funcs=["utils.compute_svd", "utils._compute_rank", "utils.compute_rank"], cases=200)
def svd_energy(m):
    """fraction: smallest count whose cumulative share reaches it"""
    N = m.np
    n, k = m.dim("n"), m.dim("k")
    X = spectrum(m, n, k, m.kind())
    e = m.scalar("e", lo=1e-3, hi=1 - 1e-3) if m.sym else C.fraction(m, X)
    U, s, V = utils.compute_svd(X, e)
    q = s.shape[0]
    m.same("rank query", utils.compute_rank(X, e), q)
    full = N.linalg.svd(X, full_matrices=False)[1]
    E = full**2
    tot = E.sum()
    m.holds("at least one", q >= 1)
    if m.sym:
        p = full.shape[0]
        m.holds("at most all", q <= p)
        if q > 1:
            m.holds("one fewer is not enough", (E[: q - 1] / tot).sum() < e)
        if q < p:
            m.holds("reaches the share", (E[:q] / tot).sum() >= e)
    else:
        c = np.cumsum(E) / tot
        m.holds("reaches the share", c[q - 1] >= e - 1e-12)
        if q > 1:
            m.holds("one fewer is not enough", c[q - 2] < e + 1e-12)
    m.same("shapes", (U.shape, V.shape), ((n, q), (k, q)))
    triples(m, X, U, s, V, q)


@unit("C01", funcs=["utils.compute_svd", "utils._compute_rank", "utils.compute_rank", "edmd.EDMDOperator._compute_rank_from_svals"], sym=False, cases=80, bounded="equal singular values, 2-8 of them, shares representable in binary")
def exact_share(m):
    """a fraction equal to the share of the first i triples keeps i of them"""
    p = m.choice("p", [2, 4, 8])
    i = m.dim("i", 1, p - 1)
    n, k = p + m.dim("extra", 0, 2), p + m.dim("more", 0, 2)
    X = np.zeros((n, k))
    X[m.rng.permutation(n)[:p], m.rng.permutation(k)[:p]] = m.pr.choice([1.0, 2.0, 0.5])
    full = np.linalg.svd(X, compute_uv=False)
    m.assume(np.array_equal(full[:p], np.full(p, full[0])) and not full[p:].any())
    m.same("rank", int(utils.compute_rank(X, i / p)), i)
    m.same("triples", utils.compute_svd(X, i / p)[1].shape[0], i)
    Z = np.eye(n)[:, m.rng.permutation(n)[:p]]
    m.same("kernel model", len(pydmd.EDMD(svd_rank=i / p).fit(Z, 0.5 * Z).eigs), i)


@unit("C01", funcs=["utils.compute_svd", "utils._svht", "utils.compute_rank"], cases=200)
def svd_optimal(m):
    """0: singular values above the Gavish-Donoho threshold, at least one"""
    N = m.np
    n, k = m.dim("n", 1, 14), m.dim("k", 1, 14)
    X = spectrum(m, n, k, m.kind())
    U, s, V = utils.compute_svd(X, 0)
    q = s.shape[0]
    full = N.linalg.svd(X, full_matrices=False)[1]
    b = n / k if n <= k else k / n
    tau = N.median(full) * (0.56 * b**3 - 0.95 * b**2 + 1.82 * b + 1.43)
    cnt = N.sum(full > tau)
    if m.sym:
        if cnt == 0:
            m.same("rank", q, 1)
        else:
            m.same("rank", q, cnt)
    else:
        if np.abs(full - tau).min() > 1e-9 * (1 + tau):
            m.same("rank", int(q), int(max(1, cnt)))
    m.same("rank query", utils.compute_rank(X, 0), q)
    m.same("shapes", (U.shape, V.shape), ((n, q), (k, q)))
    triples(m, X, U, s, V, q)


@unit("C01", funcs=["dmdoperator.DMDOperator.compute_operator", "dmd.DMD.fit", "cdmd.CDMD.fit", "fbdmd.FbDMD.fit", "hodmd.HODMD.fit", "hankeldmd.HankelDMD.fit", "rdmd.RDMD.fit", "spdmd.SpDMD.fit", "subspacedmd.SubspaceDMD.fit", "optdmd.OptDMD.fit", "edmd.EDMD.fit", "pidmd.PiDMD.fit", "dmdc.DMDc.fit", "bopdmd.BOPDMD.fit", "varprodmd.VarProDMD.fit", "havok.HAVOK.fit", "lando.LANDO.fit"], sym=False, cases=160, bounded="random data up to 12 x 16 and random truncation settings, every model taking svd_rank")
def models_rank(m):
    rec = C.truncating_model(m)
    dmd, ref = rec
    want = int(utils.compute_rank(ref, m.opts["svd_rank"])) if not callable(ref) else ref(dmd)
    got = dmd.modes.shape[1]
    m.same("number of modes", got, want)
    m.same("number of eigenvalues", len(np.atleast_1d(dmd.eigs)), want)
