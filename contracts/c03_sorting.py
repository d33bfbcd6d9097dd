"""C03: sorting only permutes."""
import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
import pydmd
from pydmd import DMD
from pydmd.bopdmd import BOPDMDOperator
from pydmd.dmdoperator import DMDOperator


@unit("C03", funcs=["dmdoperator.DMDOperator._compute_eigenquantities", "dmdoperator.DMDOperator.compute_operator", "dmdoperator.DMDOperator._compute_modes"], cases=300, split=[("key", 2), ("exact", 2)], weight=2)
def operator(m):
    """sorted and unsorted operators: same triples, sorted by the key"""
    N = m.np
    n, k = m.dim("n"), m.dim("k")
    kind = m.kind()
    X, Y = m.array("X", (n, k), kind), m.array("Y", (n, k), kind)
    r = m.dim("r")
    key = m.choice("key", ["abs", "real"])
    kw = dict(svd_rank=r, exact=m.choice("exact", [False, True]), forward_backward=False, rescale_mode=m.choice("rescale", [None, "auto"]), tikhonov_regularization=None)
    a = DMDOperator(sorted_eigs=key, **kw)
    b = DMDOperator(sorted_eigs=False, **kw)
    a.compute_operator(X, Y)
    b.compute_operator(X, Y)
    lam = a.eigenvalues
    q = lam.shape[0]
    m.same("count", q, b.eigenvalues.shape[0])
    check_sorted(m, key, lam)
    # the same set of (eigenvalue, eigenvector, mode) triples
    triples_equal(m, a, b)
    m.eq("eigen-equation", scaled(m, a, N.dot(a.as_numpy_array, scaled(m, a, a.eigenvectors))), scaled(m, a, scaled(m, a, a.eigenvectors * lam)), tol=1e-6)
    m.eq("Lambda", a.Lambda, lam)


def scaled(m, op, W):
    """eigenvectors of the unscaled operator"""
    f = op._rescale_mode
    return W if f is None else m.np.sqrt(f)[:, None] * W


def check_sorted(m, key, lam):
    N = m.np
    q = lam.shape[0]
    if m.sym:
        i = m.dim("i", 0, 6)
        m.assume(i + 1 < q)
    elif q < 2:
        return
    else:
        i = N.arange(q - 1)
    x, y = lam[i], lam[i + 1]
    if key == "abs":
        m.holds("non-decreasing magnitude", N.abs(x) <= N.abs(y) + (0 if m.sym else 1e-12))
    else:
        m.holds("non-decreasing real part", N.real(x) <= N.real(y))
        if not m.sym:
            m.holds("ties by imaginary part", (N.imag(x) <= N.imag(y)) | (N.real(x) < N.real(y)))
        elif N.real(x) == N.real(y):
            m.holds("ties by imaginary part", N.imag(x) <= N.imag(y))


def triples_equal(m, a, b):
    """equality of the sets of triples: every symmetric function agrees; here
    sum_i lam_i^p W_i x M_i (outer products) for every power p"""
    N = m.np
    p = m.dim("p", 0, 5)

    def S(op):
        lam, W, M = op.eigenvalues, op.eigenvectors, op.modes
        return N.dot(W * (lam**p)[None], M.conj().T)

    m.eq("same triples", S(a), S(b), tol=1e-6)


@unit("C03", funcs=["dmd.DMD.fit", "dmdoperator.DMDOperator._compute_eigenquantities", "dmdbase.DMDBase._compute_amplitudes", "dmdbase.DMDBase.dynamics"], sym=False, cases=500, bounded="random data and options; sizes 4..9 x 8..14")
def every_model(m):
    """sorted and unsorted fits of every model: the same triples and reconstruction"""
    name = m.choice("model", ["DMD", "FbDMD", "CDMD", "RDMD", "SubspaceDMD", "HankelDMD", "HODMD", "SpDMD"])
    rec = C.MODELS[name](m)
    key = m.choice("key", ["abs", "real"])
    args = rec.data()
    rec.opts["sorted_eigs"] = key
    a = rec.make()
    rec.opts["sorted_eigs"] = False
    b = rec.make()
    a.fit(*args)
    b.fit(*args)
    m.assume(np.linalg.cond(b.modes) < 1e7)
    lam = np.asarray(a.eigs).astype(complex)
    k = np.abs(lam) if key == "abs" else lam.real
    m.holds("sorted", (np.diff(k) >= -1e-12).all(), f"{lam}")
    lb = np.asarray(b.eigs).astype(complex)
    if key == "real" and len(set(lb.real)) == len(np.unique(lb.real)):
        m.holds("ties by imaginary part", all(x.real < y.real or x.imag <= y.imag for x, y in zip(lam, lam[1:])), f"{lam}")
    m.same("count", len(lam), len(lb))
    gap = min([abs(x - y) for i, x in enumerate(lb) for y in lb[:i]] or [1])
    m.assume(gap > 1e-8)
    p = [int(np.argmin(np.abs(lb - z))) for z in lam]
    m.same("permutation", sorted(p), list(range(len(lb))))
    m.eq("eigs", lam, lb[p])
    sparse = name == "SpDMD"
    m.eq("modes", a.modes, b.modes[:, p], tol=1e-6)
    m.eq("eigenvectors", a.operator.eigenvectors, b.operator.eigenvectors[:, p], tol=1e-6)
    m.eq("amplitudes", a.amplitudes, b.amplitudes[p], tol=1e-5, atol=1e-9)
    m.eq("dynamics", a.dynamics, b.dynamics[p], tol=1e-5, atol=1e-9)
    m.eq("reconstruction", a.reconstructed_data, b.reconstructed_data, tol=1e-5)


@unit("C03", funcs=["dmdoperator.DMDOperator._compute_eigenquantities"], sym=False, cases=200, bounded="given spectra with exact ties in magnitude or real part, up to 8 eigenvalues")
def ties(m):
    """spectra with exactly equal real parts or magnitudes"""
    q = m.dim("q", 2, 8)
    key = m.choice("key", ["abs", "real"])
    re = m.rng.choice([-1.0, 0.0, 0.5, 0.5, 2.0], q)
    im = m.rng.choice([-2.0, -1.0, 0.0, 1.0, 3.0], q)
    op = DMDOperator(svd_rank=-1, exact=False, forward_backward=False, rescale_mode=None, sorted_eigs=key, tikhonov_regularization=None)
    op._Atilde = np.diag(re + 1j * im)
    op._compute_eigenquantities()
    lam, W = op.eigenvalues, op.eigenvectors
    k = [(abs(z),) if key == "abs" else (z.real, z.imag) for z in lam]
    m.holds("lexicographic order", all(x <= y for x, y in zip(k, k[1:])), f"{lam}")
    m.eq("eigen-equation", op._Atilde @ W, W * lam)
    m.same("same multiset", sorted([(z.real, z.imag) for z in lam]), sorted(zip(re, im)))
    m.holds("eigenvectors span", np.linalg.matrix_rank(W) == q)


@unit("C03", funcs=["dmdoperator.DMDOperator._compute_eigenquantities", "varprodmd.VarProOperator.compute_operator"], sym=False, cases=30, bounded="one unknown key per model, random data")
def unknown_key(m):
    name = m.choice("model", ["DMD", "FbDMD", "CDMD", "RDMD", "SpDMD", "SubspaceDMD", "HankelDMD", "HODMD", "VarProDMD"])
    key = m.choice("key", ["foo", "ABS", "imaginary", "re"])
    X = C.noisy(m, nmin=4, ntmin=8)
    kw = dict(svd_rank=2, sorted_eigs=key)

    def run():
        d = getattr(pydmd, name)(**kw)
        d.fit(X, np.arange(X.shape[1]) * 1.0) if name == "VarProDMD" else d.fit(X)

    m.raises("unknown key rejected", ValueError, run)


def bop_operator(**kw):
    args = dict(compute_A=False, use_proj=True, init_alpha=None, proj_basis=None, num_trials=0, trial_size=0.6, eig_sort="auto", eig_constraints=None, mode_prox=None, remove_bad_bags=False, bag_warning=100, bag_maxfail=200)
    args.update(kw)
    return BOPDMDOperator(**args)


@unit("C03", funcs=["bopdmd.BOPDMDOperator._argsort_eigenvalues"], cases=200)
def bagging_order(m):
    """the order used to align bagging trials is a permutation sorted by the key"""
    N = m.np
    q = m.dim("q", 2, 7)
    e = m.array("e", (q,), "c")
    if not m.sym and m.choice("tie", [False, True]):
        e = m.rng.choice([0.0, 1.0, -1.0], q) + 1j * m.rng.choice([0.0, 2.0, -1.0], q)
    key = m.choice("key", ["real", "imag", "abs"])
    op = bop_operator(eig_sort=key)
    p = op._argsort_eigenvalues(e)
    s = e[p]
    m.eq("permutation", N.sum(s), N.sum(e))
    if not m.sym:
        m.same("each index once", sorted(p.tolist()), list(range(q)))
    if m.sym:
        i = m.dim("i", 0, 6)
        m.assume(i + 1 < q)
        x, y = s[i], s[i + 1]
    else:
        x, y = s[:-1], s[1:]
    k = {"real": N.real, "imag": N.imag, "abs": N.abs}[key]
    k2 = {"real": N.imag, "imag": N.real}.get(key)
    if key == "abs":
        m.holds("sorted", k(x) <= k(y))
    elif m.sym:
        m.holds("sorted", k(x) <= k(y))
        if k(x) == k(y):
            m.holds("ties", k2(x) <= k2(y))
    else:
        m.holds("sorted", (k(x) < k(y)) | ((k(x) == k(y)) & (k2(x) <= k2(y))))


@unit("C03", funcs=["bopdmd.BOPDMDOperator._argsort_eigenvalues", "varprodmd.VarProOperator.compute_operator"], sym=False, cases=60, bounded="random spectra / random exponential data")
def bagging_auto(m):
    """'auto' takes the quantity with the largest variance; VarPro sorts by decreasing magnitude of the
    quantity and keeps eigenvalue, mode and amplitude together"""
    if m.choice("what", ["bop", "varpro"]) == "bop":
        q = m.dim("q", 2, 7)
        e = m.rng.standard_normal(q) * m.pr.choice([0.1, 1, 5]) + 1j * m.rng.standard_normal(q) * m.pr.choice([0.1, 1, 5])
        op = bop_operator(eig_sort="auto")
        s = e[op._argsort_eigenvalues(e)]
        ks = [s.real, s.imag, np.abs(s)]
        k = ks[int(np.argmax([np.var(x) for x in ks]))]
        m.holds("sorted by the quantity of largest variance", (np.diff(k) >= 0).all())
        return
    n, nt = m.dim("n", 4, 6), m.dim("nt", 12, 18)
    t = np.sort(m.rng.random(nt)) * 2 + 0.15 * np.arange(nt)
    w = np.array([-0.1 + 2j, -0.3 - 1j, 0.05 + 0.4j])
    P = C.cplx(m.rng, (n, 3), "c")
    X = P @ np.exp(np.outer(w, t))
    key = m.choice("key", ["real", "imag", "abs"])
    ex = m.choice("exact", [False, True])
    a = pydmd.VarProDMD(svd_rank=3, sorted_eigs=key, exact=ex)
    b = pydmd.VarProDMD(svd_rank=3, sorted_eigs=False, exact=ex)
    a.fit(X, t)
    b.fit(X, t)
    f = {"real": lambda z: np.abs(z.real), "imag": lambda z: np.abs(z.imag), "abs": np.abs}[key]
    m.holds("decreasing", (np.diff(f(a.eigs)) <= 1e-12).all(), f"{a.eigs}")
    p = [int(np.argmin(np.abs(b.eigs - z))) for z in a.eigs]
    m.same("permutation", sorted(p), [0, 1, 2])
    m.eq("eigs", a.eigs, b.eigs[p])
    m.eq("modes", a.modes, b.modes[:, p])
    m.eq("amplitudes", a.amplitudes, b.amplitudes[p])
    m.eq("reconstruction", a.forecast(t), b.forecast(t))
