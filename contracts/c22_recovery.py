"""C22: linear dynamics is recovered exactly by every linear model."""
import os
import tempfile

import numpy as np

from contracts import common as C
from engine.contract import unit
import pydmd
from pydmd import DMD, CDMD, EDMD, FbDMD, HankelDMD, HODMD, MrDMD, OptDMD, PiDMD, RDMD, SpDMD, SubspaceDMD

D, O = "dmd.DMD.", "dmdoperator.DMDOperator."


def build(m, name, L):
    """a model of the given kind whose rank suffices for the system"""
    r, n = L.r, L.n
    exact = m.choice("exact", [False, True])
    # optimal amplitudes of projected modes: known finding of C04
    opt = m.choice("opt", [False, True]) if exact or name in ("CDMD", "RDMD", "SubspaceDMD", "EDMD") else False
    common = dict(svd_rank=r, opt=opt)
    if name == "DMD":
        return DMD(exact=exact, sorted_eigs=m.choice("sort", [False, "abs", "real"]), rescale_mode=m.choice("rescale", [None, "auto"]), tlsq_rank=m.choice("tlsq", [0, r]), **common)
    if name == "FbDMD":
        return FbDMD(exact=exact, **common)
    if name == "CDMD":
        k = m.choice("compression", ["normal", "uniform", "matrix"])
        if k == "matrix":
            k = m.rng.standard_normal((m.dim("rows", r, n + 2), n))
        elif r > n:
            m.skip("not enough rows")
        return CDMD(compression_matrix=k, **common)
    if name == "RDMD":
        return RDMD(oversampling=m.choice("over", [2, 10]), power_iters=m.choice("power", [0, 1, 2]), seed=3, **common)
    if name == "HankelDMD":
        return HankelDMD(d=m.choice("d", [1, 2, 3]), exact=exact, reconstruction_method=m.choice("method", ["first", "mean"]), **common)
    if name == "HODMD":
        return HODMD(d=m.choice("d", [1, 2, 3]), exact=exact, svd_rank_extra=m.choice("extra", [r, 1 - 1e-13]), reconstruction_method=m.choice("method", ["first", "mean"]), **common)
    if name == "SpDMD":
        return SpDMD(gamma=m.choice("gamma", [0.0, 1e-12]), exact=True, verbose=False, max_iterations=4000, abs_tolerance=1e-10, rel_tolerance=1e-10, svd_rank=r, opt=True)
    if name == "SubspaceDMD":
        return SubspaceDMD(**common)
    if name == "OptDMD":
        return OptDMD(svd_rank=r, factorization=m.choice("factorization", ["evd", "svd"]))
    if name == "EDMD":
        return EDMD(kernel_metric="linear", svd_rank=r, opt=opt)
    if name == "PiDMD":
        return PiDMD(manifold="unrestricted", **common)
    return MrDMD(DMD(svd_rank=r), max_level=0, max_cycles=10**6)


NAMES = ["DMD", "FbDMD", "CDMD", "RDMD", "HankelDMD", "HODMD", "SpDMD", "SubspaceDMD", "OptDMD", "EDMD", "MrDMD"]
FUNCS = [D + "fit", D + "predict", O + "compute_operator", "cdmd.CDMD.fit", "rdmd.RDMD.fit", "hankeldmd.HankelDMD.fit", "hodmd.HODMD.fit", "spdmd.SpDMD.fit", "subspacedmd.SubspaceDMD.fit", "optdmd.OptDMD.fit", "optdmd.OptDMD.predict", "edmd.EDMD.fit", "mrdmd.MrDMD.fit", "dmdbase.DMDBase.reconstructed_data"]


def system(m, name):
    kind = "f" if name == "EDMD" else m.choice("kind", ["f", "c"])
    if name == "FbDMD":  # several modes: known finding, see forward_backward below
        L = C.lin(m, kind=kind, nmin=4, r=1)
        m.assume(L.lam.real.min() > 0.1)
        return L
    return C.lin(m, kind=kind, nmin=4)


@unit("C22", name="recovers", funcs=FUNCS, sym=False, cases=500, bounded="systems with at most 4 modes in at most 9 dimensions, 6-20 snapshots")
def recovers(m):
    """eigenvalues, snapshots and the following snapshots, in any unit, order of the space points and phase"""
    name = m.choice("model", NAMES)
    L = system(m, name)
    unit_ = m.choice("unit", [1.0, 1e-4, 1e5] if name == "SpDMD" else [1.0, 1e-13, 1e-4, 1e5])
    perm = np.argsort(m.rng.random(L.n)) if m.choice("reorder", [False, True]) else np.arange(L.n)
    phase = np.exp(1j * m.pr.uniform(0, 6)) if L.kind == "c" and m.choice("phase", [False, True]) else 1.0
    f = lambda t: unit_ * phase * L.at(t)[perm]
    X = f(np.arange(L.nt))
    d = build(m, name, L)
    if name == "HankelDMD" or name == "HODMD":
        d.fit(X)
    else:
        d.fit(X)
    tol = 1e-4 if name in ("SpDMD", "RDMD", "MrDMD") else 1e-5
    if name == "OptDMD":
        if d.factorization == "svd":
            m.eq("maps every snapshot to the next", d.predict(X[:, :-1]), X[:, 1:].astype(complex), tol)
            return
        C.match(m, "eigenvalues", d.eigs, L.lam, tol)
        m.eq("maps every snapshot to the next", d.predict(X[:, :-1]), X[:, 1:].astype(complex), tol)
        return
    if name == "MrDMD":
        w = np.concatenate([np.atleast_1d(z) for z in [d.eigs]]) if hasattr(d, "eigs") else np.zeros(0)
        m.eq("reconstruction", d.reconstructed_data, X.astype(complex), 1e-3)
        return
    C.match(m, "eigenvalues", d.eigs, L.lam, tol)
    m.eq("reconstruction", d.reconstructed_data, X.astype(complex), tol)
    more = m.dim("more", 1, 4)
    d.dmd_time["tend"] = L.nt - 1 + more
    m.eq("following snapshots", d.reconstructed_data[:, L.nt :], f(L.nt + np.arange(more)).astype(complex), 10 * tol)
    if name in ("DMD",):
        m.eq("prediction", d.predict(X[:, :-1]), X[:, 1:].astype(complex), tol)
        m.eq("prediction of the last", d.predict(X[:, -1:]), f(np.array([L.nt])).astype(complex), tol)
        z = L.Phi[perm] @ m.rng.standard_normal((L.r, 2))
        A = L.Phi[perm] @ np.diag(L.lam) @ np.linalg.pinv(L.Phi[perm])
        m.eq("prediction of any state", d.predict(z), A @ z, tol)


@unit("C22", name="pairs", funcs=[D + "fit", "optdmd.OptDMD.fit", "dmdc.DMDc.fit"], sym=False, cases=80, bounded="systems with at most 4 modes")
def pairs(m):
    """unordered snapshot pairs of one linear map suffice; control inputs are separated from the dynamics"""
    L = C.lin(m, nmin=4)
    Z = L.Phi @ C.cplx(m.rng, (L.r, L.r + m.dim("extra", 1, 6)), "c")
    A = L.Phi @ np.diag(L.lam) @ np.linalg.pinv(L.Phi)
    name = m.choice("model", ["DMD", "OptDMD"])
    if name == "OptDMD":
        d = OptDMD(svd_rank=L.r).fit(Z, A @ Z)
    else:
        d = DMD(svd_rank=L.r, exact=m.choice("exact", [True, False])).fit(Z, A @ Z)
    C.match(m, "eigenvalues", d.eigs, L.lam, 1e-5)
    m.eq("prediction", d.predict(Z), A @ Z, 1e-5)


@unit("C22", name="forward_backward", funcs=[O + "compute_operator"], sym=False, cases=12, bounded="demonstration of the known finding on random systems")
def forward_backward(m):
    """known finding: the forward and the backward operator refer to different bases, so that their quotient is
    not the square of the generating map (pinned by the reference file of tests/test_fbdmd.py)"""
    L = C.lin(m, nmin=4, r=2)
    m.assume(L.lam.real.min() > 0.1)
    d = FbDMD(svd_rank=2).fit(L.X)
    C.match(m, "eigenvalues", d.eigs, L.lam, 1e-5)


@unit("C22", name="saved", funcs=["dmdbase.DMDBase.save", "dmdbase.DMDBase.load"], sym=False, cases=120, bounded="random data and options of every model of the registry that can be saved")
def saved(m):
    """a saved and loaded model has the same outputs"""
    name = m.choice("model", ["DMD", "FbDMD", "CDMD", "RDMD", "HankelDMD", "HODMD", "SpDMD", "SubspaceDMD", "OptDMD", "EDMD", "PiDMD", "DMDc", "BOPDMD", "VarProDMD", "MrDMD"])
    rec = C.MODELS[name](m)
    d = rec.make()
    try:
        d.fit(*rec.data())
    except (ValueError, np.linalg.LinAlgError):
        m.skip("not fitted")
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t, "model" + m.choice("suffix", ["", ".pkl"]))
        d.save(f)
        e = type(d).load(f)
    m.holds("type", type(e) is type(d))
    C.same_outputs(m, "outputs", C.outputs(d), C.outputs(e))


@unit("C22", name="conjugation", funcs=[O + "compute_operator", D + "fit"], con=False, split=[("exact", 2)])
def conjugation(m):
    """pairs of any linear map A: the fitted operator is the compression of A to the kept directions, modes and eigenvalues
    are eigenpairs of that compression, the prediction of A's action follows"""
    C.quiet(m)
    N = m.np
    n, k, r = m.dim("n"), m.dim("k", 2), m.dim("r")
    m.assume(r <= n)
    m.assume(r <= k)
    X, A = m.array("X", (n, k), "c"), m.array("A", (n, n), "c")
    exact = m.choice("exact", [False, True])
    d = DMD(svd_rank=r, exact=exact).fit(X, A @ X)
    U = N.linalg.svd(X, full_matrices=False)[0][:, :r]
    m.eq("compression", d.operator.as_numpy_array, U.conj().T @ A @ U)
    if not exact:
        m.eq("eigenpairs", U.conj().T @ A @ d.modes, (U.conj().T @ d.modes) * d.eigs[None, :])
    else:
        m.eq("eigenpairs", U.conj().T @ d.modes, d.operator.eigenvectors * d.eigs[None, :])


@unit("C22", name="generated", funcs=[D + "fit", D + "predict", O + "compute_operator", O + "_compute_modes", O + "_compute_eigenquantities", "dmdbase.DMDBase.dynamics", "dmdbase.DMDBase.reconstructed_data", "dmdbase.DMDBase._compute_amplitudes"], con=False, split=[("exact", 2), ("rescale", 2)])
def generated(m):
    """snapshots X of any rank r, Y = A X with an invertible diagonalisable A on the column space: the fitted operator is A in coordinates,
    modes and eigenvalues are eigenpairs of A itself, predict applies A, the reconstruction starts at the first snapshot and
    follows A from every instant to the next"""
    C.quiet(m)
    N = m.np
    n, k, r = m.dim("n"), m.dim("k", 2), m.dim("r")
    m.assume(r <= n)
    m.assume(r <= k)
    U = N.linalg.svd(m.array("G", (n, r), "c"), full_matrices=False)[0]
    V = N.linalg.svd(m.array("H", (k, r), "c"), full_matrices=False)[0]
    s = m.array("s", (r,), pos=True)
    T_ = m.array("T", (r, r), "c")
    X = (U * s[None, :]) @ V.conj().T
    Y = U @ T_ @ (s[:, None] * V.conj().T)
    exact = m.choice("exact", [False, True])
    rescale = m.choice("rescale", [None, "auto"])
    m.stub("pydmd.dmdoperator:compute_svd", lambda A, svd_rank=0: (U, s, V), "C01: the singular triplets of a matrix of rank r, truncated at r")
    d = DMD(svd_rank=r, exact=exact, rescale_mode=rescale).fit(X, Y)
    m.eq("coordinates", d.operator.as_numpy_array, T_)
    lam, Phi = d.eigs, d.modes
    A = U @ T_ @ U.conj().T
    m.eq("eigenpairs", A @ Phi, Phi * lam[None, :])
    # A is diagonalisable and invertible there: the modes are a basis of the column space
    m.independent_columns(Phi)
    m.in_span(Phi, U)
    c = m.array("c", (r, m.dim("q")), "c")
    m.eq("prediction", d.predict(Phi @ c), A @ (Phi @ c))
    R = d.reconstructed_data
    m.eq("first snapshot", R[:, 0], X[:, 0])
    t = C.idx(m, "t", k - 1)
    m.eq("next snapshot", R[:, t + 1], A @ R[:, t])


@unit("C22", name="compressed", funcs=["cdmd.CDMDOperator.compute_operator", O + "_compute_modes", O + "_compute_eigenquantities"], con=False, split=[("rescale", 2)])
def compressed(m):
    """any compression that keeps the column space: the eigenvalues and the uncompressed modes are those of A itself"""
    from pydmd.cdmd import CDMDOperator

    C.quiet(m)
    N = m.np
    n, k, r, p = m.dim("n"), m.dim("k", 2), m.dim("r"), m.dim("p")
    m.assume(r <= n)
    m.assume(r <= k)
    m.assume(r <= p)
    U0 = m.array("U0", (n, r), "c")
    T_ = m.array("T", (r, r), "c")
    Cm = m.array("C", (p, n), "c")
    P, R = N.linalg.qr(Cm @ U0)
    Ri = N.linalg.inv(R)
    Q = N.linalg.svd(m.array("H", (k, r), "c"), full_matrices=False)[0]
    s = m.array("s", (r,), pos=True)
    # A U0 = U0 R^-1 T R, every matrix on the column space has this form
    X, Y = U0 @ Ri @ (s[:, None] * Q.conj().T), U0 @ Ri @ T_ @ (s[:, None] * Q.conj().T)
    m.stub("pydmd.cdmd:compute_svd", lambda A, svd_rank=0: (P, s, Q), "C01: the singular triplets of the compressed snapshots, of rank r")
    op = CDMDOperator(svd_rank=r, rescale_mode=m.choice("rescale", [None, "auto"]), forward_backward=False, sorted_eigs=False, tikhonov_regularization=None)
    op.compute_operator(Cm @ X, Cm @ Y, Y)
    m.eq("coordinates", op.as_numpy_array, T_)
    m.independent_columns(U0)
    A = U0 @ Ri @ T_ @ R @ N.linalg.pinv(U0)
    m.eq("eigenpairs", A @ op.modes, op.modes * op.eigenvalues[None, :])


@unit("C22", name="closed_form", funcs=["optdmd.OptDMD.fit", "optdmd.OptDMD.predict", "optdmd.DMDOptOperator.compute_operator"], con=False)
def closed_form(m):
    """A on the column space of X, with values in a space of dimension r: predict applies A to the part of any state in the column space"""
    C.quiet(m)
    N = m.np
    n, k, q, r = m.dim("n"), m.dim("k", 2), m.dim("q"), m.dim("r")
    m.assume(q <= n)
    m.assume(q <= k)
    m.assume(r <= n)
    m.assume(r <= q)
    U = N.linalg.svd(m.array("G", (n, q), "c"), full_matrices=False)[0]
    V = N.linalg.svd(m.array("H", (k, q), "c"), full_matrices=False)[0]
    Uz = N.linalg.svd(m.array("F", (n, r), "c"), full_matrices=False)[0]
    s = m.array("s", (q,), pos=True)
    K = m.array("K", (r, q), "c")
    X = (U * s[None, :]) @ V.conj().T
    Y = Uz @ K @ (s[:, None] * V.conj().T)
    A = Uz @ K @ U.conj().T
    m.stub("pydmd.optdmd:compute_svd", lambda B, svd_rank=0: (U, s, V) if type(svd_rank) is int and svd_rank == -1 else (Uz, None, None), "C01: the singular triplets of matrices of rank q and r")
    m.stub("pydmd.optdmd:pinv_diag", lambda x: N.diag(1 / x), "every entry is above the threshold")
    d = OptDMD(svd_rank=r, factorization="svd").fit(X, Y)
    m.eq("operator", d.operator.as_numpy_array, Uz.conj().T @ A @ Uz)
    z = m.array("z", (n, m.dim("w")), "c")
    m.eq("prediction", d.predict(z), A @ z)


@unit("C22", name="closed_form_eigen", funcs=["optdmd.DMDOptOperator.compute_operator", "optdmd.DMDOptOperator._compute_eigenquantities", "optdmd.OptDMD.fit", "optdmd.OptDMD.predict"], con=False)
def closed_form_eigen(m):
    """the eigenvalue factorisation of any operator P Q^H represents the same operator, by eigenpairs of it"""
    from pydmd.optdmd import DMDOptOperator

    C.quiet(m)
    N = m.np
    n, r = m.dim("n"), m.dim("r")
    m.assume(r <= n)
    P, Q = m.array("P", (n, r), "c"), m.array("Q", (n, r), "c")
    m.stub("pydmd.optdmd:pinv_diag", lambda x: N.diag(1 / x), "every entry is above the threshold")

    def operator(self, X, Y):
        self._Atilde = N.dot(Q.conj().T, P)
        self._compute_eigenquantities(P, Q)
        return P, Q

    m.stub("pydmd.optdmd:DMDOptOperator.compute_operator", operator, "closed_form: returns the factors P, Q of the operator P Q^H and factorises it")
    d = OptDMD(svd_rank=r, factorization="evd").fit(m.array("X", (n, 2), "c"), m.array("Y", (n, 2), "c"))
    R, lam = d.modes, d.eigs
    m.eq("eigenpairs", P @ (Q.conj().T @ R), R * lam[None, :])
    z = m.array("z", (n, m.dim("w")), "c")
    m.eq("prediction", d.predict(z), P @ (Q.conj().T @ z))
