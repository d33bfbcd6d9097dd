"""C04: amplitudes, time evolution and reconstruction."""
import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
import pydmd
from pydmd import DMD

BASE = ["dmdbase.DMDBase._compute_amplitudes", "dmdbase.DMDBase.dynamics", "dmdbase.DMDBase._translate_eigs_exponent", "dmdbase.DMDBase.reconstructed_data", "dmdbase._timesteps", "dmdbase.ActivationBitmaskProxy"]


@unit("C04", funcs=["dmd.DMD.fit", "snapshots.Snapshots"] + BASE, cases=300, split=[("exact", 2), ("opt", 4)], weight=3)
def dmd_fit(m):
    N = m.np
    quiet(m)
    n, k = m.dim("n", 2), m.dim("k", 4, 12)
    kind = m.kind()
    X = m.array("X", (n, k), kind)
    exact = m.choice("exact", [False, True])
    c = m.choice("opt", ["False", "index", "negative", "zero"])
    o = m.dim("o", 0, 11)
    opt = False if c == "False" else (o if c == "index" else (-o - 1 if c == "negative" else 0))
    m.assume(o < k)
    r = m.dim("r")
    d = DMD(svd_rank=r, exact=exact, opt=opt)
    d.fit(X)
    Phi, lam, b = d.modes, d.eigs, d.amplitudes
    i0 = 0 if c in ("False", "zero") else (o if c == "index" else k - o - 1)
    formula(m, d, X, Phi, lam, b, i0, k)


def formula(m, d, X, Phi, lam, b, i0, k):
    N = m.np
    m.eq("normal equations", N.dot(Phi.conj().T, N.dot(Phi, b)), N.dot(Phi.conj().T, X[:, i0]), tol=1e-6)
    t = N.arange(k)
    dyn = (lam[:, None] ** (t - i0)[None]) * b[:, None]
    m.eq("dynamics", d.dynamics, dyn, tol=1e-6)
    m.eq("reconstruction", d.reconstructed_data, N.dot(Phi, dyn), tol=1e-6)


@unit("C04", funcs=["dmd.DMD.fit"] + BASE, cases=300)
def output_times(m):
    """time evolution on any output window, any origin and step of the data"""
    N = m.np
    quiet(m)
    n, k = m.dim("n", 2), m.dim("k", 4, 9)
    X = m.array("X", (n, k), m.kind())
    c = m.choice("opt", [False, "index", "negative"])
    o = m.dim("o", 0, 8)
    m.assume(o < k)
    opt = False if c is False else (o if c == "index" else -o - 1)
    i0 = 0 if c is False else (o if c == "index" else k - o - 1)
    d = DMD(svd_rank=m.dim("r", 1, 2), opt=opt)
    d.fit(X)
    t0, dt = m.scalar("t0", lo=0.5, hi=3), m.scalar("dt", lo=0.1, hi=2)
    s0, ds = m.scalar("s0", lo=0.5, hi=3), m.scalar("ds", lo=0.1, hi=2)
    q = m.dim("q", 1, 9)
    d.original_time["t0"] = t0
    d.original_time["dt"] = dt
    d.original_time["tend"] = t0 + dt * (k - 1)
    d.dmd_time["t0"] = s0
    d.dmd_time["dt"] = ds
    d.dmd_time["tend"] = s0 + ds * (q - 1)
    Phi, lam, b = d.modes, d.eigs, d.amplitudes
    t = s0 + ds * N.arange(q)
    if not m.sym:
        lam = lam.astype(complex)
        m.assume(not np.isrealobj(d.eigs) or (d.eigs > 0).all())
        m.assume(np.abs(lam).min() > 1e-3)
    m.eq("instants", d.dmd_timesteps, t)
    dyn = (lam[:, None] ** ((t - t0) / dt - i0)[None]) * b[:, None]
    m.eq("dynamics", d.dynamics, dyn, tol=1e-6)
    m.eq("reconstruction", d.reconstructed_data, N.dot(Phi, dyn), tol=1e-6)
    m.eq("data instants", d.original_timesteps, t0 + dt * N.arange(k))


def optimal_normal(N, Phi, lam, X, q, k, b):
    """gradient of sum_t |x_t - Phi diag(lam^t) b|^2 over t<k, data term over t<q"""
    V = lam[:, None] ** N.arange(k)[None]
    P = N.dot(Phi.conj().T, Phi) * N.dot(V.conj(), V.T)
    Vq = V[:, :q]
    rhs = (N.dot(Phi.conj().T, X[:, :q]) * Vq.conj()).sum(axis=1)
    return N.dot(P, b), rhs


@unit("C04", funcs=["dmd.DMD.fit", "dmdbase.DMDBase._optimal_dmd_matrices"] + BASE, cases=300, split=[("case", 3)], weight=3)
def optimal(m):
    """optimal amplitudes: exact modes, or separate output data, or projected"""
    N = m.np
    quiet(m)
    n, k = m.dim("n", 2), m.dim("k", 4, 9)
    kind = m.kind()
    X = m.array("X", (n, k), kind)
    case = m.choice("case", ["exact", "pair", "projected"])
    r = m.dim("r", 1, 3)
    C.any_operator(m, n, r)
    d = DMD(svd_rank=r, exact=case == "exact" or (case == "pair" and m.choice("ex", [False, True])), opt=True)
    if case == "pair":
        d.fit(X, m.array("Y", (n, k), kind))
    else:
        d.fit(X)
    Phi, lam, b = d.modes, d.eigs, d.amplitudes
    q = k - 1 if case == "projected" else k
    lhs, rhs = optimal_normal(N, Phi, lam, X, q, k, b)
    m.eq("optimality", lhs, rhs, tol=1e-6)
    dyn = (lam[:, None] ** N.arange(k)[None]) * b[:, None]
    m.eq("dynamics", d.dynamics, dyn, tol=1e-6)
    m.eq("reconstruction", d.reconstructed_data, N.dot(Phi, dyn), tol=1e-6)


@unit("C04", funcs=["dmdbase.DMDBase._optimal_dmd_matrices"], sym=False, cases=20, bounded="demonstration of the known finding on random data")
def optimal_projected(m):
    """the documented minimiser also for projected modes: known finding, the shipped
    right-hand side leaves out the last snapshot (pinned by the test suite)"""
    N = m.np
    quiet(m)
    n, k = m.dim("n", 2), m.dim("k", 4, 9)
    X = m.array("X", (n, k), m.kind())
    d = DMD(svd_rank=m.dim("r", 1, 3), opt=True)
    d.fit(X)
    lhs, rhs = optimal_normal(N, d.modes, d.eigs, X, k, k, d.amplitudes)
    m.eq("all snapshots", lhs, rhs, tol=1e-6)


@unit("C04", funcs=["fbdmd.FbDMD.fit", "cdmd.CDMD.fit", "rdmd.RDMD.fit", "subspacedmd.SubspaceDMD.fit", "edmd.EDMD.fit", "pidmd.PiDMD.fit", "hankeldmd.HankelDMD.dynamics", "hankeldmd.HankelDMD.amplitudes", "hodmd.HODMD.fit", "dmdc.DMDc.fit"] + BASE, sym=False, cases=400, bounded="random data (4..9 points, 8..14 snapshots) and options of every model")
def every_model(m):
    rec = C.model(m, ["DMD", "FbDMD", "CDMD", "RDMD", "SubspaceDMD", "EDMD", "PiDMD", "HankelDMD", "HODMD", "DMDc"])
    args = rec.data()
    d = rec.make()
    d.fit(*args)
    opt = rec.opts.get("opt", False)
    X = d.ho_snapshots if rec.name in ("HankelDMD", "HODMD") else d.snapshots
    k = X.shape[1]
    m.assume(opt is True or opt is False or -k <= opt < k)
    Phi, lam, b = d.modes, np.atleast_1d(d.eigs).astype(complex), d.amplitudes
    m.assume(np.abs(lam).min() > 1e-2 and np.abs(lam).max() < 3 and np.linalg.cond(Phi) < 1e6)
    if opt is True:
        exact = rec.opts.get("exact", rec.name in ("CDMD", "RDMD", "SubspaceDMD", "EDMD")) or len(args) > 1
        if rec.name == "PiDMD":
            exact = False
        lhs, rhs = optimal_normal(np, Phi, lam, X, k if exact else k - 1, k, b)
        m.eq("optimality", lhs, rhs, tol=1e-5)
        i0 = 0
    else:
        i0 = 0 if opt is False else (opt if opt >= 0 else k + opt)
        m.eq("normal equations", Phi.conj().T @ (Phi @ b), Phi.conj().T @ X[:, i0], tol=1e-6)
    nt = d.snapshots.shape[1]
    dyn = lam[:, None] ** (np.arange(nt) - i0)[None] * b[:, None]
    m.eq("dynamics", d.dynamics, dyn, tol=1e-6)
    if rec.name not in ("HankelDMD", "HODMD", "DMDc"):
        m.eq("reconstruction", d.reconstructed_data, Phi @ dyn, tol=1e-6)
