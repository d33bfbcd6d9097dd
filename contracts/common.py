"""Concrete generators shared by the contracts (replay / bounded mode)."""
import numpy as np


def cplx(rng, shape, kind):
    a = rng.standard_normal(shape)
    if kind == "c":
        a = a + 1j * rng.standard_normal(shape)
    return a


def unitary(rng, n, kind="f"):
    q, r = np.linalg.qr(cplx(rng, (n, n), kind))
    return q


def spectral_matrix(m, n, k, kind):
    rng = m.rng
    p = min(n, k)
    U = unitary(rng, n, kind)[:, :p]
    V = unitary(rng, k, kind)[:, :p]
    t = m.choice("spectrum", ["random", "decay", "cliff", "ties", "flat", "raw"])
    if t == "raw":
        return cplx(rng, (n, k), kind)
    if t == "random":
        s = rng.random(p) + 0.05
    elif t == "decay":
        s = m.pr.uniform(0.2, 0.8) ** np.arange(p)
    elif t == "cliff":
        r = m.pr.randint(1, p)
        s = np.where(np.arange(p) < r, 10 + 3 * rng.random(p), 0.1 + 0.02 * rng.random(p))
    elif t == "flat":
        s = 1 + 1e-3 * rng.random(p)
    else:
        s = rng.choice([1.0, 2.0, 4.0], p)
    s = np.sort(s)[::-1] * m.pr.choice([1.0, 1e-3, 1e3])
    return (U * s) @ V.conj().T


def fraction(m, X):
    t = m.choice("e", ["uniform", "high", "between", "extreme"])
    if t == "uniform":
        return m.pr.uniform(0.01, 0.99)
    if t == "high":
        return 1 - 10.0 ** m.pr.uniform(-6, -1)
    if t == "extreme":
        return float(np.nextafter(1, 0))
    s = np.linalg.svd(X, compute_uv=False) ** 2
    c = np.cumsum(s) / s.sum()
    i = m.pr.randrange(len(c))
    lo = c[i - 1] if i else 0
    return float(np.clip((lo + c[i]) / 2, 1e-9, 1 - 1e-9))


# --------------------------------------------------------------------------
# linear systems
# --------------------------------------------------------------------------
def eigenvalues(m, r, kind, lo=0.85, hi=1.1, sep=0.2):
    """r separated eigenvalues (conjugate pairs and reals for real data)"""
    pr = m.pr
    for _ in range(200):
        lam = []
        while len(lam) < r:
            rho = pr.uniform(lo, hi)
            if kind == "c":
                lam.append(rho * np.exp(1j * pr.uniform(-np.pi, np.pi)))
            elif r - len(lam) >= 2 and pr.random() < 0.7:
                z = rho * np.exp(1j * pr.uniform(0.15, np.pi - 0.15))
                lam += [z, z.conjugate()]
            else:
                lam.append(complex(rho))
        lam = np.array(lam)
        d = np.abs(lam[:, None] - lam[None]) + 10 * np.eye(r)
        if r == 1 or d.min() > sep:
            return lam
        sep *= 0.97
    return lam


class Lin:
    """x_t = Phi diag(lam)^t b, exactly"""

    def __init__(self, m, n, nt, r, kind, **kw):
        rng = m.rng
        self.lam = eigenvalues(m, r, kind, **kw)
        for _ in range(50):
            Phi = rng.standard_normal((n, r)) + 1j * rng.standard_normal((n, r))
            b = (0.5 + 1.5 * rng.random(r)) * np.exp(2j * np.pi * rng.random(r))
            if kind == "f":
                i = 0
                while i < r:
                    if self.lam[i].imag == 0:
                        Phi[:, i] = Phi[:, i].real
                        b[i] = b[i].real or 1.0
                        i += 1
                    else:
                        Phi[:, i + 1] = Phi[:, i].conj()
                        b[i + 1] = b[i].conj()
                        i += 2
            Phi = Phi / np.linalg.norm(Phi, axis=0)
            if r > n or np.linalg.cond(Phi) < 25:
                break
        self.Phi, self.b, self.kind, self.n, self.nt, self.r = Phi, b, kind, n, nt, r
        self.X = self.at(np.arange(nt))

    def at(self, t):
        X = self.Phi @ (self.b[:, None] * self.lam[:, None] ** np.asarray(t)[None])
        return X.real.copy() if self.kind == "f" else X

    @property
    def A(self):
        A = self.Phi @ np.diag(self.lam) @ np.linalg.pinv(self.Phi)
        return A.real.copy() if self.kind == "f" else A


def lin(m, n=None, nt=None, r=None, kind=None, nmin=3, nmax=9, rmax=4, **kw):
    kind = kind or m.choice("kind", ["f", "c"])
    n = n or m.dim("n", nmin, nmax)
    r = r or m.dim("r", 1, min(rmax, n))
    nt = nt or m.dim("nt", 2 * r + 4, 2 * r + 12)
    return Lin(m, n, nt, r, kind, **kw)


def noisy(m, n=None, nt=None, kind=None, nmin=2, nmax=9, ntmin=5, ntmax=14, level=None):
    """generic data: a linear signal plus noise, or pure noise"""
    kind = kind or m.choice("kind", ["f", "c"])
    n = n or m.dim("n", nmin, nmax)
    nt = nt or m.dim("nt", ntmin, ntmax)
    lv = level if level is not None else m.choice("noise", [0.02, 0.3, 3.0])
    r = max(1, min(n, 3))
    return Lin(m, n, nt, r, kind).X + lv * cplx(m.rng, (n, nt), kind)


def match(m, name, got, want, tol=1e-5):
    """the multiset got contains every element of want exactly once (nearest matching)"""
    got, want = list(np.atleast_1d(got)), list(np.atleast_1d(want))
    m.holds(name + " (count)", len(got) >= len(want), f"{len(got)} values for {len(want)}")
    rest = list(got)
    for w in want:
        j = int(np.argmin([abs(g - w) for g in rest]))
        m.holds(name, abs(rest[j] - w) <= tol * (1 + abs(w)), f"no eigenvalue near {w}: nearest {rest[j]}, all {got}")
        rest.pop(j)
    return rest


# --------------------------------------------------------------------------
# registry of models with random options
# --------------------------------------------------------------------------
import pydmd
from pydmd.costs import COSTS
from pydmd.mrcosts import mrCOSTS
from pydmd.paramdmd import ParametricDMD
from pydmd.preprocessing import (
    hankel_preprocessing,
    randomized_preprocessing,
    svd_projection_preprocessing,
    zero_mean_preprocessing,
)


class Rec:
    """a model class, fixed options, a data source and how to fit"""

    def __init__(self, name, make, data, fit=None, opts=None, recon=None):
        self.name, self.make, self.data = name, make, data
        self.fit = fit or (lambda d, a: d.fit(*a))
        self.opts = opts or {}

    def fresh(self):
        return self.make()


def rank_opt(m, n=9, zero=True, frac=True, allr=True):
    o = ["int"] + (["all"] if allr else []) + (["frac"] if frac else []) + (["auto"] if zero else [])
    c = m.choice("rank", o)
    v = {"int": m.pr.randint(1, max(1, n)), "all": -1, "frac": m.pr.choice([0.5, 0.9, 0.99, 0.9999]), "auto": 0}[c]
    m.opts["svd_rank"] = v
    return v


def opt_opt(m, nt=5, true=True):
    c = m.choice("opt", ["False", "int", "neg"] + (["True"] if true else []))
    v = {"False": False, "True": True, "int": m.pr.randint(0, nt - 1), "neg": -m.pr.randint(1, nt)}[c]
    m.opts["opt value"] = v
    return v


def base_kw(m, n=4, tlsq=True, fb=True, exact=True, tik=True, resc=True, opt=True, sort=True):
    kw = dict(svd_rank=rank_opt(m, n))
    if tlsq:
        kw["tlsq_rank"] = m.choice("tlsq", [0, 0, 3])
    if exact:
        kw["exact"] = m.choice("exact", [False, True])
    if opt:
        kw["opt"] = opt_opt(m)
    if resc:
        kw["rescale_mode"] = m.choice("rescale", [None, None, "auto"])
    if fb:
        kw["forward_backward"] = m.choice("fb", [False, False, True])
    if sort:
        kw["sorted_eigs"] = m.choice("sorted", [False, "abs", "real"])
    if tik:
        kw["tikhonov_regularization"] = m.choice("tik", [None, None, 1e-4])
    return kw


def gen_data(m, **kw):
    """callable giving new fit arguments of the same kind each time"""
    kind = m.choice("kind", ["f", "c"])
    return lambda: (noisy(m, kind=kind, level=m.pr.choice([0.02, 0.3]), nmin=4, ntmin=8, **kw),)


def r_DMD(m):
    kw = base_kw(m)
    withY = m.choice("Y", [False, False, True])
    g = gen_data(m)

    def data():
        (X,) = g()
        return (X, X @ np.eye(X.shape[1]) * 0.9 + 0.1 * np.roll(X, 1, 0)) if withY else (X,)

    return Rec("DMD", lambda: pydmd.DMD(**kw), data, opts=kw)


def r_FbDMD(m):
    kw = base_kw(m, fb=False, tik=False)
    return Rec("FbDMD", lambda: pydmd.FbDMD(**kw), gen_data(m), opts=kw)


def r_CDMD(m):
    kw = base_kw(m, exact=False)
    n = m.dim("n", 4, 8)
    C = cplx(m.rng, (m.pr.randint(4, 9), n), "f")
    m.watch("compression matrix", C)
    g = gen_data(m, n=n)
    return Rec("CDMD", lambda: pydmd.CDMD(compression_matrix=C, **kw), g, opts=kw)


def r_RDMD(m):
    kw = base_kw(m, exact=False)
    kw.update(seed=m.pr.randint(0, 99), oversampling=m.pr.choice([0, 3, 10]), power_iters=m.pr.choice([0, 1, 2]))
    return Rec("RDMD", lambda: pydmd.RDMD(**kw), gen_data(m), opts=kw)


def recon_method(m, d):
    c = m.choice("method", ["first", "mean", "list", "array"])
    if c in ("first", "mean"):
        return c
    w = [m.pr.uniform(0.5, 2) for _ in range(d)]
    w = w if c == "list" else np.array(w)
    m.watch("weights", w)
    return w


def r_HankelDMD(m):
    kw = base_kw(m)
    d = m.choice("d", [1, 2, 3])
    kw.update(d=d, reconstruction_method=recon_method(m, d))
    return Rec("HankelDMD", lambda: pydmd.HankelDMD(**kw), gen_data(m), opts=kw)


def r_HODMD(m):
    kw = base_kw(m, tik=False)
    d = m.choice("d", [1, 2, 3])
    kw.update(d=d, reconstruction_method=recon_method(m, d), svd_rank_extra=m.choice("extra", [-1, 3, 0.99]))
    return Rec("HODMD", lambda: pydmd.HODMD(**kw), gen_data(m), opts=kw)


def r_SpDMD(m):
    kw = base_kw(m, tik=False)
    kw.update(gamma=m.choice("gamma", [0.0, 0.1, 1.5]), rho=m.choice("rho", [1.0, 10.0]), verbose=False, max_iterations=40)
    return Rec("SpDMD", lambda: pydmd.SpDMD(**kw), gen_data(m), opts=kw)


def r_SubspaceDMD(m):
    kw = dict(svd_rank=m.choice("rank", [-1, 2, 3]), opt=opt_opt(m), rescale_mode=m.choice("rescale", [None, "auto"]), sorted_eigs=m.choice("sorted", [False, "abs", "real"]))
    return Rec("SubspaceDMD", lambda: pydmd.SubspaceDMD(**kw), gen_data(m), opts=kw)


def r_OptDMD(m):
    kw = dict(svd_rank=rank_opt(m, 4), tlsq_rank=m.choice("tlsq", [0, 3]), factorization=m.choice("factorization", ["evd", "svd"]))
    g = gen_data(m)
    withY = m.choice("Y", [False, True])

    def data():
        (X,) = g()
        return (X[:, :-1].copy(), X[:, 1:].copy()) if withY else (X,)

    return Rec("OptDMD", lambda: pydmd.OptDMD(**kw), data, opts=kw)


def r_EDMD(m):
    ker = m.choice("kernel", ["linear", "rbf", "polynomial"])
    par = {"linear": None, "rbf": {"gamma": 0.05}, "polynomial": {"degree": 2, "coef0": 1.0}}[ker]
    if par:
        m.watch("kernel_params", par)
    kw = dict(svd_rank=m.choice("rank", [-1, 2, 3, 0.99]), opt=m.choice("opt", [False, True, 1]), kernel_metric=ker, kernel_params=par)
    return Rec("EDMD", lambda: pydmd.EDMD(**kw), lambda: (noisy(m, kind="f", level=0.1, nmin=4, ntmin=6),), opts=kw)


MANIFOLDS = ["unitary", "uppertriangular", "lowertriangular", "diagonal", "symmetric", "skewsymmetric", "toeplitz", "hankel", "circulant", "circulant_unitary", "circulant_symmetric", "circulant_skewsymmetric", "symmetric_tridiagonal"]


def r_PiDMD(m):
    kw = dict(manifold=m.choice("manifold", MANIFOLDS), compute_A=True, svd_rank=m.choice("rank", [-1, -1, 3]), opt=m.choice("opt", [False, True, 1]))
    return Rec("PiDMD", lambda: pydmd.PiDMD(**kw), lambda: (noisy(m, kind="f", level=0.1, nmin=4, nmax=6, ntmin=8),), opts=kw)


def r_DMDc(m):
    lag = m.choice("lag", [1, 2])
    kw = dict(svd_rank=m.choice("rank", [-1, 3, 0.999]), opt=m.choice("opt", [False, 1, -2]), svd_rank_omega=m.choice("omega", [-1, 5]), lag=lag)
    known = m.choice("B", [False, True])

    def data():
        X = noisy(m, kind="f", level=0.2, nmin=4, ntmin=9)
        u = m.rng.standard_normal((2, X.shape[1] - lag))
        return (X, u, m.rng.standard_normal((X.shape[0], 2))) if known else (X, u)

    return Rec("DMDc", lambda: pydmd.DMDc(**kw), data, opts=kw)


def r_BOPDMD(m):
    c = m.choice("bop", ["plain", "noproj", "constraint", "bag", "guess", "A"])
    kw = dict(svd_rank=m.choice("rank", [2, 0]))
    if c == "noproj":
        kw["use_proj"] = False
    if c == "constraint":
        kw["eig_constraints"] = m.choice("constraint", [{"stable"}, {"imag"}, {"conjugate_pairs"}, {"conjugate_pairs", "stable"}])
        m.watch("constraints", kw["eig_constraints"])
    if c == "bag":
        kw.update(num_trials=3, trial_size=0.8)
    if c == "guess":
        kw["svd_rank"] = 2
        kw["init_alpha"] = np.array([-0.1 + 1j, -0.1 - 1j])
        m.watch("init_alpha", kw["init_alpha"])
    if c == "A":
        kw["compute_A"] = True
    kw["varpro_opts_dict"] = {"maxiter": 6, "tol": 1e-6}
    m.watch("varpro_opts_dict", kw["varpro_opts_dict"])
    kw["eig_sort"] = m.choice("eig_sort", ["auto", "real", "imag", "abs"])

    def data():
        n = m.pr.randint(4, 6)
        t = np.sort(m.rng.random(14)) * 3 + 0.1 * np.arange(14)
        w = np.array([-0.1 + 2j, -0.1 - 2j])
        P = cplx(m.rng, (n, 2), "c")
        P[:, 1] = P[:, 0].conj()
        X = (P @ np.exp(np.outer(w, t))).real + 0.01 * m.rng.standard_normal((n, 14))
        return X, t

    return Rec("BOPDMD", lambda: pydmd.BOPDMD(**kw), data, opts=kw)


def r_VarProDMD(m):
    kw = dict(svd_rank=m.choice("rank", [2, 0.9999]), exact=m.choice("exact", [False, True]), sorted_eigs=m.choice("sorted", [False, "real", "imag", "abs"]), compression=m.choice("compression", [0, 0.3]))
    bop = r_BOPDMD(m).data
    return Rec("VarProDMD", lambda: pydmd.VarProDMD(**kw), bop, opts=kw)


def r_LANDO(m):
    ker = m.choice("kernel", ["linear", "rbf", "poly"])
    par = {"linear": None, "rbf": {"gamma": 0.05}, "poly": {"degree": 2, "coef0": 1.0, "gamma": 1.0}}[ker]
    if par:
        m.watch("kernel_params", par)
    n = 3
    sc = m.choice("scale", ["one", "two", "array"])
    x_rescale = {"one": 1.0, "two": 2.0, "array": np.array([0.5, 2.0, 1.5])}[sc]
    if sc == "array":
        m.watch("x_rescale", x_rescale)
    kw = dict(svd_rank=m.choice("rank", [-1, 2]), kernel_metric=ker, kernel_params=par, x_rescale=x_rescale, dict_tol=m.choice("tol", [1e-6, 1e-2]), online=m.choice("online", [False, True]), permute=m.choice("permute", [False, True]))

    def data():
        X = m.rng.standard_normal((n, 12))
        A = 0.5 * m.rng.standard_normal((n, n))
        return X, A @ X + 0.05 * X**2

    def fit(d, a):
        d.fit(*a)
        return d

    return Rec("LANDO", lambda: pydmd.LANDO(**kw), data, fit, opts=kw)


def r_MrDMD(m):
    lev, cyc = m.choice("levels", [0, 1, 2]), m.choice("cycles", [1, 2])
    sub = dict(svd_rank=m.choice("rank", [-1, 2]), opt=m.choice("opt", [False, True]))

    # the sub-models are templates: given afresh, or one object (or list) given to every instance
    given = m.choice("templates", ["fresh", "one", "list"])
    one, every = pydmd.DMD(**sub), [pydmd.DMD(**sub) for _ in range(lev + 1)]

    def make():
        t = {"fresh": pydmd.DMD(**sub), "one": one, "list": every}[given]
        return pydmd.MrDMD(t, max_level=lev, max_cycles=cyc)

    kind = m.choice("kind", ["f", "c"])
    return Rec("MrDMD", make, lambda: (noisy(m, n=m.pr.randint(4, 6), nt=m.pr.randint(64, 80), kind=kind, level=0.05),), opts=sub)


def r_HAVOK(m):
    kw = dict(svd_rank=4, delays=m.choice("delays", [5, 8]), lag=m.choice("lag", [1, 2]), num_chaos=m.choice("chaos", [1, 2]), structured=m.choice("structured", [False, True]), lstsq=m.choice("lstsq", [True, False]))

    def data():
        t = 0.05 * np.arange(80)
        f = m.pr.uniform(1, 3)
        return np.sin(f * t) + 0.5 * np.cos(2.3 * f * t) + 0.05 * m.rng.standard_normal(80), t

    return Rec("HAVOK", lambda: pydmd.HAVOK(**kw), data, opts=kw)


def r_PrePost(m):
    w = m.choice("wrapper", ["hankel", "svd", "mean", "random", "nested"])
    kw = base_kw(m)

    def make():
        d = pydmd.DMD(**kw)
        if w == "hankel":
            return hankel_preprocessing(d, 2)
        if w == "svd":
            return svd_projection_preprocessing(d, 3)
        if w == "mean":
            return zero_mean_preprocessing(d)
        if w == "random":
            return randomized_preprocessing(d, 3, seed=4)
        return zero_mean_preprocessing(svd_projection_preprocessing(d, 3))

    return Rec("PrePost", make, gen_data(m), opts=kw)


MODELS = dict(DMD=r_DMD, FbDMD=r_FbDMD, CDMD=r_CDMD, RDMD=r_RDMD, HankelDMD=r_HankelDMD, HODMD=r_HODMD, SpDMD=r_SpDMD, SubspaceDMD=r_SubspaceDMD, OptDMD=r_OptDMD, EDMD=r_EDMD, PiDMD=r_PiDMD, DMDc=r_DMDc, BOPDMD=r_BOPDMD, VarProDMD=r_VarProDMD, LANDO=r_LANDO, MrDMD=r_MrDMD, HAVOK=r_HAVOK, PrePost=r_PrePost)


# -- models outside the DMDBase family ---------------------------------------
def multi_scale(m, n=None, nt=None):
    """slow and fast oscillations, (space, time) data and a (1, time) row of instants"""
    n = n or m.pr.randint(4, 6)
    nt = nt or m.pr.randint(70, 100)
    dt = m.pr.choice([1.0, 0.1])
    t = dt * (np.arange(nt) + m.pr.choice([0, 7]))
    f1, f2 = 2 * np.pi / (60 * dt), 2 * np.pi / (9 * dt)
    P = m.rng.standard_normal((n, 4))
    X = P[:, :1] * np.cos(f1 * t) + P[:, 1:2] * np.sin(f1 * t) + P[:, 2:3] * np.cos(f2 * t) + P[:, 3:] * np.sin(f2 * t)
    return X + 0.01 * m.rng.standard_normal(X.shape) + m.pr.choice([0.0, 3.0]), t[None]


class CostsRun:
    """COSTS with its clustering, exposed like a model"""

    def __init__(self, obj, ncomp, method):
        self.o, self.n, self.method = obj, ncomp, method

    def fit(self, data, time, w, s):
        self.o.fit(data, time, w, s)
        self.o.cluster_omega(n_components=self.n, transform_method=self.method)
        return self

    def results(self):
        o = self.o
        r = dict(modes=o.modes_array, omega=o.omega_array, amplitudes=o.amplitudes_array, time=o.time_array, means=o.window_means_array, classes=o.omega_classes, centroids=o.cluster_centroids, svd_rank=int(o.svd_rank), n_slides=int(o.n_slides), window=o.window_length, step=o.step_size)
        r["glob"] = o.global_reconstruction()
        r["low"], r["high"] = o.scale_separation()
        r["scales"] = o.scale_reconstruction()
        return r


def r_COSTS(m):
    kw = dict(svd_rank=m.choice("rank", [2, 4]), global_svd=m.choice("global", [True, False]))
    pk = m.choice("pydmd_kwargs", ["none", "stable"])
    if pk != "none":
        kw["pydmd_kwargs"] = {"eig_constraints": {"imag"}, "varpro_opts_dict": {"maxiter": 4}}
        m.watch("pydmd_kwargs", kw["pydmd_kwargs"])
    meth = m.choice("transform", ["absolute", "square_frequencies"])

    def data():
        X, t = multi_scale(m)
        w = m.pr.randint(24, 40)
        return X, t, w, m.pr.randint(max(1, w // 4), w)

    return Rec("COSTS", lambda: CostsRun(COSTS(**kw), 2, meth), data, opts=kw)


class MrCostsRun:
    def __init__(self, obj):
        self.o = obj

    def fit(self, data, time):
        self.o.fit(data, time, verbose=False)
        self.o.global_cluster_omega(2)
        return self

    def results(self):
        o = self.o
        r = dict(omega=o.ragged_omega_array, modes=o.ragged_modes_array, amplitudes=o.ragged_amplitudes_array, centroids=o.cluster_centroids, classes=o.omega_classes_interpolated, components=list(o.n_components_array))
        r["glob"] = o.global_reconstruction()
        r["background"] = o.get_background()
        r["scales"] = o.global_scale_reconstruction()
        return r


def r_mrCOSTS(m):
    kw = dict(window_length_array=[20, 40], step_size_array=[6, 10], svd_rank_array=[4, 4], global_svd_array=[True, True], n_components_array=[2, 2], transform_method="absolute")
    for k in list(kw):
        if isinstance(kw[k], list):
            if m.choice("as array", [False, True]):
                kw[k] = np.array(kw[k])
            m.watch(k, kw[k])
    if m.choice("pydmd_kwargs", [False, True]):
        kw["pydmd_kwargs"] = {"eig_constraints": {"imag"}, "varpro_opts_dict": {"maxiter": 4}}
        m.watch("pydmd_kwargs", kw["pydmd_kwargs"])
    return Rec("mrCOSTS", lambda: MrCostsRun(mrCOSTS(**kw)), lambda: multi_scale(m, nt=m.pr.randint(90, 110)), opts=kw)


class Pod:
    """full projection on an orthonormal basis of the data, stored at fit"""

    def __init__(self, rank=None):
        self.rank = rank

    def fit(self, X):
        self.U = np.linalg.svd(X, full_matrices=False)[0][:, : self.rank]
        return self

    def reduce(self, X):
        return self.U.conj().T @ X

    def expand(self, X):
        return self.U @ X


class Nodes:
    """piecewise linear interpolation in one parameter; reproduces its nodes"""

    def fit(self, p, v):
        self.p, self.v = np.asarray(p)[:, 0], np.asarray(v)

    def predict(self, q):
        q = np.asarray(q)[:, 0]
        o = np.argsort(self.p)
        P, V = self.p[o], self.v[o]
        i = np.clip(np.searchsorted(P, q) - 1, 0, len(P) - 2)
        w = (q - P[i]) / (P[i + 1] - P[i])
        return V[i] * (1 - w)[:, None] + V[i + 1] * w[:, None]


class ParamRun:
    def __init__(self, obj, q):
        self.o, self.q = obj, q

    def fit(self, X, params):
        self.o.fit(X, params)
        self.o.parameters = self.q
        return self

    def results(self):
        o = self.o
        return dict(rec=o.reconstructed_data, train=o.training_modal_coefficients, fore=o.forecasted_modal_coefficients, inter=o.interpolated_modal_coefficients, params=o.training_parameters, q=o.parameters, time=dict(o.original_time), dmd_time=dict(o.dmd_time))


def r_Param(m):
    part = m.choice("partitioned", [False, True])
    k = m.choice("params", [2, 3, 4])
    rank = m.choice("rank", [-1, 3])
    q = np.sort(m.rng.random((3, 1)))
    m.watch("parameters", q)
    kind = m.choice("kind", ["f", "c"])

    def make():
        d = [pydmd.DMD(svd_rank=rank) for _ in range(k)] if part else pydmd.DMD(svd_rank=rank)
        return ParamRun(ParametricDMD(d, Pod(m.opts["pod"]), Nodes()), q)

    m.choice("pod", [None, 3])

    def data():
        n, nt = m.pr.randint(3, 6), m.pr.randint(8, 12)
        X = np.stack([noisy(m, n=n, nt=nt, kind=kind, level=0.05) for _ in range(k)])
        p = m.rng.permutation(np.linspace(0, 1, k))
        return X, p if m.pr.random() < 0.5 else p[:, None]

    return Rec("Param", make, data, opts=dict(rank=rank))


EXTRA = dict(COSTS=r_COSTS, mrCOSTS=r_mrCOSTS, Param=r_Param)


def model(m, names=None, extra=False):
    every = {**MODELS, **(EXTRA if extra else {})}
    n = m.choice("model", list(names or every))
    return {**MODELS, **EXTRA}[n](m)


OUT = ["modes", "eigs", "amplitudes", "dynamics", "reconstructed_data", "original_time", "dmd_time", "dmd_timesteps", "frequency", "growth_rate", "modes_activation_bitmask", "snapshots", "A", "B", "amplitudes_std", "eigenvalues_std", "modes_std", "f", "dictionary", "forcing", "linear_dynamics", "delay_embeddings", "eigs_std", "ho_snapshots", "basis", "compression_matrix", "singular_vals"]


def outputs(d, only=None):
    """everything observable of a fitted model, by name; exceptions by type"""
    import inspect

    if hasattr(d, "results"):
        return d.results()
    res = {}
    for k in only or OUT:
        try:
            if not hasattr(type(d), k) and not hasattr(d, k):
                continue
            v = getattr(d, k)
            if inspect.isroutine(v):
                v = v() if k in ("reconstructed_data",) else None
            if v is None:
                continue
            res[k] = v
        except Exception as e:
            res[k] = f"raises {type(e).__name__}"
    return res


def copy_out(o):
    import copy

    return {k: copy.deepcopy(v) for k, v in o.items()}


def same_outputs(m, name, a, b, tol=1e-9):
    m.same(name + ": available outputs", sorted(a), sorted(b))
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            m.eq(f"{name}: {k}", x, y, tol=tol)
        elif isinstance(x, (dict, str, bool, int, float)):
            m.holds(f"{name}: {k}", x == y, f"{x!r} != {y!r}")
        elif isinstance(x, (list, tuple)):
            m.same(f"{name}: {k} length", len(x), len(y))
            for p, q in zip(x, y):
                if isinstance(p, np.ndarray):
                    m.eq(f"{name}: {k}", p, q, tol=tol)


# --------------------------------------------------------------------------
def truncating_model(m):
    """(fitted model, matrix whose truncation gives the number of modes)"""
    from pydmd.utils import pseudo_hankel_matrix

    name = m.choice("model", ["DMD", "DMD Y", "FbDMD", "CDMD", "RDMD", "HankelDMD", "HODMD", "SpDMD", "OptDMD", "EDMD", "PiDMD", "DMDc B", "DMDc", "BOPDMD", "VarProDMD", "SubspaceDMD", "HAVOK"])
    kind = m.choice("kind", ["f", "c"]) if name not in ("EDMD", "HAVOK", "BOPDMD", "VarProDMD", "PiDMD", "DMDc", "DMDc B") else "f"
    n, nt = m.dim("n", 3, 10), m.dim("nt", 7, 14)
    X = spectral_matrix(m, n, nt, kind)
    if m.opts["spectrum"] == "ties":
        X = X + 1e-3 * cplx(m.rng, X.shape, kind) * np.abs(X).max()
    r = rank_opt(m, 9)
    Y = cplx(m.rng, X.shape, kind)
    if name == "DMD":
        return pydmd.DMD(svd_rank=r, exact=m.choice("exact", [False, True])).fit(X), X[:, :-1]
    if name == "DMD Y":
        return pydmd.DMD(svd_rank=r).fit(X, Y), X
    if name == "FbDMD":
        return pydmd.FbDMD(svd_rank=r).fit(X), X[:, :-1]
    if name == "SpDMD":
        d = pydmd.SpDMD(svd_rank=r, gamma=1e-3, verbose=False, max_iterations=2).fit(X)
        return d, X[:, :-1]
    if name == "CDMD":
        Cm = cplx(m.rng, (m.pr.randint(2, n + 3), n), "f")
        return pydmd.CDMD(svd_rank=r, compression_matrix=Cm).fit(X), (Cm @ X)[:, :-1]
    if name == "RDMD":
        d = pydmd.RDMD(svd_rank=r, seed=1, oversampling=m.pr.choice([0, 10])).fit(X)
        return d, (d.compression_matrix @ X)[:, :-1]
    if name in ("HankelDMD", "HODMD"):
        dd = m.pr.randint(1, 3)
        if name == "HankelDMD":
            return pydmd.HankelDMD(svd_rank=r, d=dd).fit(X), pseudo_hankel_matrix(X, dd)[:, :-1]
        e = m.pr.choice([-1, 3])
        U = np.linalg.svd(X, full_matrices=False)[0][:, : (None if e == -1 else e)]
        return pydmd.HODMD(svd_rank=r, d=dd, svd_rank_extra=e).fit(X), (lambda d: rank_of_hankel(d, X, U, dd, r))
    if name == "OptDMD":
        # rank of the best approximation of Y on the row space of X
        d = pydmd.OptDMD(svd_rank=r).fit(X)
        U, s, Vh = np.linalg.svd(X[:, :-1], full_matrices=False)
        k = (s > 1e-10 * s[0]).sum()
        return d, X[:, 1:] @ Vh[:k].conj().T @ Vh[:k]
    if name == "EDMD":
        m.assume(r != 0)
        X = X[:, : min(X.shape[1], n + 1)]
        return pydmd.EDMD(svd_rank=r).fit(X), (lambda d: edmd_rank(m, X, r))
    if name == "PiDMD":
        return pydmd.PiDMD(manifold=m.choice("manifold", ["unitary", "symmetric", "skewsymmetric"]), svd_rank=r).fit(X), X[:, :-1]
    u = m.rng.standard_normal((2, nt - 1))
    if name == "DMDc B":
        return pydmd.DMDc(svd_rank=r).fit(X, u, m.rng.standard_normal((n, 2))), X[:, :-1]
    if name == "DMDc":
        return pydmd.DMDc(svd_rank=r).fit(X, u), X[:, 1:]
    if name == "BOPDMD":
        m.assume(r != -1 and (r < 1 or r <= 4))
        from pydmd.utils import compute_rank

        m.assume(compute_rank(X, r) <= 4)
        return pydmd.BOPDMD(svd_rank=r, varpro_opts_dict={"maxiter": 2}).fit(X, np.arange(nt) * 1.0), X
    if name == "VarProDMD":
        from pydmd.utils import compute_rank

        m.assume(compute_rank(X, r) <= 4)
        return pydmd.VarProDMD(svd_rank=r, optargs={"method": "trf", "max_nfev": 2}).fit(X, np.arange(nt) * 1.0), X
    if name == "SubspaceDMD":
        m.assume(r >= 1 or r == -1)
        S = [X[:, i : nt - 3 + i] for i in range(4)]
        m.assume(nt - 3 >= n)
        return pydmd.SubspaceDMD(svd_rank=r).fit(X), (lambda d: min(n, r) if r > 0 else n)
    if name == "HAVOK":
        m.assume(r == -1 or r >= 3)
        x = m.rng.standard_normal(40)
        d = pydmd.HAVOK(svd_rank=r, delays=6).fit(x, 0.1 * np.arange(40))
        H = pseudo_hankel_matrix(x[None], 6)
        from pydmd.utils import compute_rank

        k = compute_rank(H, r)

        class V:  # the linear part has one coordinate per kept triple
            modes = d.delay_embeddings
            eigs = d.delay_embeddings[0]

        return V(), H


def rank_of_hankel(d, X, U, dd, r):
    from pydmd.utils import compute_rank, pseudo_hankel_matrix

    return int(compute_rank(pseudo_hankel_matrix(X, dd)[:, :-1] if False else pseudo_hankel_matrix(U.conj().T @ X, dd)[:, :-1], r))


def edmd_rank(m, X, r):
    s = np.linalg.svd(X[:, :-1], compute_uv=False)
    k = X.shape[1] - 1
    s = np.concatenate([s, np.zeros(max(0, k - len(s)))])
    if 0 < r < 1:
        c = np.cumsum(s**2) / (s**2).sum()
        m.assume(np.abs(c - r).min() > 1e-9)
        return int((c < r).sum() + 1)
    if r == -1:
        return k
    return min(r, k)


def idx(m, name, n):
    """an arbitrary index below n"""
    if not m.sym:
        return m.dim(name, 0, int(n) - 1)
    i = m.dim(name, 0)
    m.assume(i < n)
    return i


def quiet(m):
    """the conditioning warning does not influence results (deductive mode: skipped)"""
    m.stub("pydmd.snapshots:Snapshots._check_condition_number", lambda X: None)


def any_operator(m, n, r, fixed=False):
    """callee contract: after compute_operator the operator has some eigenvalues and modes
    (what they are is C02's business; fixed: the same on every call with the same data); deductive mode only"""
    memo = {}

    def comp(self, X, Y, *a):
        if fixed and memo:
            self.__dict__.update(memo["d"])
            return memo["r"]
        before = dict(self.__dict__)
        out = compute(self, X, Y, *a)
        memo.update(d={k: v for k, v in self.__dict__.items() if k not in before or before[k] is not v}, r=out)
        return out

    def compute(self, X, Y, *a):
        self._eigenvalues = m.array("lam", (r,), "c")
        self._modes = m.array("Phi", (X.shape[0] if not a else a[0].shape[0], r), "c")
        self._eigenvectors = m.array("W", (r, r), "c")
        self._Lambda = self._eigenvalues
        self._Atilde = m.array("At", (r, r), "c")
        return m.array("U", (X.shape[0], r), "c"), m.array("sv", (r,), pos=True), m.array("V", (X.shape[1], r), "c")

    m.stub("pydmd.dmdoperator:DMDOperator.compute_operator", comp)


def bop_operator(**kw):
    """the operator object of an optimised DMD, options by name"""
    from pydmd.bopdmd import BOPDMDOperator

    full = dict(compute_A=False, use_proj=True, init_alpha=None, proj_basis=None, num_trials=0, trial_size=0.6, eig_sort="auto", eig_constraints=set(), mode_prox=None, remove_bad_bags=False, bag_warning=100, bag_maxfail=200)
    full.update(kw)
    return BOPDMDOperator(**full)
