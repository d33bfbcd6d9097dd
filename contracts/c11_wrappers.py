"""C11: pre/post-processing wrappers are transparent apart from their transformation."""
import copy

import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
import pydmd
from pydmd.preprocessing import (
    PrePostProcessingDMD,
    hankel_preprocessing,
    randomized_preprocessing,
    svd_projection_preprocessing,
    zero_mean_preprocessing,
)
from pydmd.preprocessing.pre_post_processing import PrePostProcessing
from pydmd.utils import compute_svd, pseudo_hankel_matrix

W = ["preprocessing.pre_post_processing.PrePostProcessingDMD._pre_processing_fit", "preprocessing.pre_post_processing.PrePostProcessingDMD._reconstructed_data_with_post_processing", "preprocessing.pre_post_processing.PrePostProcessingDMD._extract_training_data", "preprocessing.pre_post_processing.PrePostProcessingDMD._replace_training_data"]


class Echo:
    """a stand-in for any wrapped model: remembers what it is fitted on, returns what it is given"""

    fits = 0

    def fit(self, X, *a, **k):
        self.X, self.args, self.kwargs = X, a, k
        self.fits += 1
        return self

    @property
    def reconstructed_data(self):
        return self.Y


class EchoCall(Echo):
    """reconstruction as a method, as in DMDc"""

    def reconstructed_data(self, c=0):
        return self.Y * 1 if c == 0 else self.Y * c


def refit(m, w, e, X, how):
    extra = object()
    if how == "plain":
        r = w.fit(X)
        m.same("no other arguments", (len(e.args), len(e.kwargs)), (0, 0))
    elif how == "positional":
        r = w.fit(X, extra, 7)
        m.holds("other arguments passed on", len(e.args) == 2 and e.args[0] is extra and e.args[1] == 7 and not e.kwargs)
    elif how == "keyword":
        r = w.fit(X=X, Y=extra)
        m.holds("other arguments passed on", not e.args and sorted(e.kwargs) == ["Y"] and e.kwargs["Y"] is extra)
    else:
        r = w.fit(X, Y=extra)
        m.holds("other arguments passed on", not e.args and sorted(e.kwargs) == ["Y"] and e.kwargs["Y"] is extra)
    m.holds("fit returns the wrapper", r is w)


FIT = ["plain", "positional", "keyword", "mixed"]


@unit("C11", funcs=W, cases=200)
def identity(m):
    """no transformation: nothing happens to data, arguments and reconstruction"""
    n, k = m.dim("n", 1, 5), m.dim("k", 2, 7)
    X, Y = m.array("X", (n, k), m.kind()), m.array("Y", (n, k), m.kind())
    call = m.choice("recon", ["property", "method"])
    e = Echo() if call == "property" else EchoCall()
    w = PrePostProcessingDMD(e, PrePostProcessing()) if m.choice("explicit", [True, False]) else PrePostProcessingDMD(e)
    refit(m, w, e, X, m.choice("fit", FIT))
    m.eq("data", e.X, X)
    e.Y = Y
    if call == "method":
        m.eq("reconstruction", w.reconstructed_data(), Y)
        m.eq("reconstruction with an argument", w.reconstructed_data(3), Y * 3)
        m.eq("reconstruction with a keyword", w.reconstructed_data(c=3), Y * 3)
    else:
        m.eq("reconstruction", w.reconstructed_data, Y)
    m.same("fitted once", e.fits, 1)


@unit("C11", funcs=["preprocessing.zero_mean._ZeroMeanPrePostProcessing.pre_processing", "preprocessing.zero_mean._ZeroMeanPrePostProcessing.post_processing"] + W, cases=300)
def centering(m):
    """the mean of this fit's data is removed and added back"""
    N = m.np
    n, k = m.dim("n", 1, 5), m.dim("k", 2, 7)
    q = m.dim("q", 1, 7)
    X1, X, Y = m.array("X1", (n, k + 1), m.kind()), m.array("X", (n, k), m.kind()), m.array("Y", (n, q), m.kind())
    what = m.choice("mean", ["all", "time", "axis1", "weights"])
    e = Echo()
    if what == "all":
        w = zero_mean_preprocessing(e)
        mean = X.sum() / (n * k)
    elif what == "time":
        w = zero_mean_preprocessing(e, axis=1)
        mean = (X.sum(axis=1) / k)[:, None]
    elif what == "axis1":
        w = zero_mean_preprocessing(e, -1)
        mean = (X.sum(axis=1) / k)[:, None]
    else:
        p = m.array("p", (k,), "f", pos=True)
        w = zero_mean_preprocessing(e, axis=1, weights=p)
        mean = (N.dot(X, p) / p.sum())[:, None]
    how = m.choice("fit", FIT)
    if what != "weights" and m.choice("refit", [False, True]):
        w.fit(X1)
    refit(m, w, e, X, how)
    m.eq("centred data", e.X, X - mean)
    e.Y = Y
    m.eq("mean added back", w.reconstructed_data, Y + mean)
    e.Y = e.X
    m.eq("identity", w.reconstructed_data, X)


@unit("C11", funcs=["preprocessing.svd_projection._SvdProjectionPrePostProcessing.pre_processing", "preprocessing.svd_projection._SvdProjectionPrePostProcessing.post_processing", "utils.compute_svd"] + W, cases=300)
def projection(m):
    """data projected on the leading left singular vectors, reconstruction lifted back"""
    N = m.np
    n, k, r = m.dim("n", 2, 6), m.dim("k", 2, 7), m.dim("r", 1, 5)
    X = m.array("X", (n, k), m.kind())
    rank = m.choice("rank", ["r", -1])
    rank = r if rank == "r" else rank
    e = Echo()
    w = svd_projection_preprocessing(e, rank)
    if m.choice("refit", [False, True]):
        w.fit(m.array("X1", (n + 1, k), m.kind()))
    refit(m, w, e, X, m.choice("fit", FIT))
    U = compute_svd(X, rank)[0]
    m.eq("projected data", e.X, N.dot(U.conj().T, X))
    q = m.dim("q", 1, 5)
    e.Y = Y = m.array("Y", (U.shape[1], q), m.kind())
    m.eq("lifted", w.reconstructed_data, N.dot(U, Y))
    e.Y = e.X
    P = w.reconstructed_data
    m.eq("orthogonal projection: retained directions", N.dot(U.conj().T, P), N.dot(U.conj().T, X))
    m.eq("orthogonal projection: residual orthogonal", N.dot(U.conj().T, X - P), 0 * N.dot(U.conj().T, X), atol=1e-9)
    if rank == -1:
        m.eq("all directions retained", P, X)


@unit("C11", funcs=W + ["preprocessing.svd_projection._SvdProjectionPrePostProcessing.pre_processing", "preprocessing.zero_mean._ZeroMeanPrePostProcessing.pre_processing"], cases=300)
def nested(m):
    """the outer transformation comes first on the way in and last on the way out"""
    N = m.np
    n, k, r = m.dim("n", 2, 6), m.dim("k", 3, 7), m.dim("r", 1, 5)
    X = m.array("X", (n, k), m.kind())
    d = m.dim("d", 1, 3)
    m.assume(d <= k)
    e = Echo()
    order = m.choice("order", ["mean(svd)", "svd(mean)", "svd(hankel)"])
    mu = (X.sum(axis=1) / k)[:, None]
    if order == "mean(svd)":
        w = zero_mean_preprocessing(svd_projection_preprocessing(e, r), axis=1)
        U = compute_svd(X - mu, r)[0]
        want, back = N.dot(U.conj().T, X - mu), lambda Y: N.dot(U, Y) + mu
    elif order == "svd(mean)":
        w = svd_projection_preprocessing(zero_mean_preprocessing(e, axis=1), r)
        U = compute_svd(X, r)[0]
        P = N.dot(U.conj().T, X)
        nu = (P.sum(axis=1) / k)[:, None]
        want, back = P - nu, lambda Y: N.dot(U, Y + nu)
    else:
        w = svd_projection_preprocessing(hankel_preprocessing(e, d), r)
        U = compute_svd(X, r)[0]
        P = N.dot(U.conj().T, X)
        want, back = pseudo_hankel_matrix(P, d), None
    w.fit(X)
    m.eq("transformed data", e.X, want)
    e.Y = Y = m.array("Y", want.shape, m.kind())
    if back is not None:
        m.eq("inverse transformations", w.reconstructed_data, back(Y))
    else:
        e.Y = e.X
        m.eq("inverse transformations", w.reconstructed_data, N.dot(U, P))


@unit("C11", funcs=W + ["preprocessing.pre_post_processing.PrePostProcessingDMD.__getattribute__", "preprocessing.randomized._RandomizedPrePostProcessing.pre_processing", "preprocessing.randomized._RandomizedPrePostProcessing.post_processing"], sym=False, cases=600, weight=2, bounded="random data, wrappers, wrapped models and options")
def real_models(m):
    """the wrapper around real models: attributes are the wrapped model's, fitted on the transformed data"""
    kind = m.choice("kind", ["f", "c"])
    inner = m.choice("inner", ["DMD", "FbDMD", "SpDMD", "CDMD", "HankelDMD", "DMDc", "MrDMD", "EDMD", "BOPDMD"])
    if inner in ("DMDc", "EDMD", "BOPDMD"):
        kind = "f"
    n, nt = m.pr.randint(4, 7), m.pr.randint(9, 14)
    if inner == "MrDMD":
        nt = 40
    X = C.noisy(m, n=n, nt=nt, kind=kind, level=0.05)
    kw = dict(svd_rank=m.choice("rank", [2, 3, -1]))
    if inner in ("DMD", "FbDMD", "HankelDMD"):
        kw.update(exact=m.choice("exact", [False, True]), opt=m.choice("opt", [False, True]))

    def make():
        if inner == "CDMD":
            return pydmd.CDMD(compression_matrix="linear", **kw) if False else pydmd.CDMD(compression_matrix=Cm, **kw)
        if inner == "SpDMD":
            return pydmd.SpDMD(gamma=0.1, verbose=False, max_iterations=20, **kw)
        if inner == "HankelDMD":
            return pydmd.HankelDMD(d=2, **kw)
        if inner == "MrDMD":
            return pydmd.MrDMD(pydmd.DMD(**kw), max_level=1, max_cycles=1)
        if inner == "BOPDMD":
            return pydmd.BOPDMD(svd_rank=2, varpro_opts_dict={"maxiter": 3})
        return getattr(pydmd, inner)(**kw)

    what = m.choice("wrapper", ["mean", "svd", "random", "hankel", "custom"])
    a = m.pr.uniform(0.5, 2)

    class Scale(PrePostProcessing):
        def pre_processing(self, X):
            s = np.abs(X).max()
            return s, X / s * a

        def post_processing(self, s, Y):
            return Y * s / a

    def transform(X):
        if what == "mean":
            mu = X.mean(axis=1, keepdims=True)
            return X - mu, lambda Y: Y + mu
        if what == "svd":
            U = np.linalg.svd(X, full_matrices=False)[0][:, :3]
            return U.conj().T @ X, lambda Y: U @ Y
        if what == "random":
            from pydmd.utils import compute_rqb

            Q = compute_rqb(X, 3, 10, 2, None, 4).Q
            return Q.conj().T @ X, lambda Y: Q @ Y
        if what == "hankel":
            return np.vstack([X[:, :-1], X[:, 1:]]), lambda Y: np.hstack([Y[: len(Y) // 2, :1], Y[len(Y) // 2 :]])
        s = np.abs(X).max()
        return X / s * a, lambda Y: Y * s / a

    d = make if inner != "CDMD" else None
    T0, _ = transform(X)
    if inner == "CDMD":
        Cm = C.cplx(m.rng, (4, T0.shape[0]), "f")
    d, ref = make(), make()
    w = dict(mean=lambda: zero_mean_preprocessing(d, axis=1), svd=lambda: svd_projection_preprocessing(d, 3), random=lambda: randomized_preprocessing(d, 3, seed=4), hankel=lambda: hankel_preprocessing(d, 2), custom=lambda: PrePostProcessingDMD(d, Scale()))[what]()
    if m.choice("refit", [False, True]):
        w.fit(C.noisy(m, n=n, nt=nt, kind=kind, level=0.05), *rest(m, inner, T0.shape[1]))
    T, back = transform(X)
    args = rest(m, inner, T.shape[1])
    if m.choice("call", ["pos", "kw"]) == "kw":
        import inspect

        names = list(inspect.signature(type(d).fit).parameters)[2:]
        w.fit(X=X, **dict(zip(names, args)))
    else:
        w.fit(X, *args)
    ref.fit(T, *args)
    for k in C.OUT:
        if k == "reconstructed_data" or not hasattr(type(ref), k):
            continue
        try:
            v = getattr(ref, k)
        except Exception:
            continue
        if callable(v) or v is None:
            continue
        u = getattr(w, k)
        if isinstance(v, np.ndarray) and v.dtype != object:
            m.eq(k, u, v, tol=1e-6)
        elif isinstance(v, dict):
            m.same(k, dict(u), dict(v))
    m.holds("wrapped model", w.pre_post_processed_dmd is d)
    r, q = w.reconstructed_data, ref.reconstructed_data
    if callable(q):
        r, q = r(), q()
    m.assume(np.isfinite(q).all() and np.abs(q).max() < 1e6)
    m.eq("reconstruction", r, back(q), tol=1e-5)
    if inner in ("DMD", "FbDMD", "CDMD", "HankelDMD", "SpDMD") and len(ref.eigs) > 1:
        b = np.ones(len(ref.modes_activation_bitmask), bool)
        b[0] = False
        w.modes_activation_bitmask = b
        m.eq("mode selection reaches the wrapped model", d.modes_activation_bitmask, b)
        ref.modes_activation_bitmask = b
        m.eq("reconstruction after selection", w.reconstructed_data, back(ref.reconstructed_data), tol=1e-5)
    if inner in ("DMD", "CDMD", "FbDMD") and what != "hankel":
        w.dmd_time["tend"] = w.dmd_time["tend"] + 2
        ref.dmd_time["tend"] = ref.dmd_time["tend"] + 2
        m.eq("forecast", w.reconstructed_data, back(ref.reconstructed_data), tol=1e-5)
    import tempfile, os

    if m.pr.random() < 0.1:
        t = tempfile.mkdtemp()
        try:
            f = os.path.join(t, "d.pkl")
            before = w.reconstructed_data
            if not callable(before) and what != "custom":
                w.save(f)
                import pickle

                m.eq("saved and loaded", pickle.load(open(f, "rb")).reconstructed_data, before)
        finally:
            import shutil

            shutil.rmtree(t)


def rest(m, inner, nt):
    if inner == "DMDc":
        return (m.rng.standard_normal((1, nt - 1)),)
    if inner == "BOPDMD":
        return (np.arange(nt) * 0.1,)
    return ()
