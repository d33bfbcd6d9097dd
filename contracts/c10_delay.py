"""C10: delay embedding and its inverse agree for every delay and window."""
import copy

import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
import pydmd
from pydmd.preprocessing import hankel_preprocessing
from pydmd.utils import pseudo_hankel_matrix

H = ["preprocessing.hankel._HankelPrePostProcessing.pre_processing", "preprocessing.hankel._HankelPrePostProcessing.post_processing", "preprocessing.hankel._reconstructions", "preprocessing.hankel._first_reconstructions"]


@unit("C10", funcs=["utils.pseudo_hankel_matrix"], cases=200)
def embedding(m):
    """column t is the stack of snapshots t .. t+d-1"""
    n, k, d = m.dim("n", 1, 5), m.dim("k", 1, 9), m.dim("d", 1, 6)
    m.assume(d <= k)
    X = m.array("X", (n, k), m.kind())
    Hm = pseudo_hankel_matrix(X, d)
    m.same("shape", Hm.shape, (n * d, k - d + 1))
    i, j, t = m.dim("i", 0, 4), m.dim("j", 0, 5), m.dim("t", 0, 8)
    m.assume(i < n)
    m.assume(j < d)
    m.assume(t < k - d + 1)
    m.eq("entry", Hm[j * n + i, t], X[i, t + j])
    m.eq("block", Hm[j * n : (j + 1) * n, t], X[:, t + j])


class Echo:
    """a stand-in for the wrapped model: remembers what it is fitted on, returns what it is given"""

    def fit(self, X, *a, **k):
        self.X, self.args, self.kwargs = X, a, k
        return self

    @property
    def reconstructed_data(self):
        return self.Y


def weights(m, d, how):
    if how in ("first", "mean"):
        return how
    return m.array("w", (d,), "f", pos=True)


@unit("C10", funcs=H, cases=400)
def copies(m):
    """post-processing of any matrix: first occurrence, mean or weighted mean of the available copies"""
    n, T, d = m.dim("n", 1, 4), m.dim("T", 1, 7), m.dim("d", 1, 5)
    how = m.choice("method", ["first", "mean", "weights"])
    w = weights(m, d, how)
    e = Echo()
    W = hankel_preprocessing(e, d, w)
    X = m.array("X", (n, T + d - 1), m.kind())
    W.fit(X)
    e.Y = Y = m.array("Y", (n * d, T), m.kind())
    y = W.reconstructed_data
    m.same("shape", y.shape, (n, T + d - 1))
    if m.sym:
        N = m.np
        i, t = m.dim("i", 0), m.dim("t", 0)
        m.assume(i < n)
        m.assume(t < T + d - 1)
        if how == "first":
            if t < d - 1:
                m.eq("first copy", y[i, t], Y[t * n + i, 0])
            else:
                m.eq("first copy", y[i, t], Y[(d - 1) * n + i, t - d + 1])
        else:
            # copies j = lo .. hi-1, copy j in row block j, column t-j
            from engine import ix as I, term as S
            from engine.arr import SymScalar

            av = lambda j: I.conj([I.le(I.ix(0), I.ix(t) - j), I.lt(I.ix(t) - j, I.ix(T))])
            ww = w.reader() if how == "weights" else (lambda j: S.ONE)
            yf = Y.reader()
            num = S.tsum(I.ix(d), lambda j: S.ite(av(j), S.mul(ww(j), yf(j * I.ix(n) + I.ix(i), I.ix(t) - j)), S.ZERO))
            den = S.tsum(I.ix(d), lambda j: S.ite(av(j), ww(j), S.ZERO))
            m.eq("mean of the copies", y[i, t] * SymScalar(den), SymScalar(num))
        return
    ww = np.ones(d) if how == "mean" else w
    for t in range(T + d - 1):
        js = [j for j in range(d) if 0 <= t - j < T]
        c = np.array([Y[j * n : (j + 1) * n, t - j] for j in js])
        if how == "first":
            m.eq("first copy", y[:, t], c[-1])
        else:
            m.eq("mean of the copies", y[:, t], np.average(c, axis=0, weights=ww[js]))


@unit("C10", funcs=H + ["utils.pseudo_hankel_matrix"], cases=400)
def inverse(m):
    """embedding then post-processing is the identity, whatever the delay and the weights"""
    n, k, d = m.dim("n", 1, 4), m.dim("k", 1, 8), m.dim("d", 1, 6)
    m.assume(d <= k)
    w = weights(m, d, m.choice("method", ["first", "mean", "weights"]))
    e = Echo()
    X = m.array("X", (n, k), m.kind())
    W = hankel_preprocessing(e, d, w)
    W.fit(X)
    m.eq("fitted on the embedding", e.X, pseudo_hankel_matrix(X, d))
    e.Y = e.X
    m.eq("left inverse", W.reconstructed_data, X)


@unit("C10", funcs=["hankeldmd.HankelDMD.__init__", "hankeldmd.HankelDMD.fit"], sym=False, cases=150, bounded="random data and options")
def rejected(m):
    d = m.dim("d", 1, 5)
    k = m.dim("k", 0, 8)
    cls = m.choice("class", [pydmd.HankelDMD, pydmd.HODMD])
    m.assume(k != d)
    m.raises("wrong number of weights", ValueError, cls, d=d, reconstruction_method=[1.0] * k)
    m.raises("wrong number of weights", ValueError, cls, d=d, reconstruction_method=np.ones(k))
    m.raises("two-dimensional weights", ValueError, cls, d=d, reconstruction_method=np.ones((d, 1 + k)))
    nt = m.dim("nt", 2, 6)
    m.assume(d > nt)
    m.raises("too few snapshots", ValueError, cls(svd_rank=1, d=d).fit, m.rng.standard_normal((3, nt)))


@unit("C10", funcs=["hankeldmd.HankelDMD.reconstructed_data", "hankeldmd.HankelDMD._update_sub_dmd_time", "hankeldmd.HankelDMD._hankel_first_occurrence", "hodmd.HODMD.fit"] + H, sym=False, cases=900, weight=2, bounded="random data, delays, methods and windows on the sampling grid")
def windows(m):
    """one column per instant of any output window, each the value of that instant"""
    rec = C.model(m, ["HankelDMD", "HODMD"])
    exact = m.choice("exact data", [False, True])
    dd = m.opts["d"]
    first = m.opts["method"] == "first" or dd == 1
    if exact:
        L = C.lin(m, n=m.pr.randint(3, 6), nt=m.pr.randint(12, 18), r=m.choice("r", [1, 2, 3]))
        X = L.X
        kw = dict(rec.opts)
        kw.update(svd_rank=L.r, tlsq_rank=0, tikhonov_regularization=None, opt=False, forward_backward=False, rescale_mode=None)
        if rec.name == "HODMD":
            kw.pop("tikhonov_regularization")
            kw["svd_rank_extra"] = -1
        D = getattr(pydmd, rec.name)(**kw)
    else:
        (X,) = rec.data()
        D = rec.make()
    nt = X.shape[1]
    D.fit(X)
    m.same("embedding", D.ho_snapshots.shape, (X.shape[0] * dd if rec.name == "HankelDMD" else D.ho_snapshots.shape[0], nt - dd + 1))
    if rec.name == "HankelDMD":
        m.eq("embedded snapshots", D.ho_snapshots, np.vstack([X[:, j : nt - dd + 1 + j] for j in range(dd)]))
    lam = D.eigs
    m.assume(len(lam) and np.abs(lam).min() > 1e-2 and np.abs(lam).max() < 3)
    whole = D.reconstructed_data
    m.same("whole window", whole.shape, X.shape)
    if exact:
        m.eq("exact data reproduced", whole, X, tol=1e-5)
    # origin and unit of time
    s0, h = (0, 1) if m.choice("origin", [False, True]) else (m.pr.choice([-4, 2.5, 10]), m.pr.choice([0.1, 0.5, 3, 1]))
    if (s0, h) != (0, 1):
        for w in (D.original_time, D.dmd_time):
            w["t0"], w["dt"], w["tend"] = s0, h, s0 + h * (nt - 1)
        m.eq("other origin and unit of time", D.reconstructed_data, whole, tol=1e-6)
    ext = m.pr.randint(0, 6)
    D.dmd_time["tend"] = s0 + h * (nt - 1 + ext)
    long = D.reconstructed_data
    m.same("forecast", long.shape[1], nt + ext)
    if first or exact:
        m.eq("forecast keeps the past", long[:, :nt], whole, tol=1e-6)
    a = m.pr.randint(0, nt + ext - 1)
    st = m.pr.randint(1, 3)
    q = m.pr.randint(1, (nt + ext - 1 - a) // st + 1)
    D.dmd_time["t0"], D.dmd_time["dt"], D.dmd_time["tend"] = s0 + a * h, st * h, s0 + h * (a + st * (q - 1))
    y = D.reconstructed_data
    m.same("one column per instant", y.shape[1], q)
    if first or exact:
        m.eq("value of each instant", y, long[:, a : a + st * (q - 1) + 1 : st], tol=1e-5, scale=np.abs(long).max())
    m.eq("asking again", D.reconstructed_data, y)


@unit("C10", funcs=["hankeldmd.HankelDMD.fit", "dmd.DMD.fit"], sym=False, cases=300, bounded="random data and options")
def sub_model(m):
    """the delay model is the plain model on the embedded data"""
    rec = C.model(m, ["HankelDMD"])
    (X,) = rec.data()
    d, dd = rec.make(), m.opts["d"]
    d.fit(X)
    kw = {k: v for k, v in rec.opts.items() if k not in ("d", "reconstruction_method")}
    p = pydmd.DMD(**kw)
    nt = X.shape[1]
    E = np.vstack([X[:, j : nt - dd + 1 + j] for j in range(dd)])
    p.fit(E)
    m.eq("eigenvalues", d.eigs, p.eigs)
    m.eq("modes", d.modes, p.modes)
    m.eq("amplitudes", d.amplitudes, p.amplitudes)
    R = p.reconstructed_data
    m.assume(np.isfinite(R).all())
    n = X.shape[0]
    meth = rec.opts["reconstruction_method"]
    w = np.ones(dd) if isinstance(meth, str) else np.asarray(meth)
    for t in range(nt):
        js = [j for j in range(dd) if 0 <= t - j < nt - dd + 1]
        c = np.array([R[j * n : (j + 1) * n, t - j] for j in js])
        m.eq("reconstruction", d.reconstructed_data[:, t], c[-1] if isinstance(meth, str) and meth == "first" else np.average(c, axis=0, weights=w[js]))


@unit("C10", funcs=["hankeldmd.HankelDMD.reconstructed_data", "hankeldmd.HankelDMD._update_sub_dmd_time", "hankeldmd.HankelDMD._hankel_first_occurrence", "hankeldmd.HankelDMD._snapshot_index", "dmdbase.DMDBase.dynamics"] + H, cases=200, weight=2)
def window_first(m):
    """every output window of the delay model: one column per instant, each its value in the whole window"""
    quiet(m)
    n, k, d, r = m.dim("n", 1, 4), m.dim("k", 6, 10), m.dim("d", 1, 4), m.dim("r", 1, 3)
    m.assume(d + 1 <= k)
    X = m.array("X", (n, k), m.kind())
    C.any_operator(m, n * d, r)
    D = pydmd.HankelDMD(svd_rank=r, d=d)
    D.fit(X)
    if not m.sym:
        m.assume(np.abs(D.eigs).min() > 1e-2 and np.abs(D.eigs).max() < 5)
    e = m.dim("ext", 0, 4)
    D.dmd_time["tend"] = k - 1 + e
    whole = D.reconstructed_data
    m.same("one column per instant", whole.shape, (n, k + e))
    a, st, q, p = m.dim("a", 0, 9), m.dim("st", 1, 3), m.dim("q", 1, 9), m.dim("p", 0, 8)
    m.assume(p < q)
    m.assume(a + st * (q - 1) <= k - 1 + e)
    D.dmd_time["t0"] = a
    D.dmd_time["dt"] = st
    D.dmd_time["tend"] = a + st * (q - 1)
    y = D.reconstructed_data
    m.same("one column per instant", y.shape, (n, q))
    m.eq("value of the instant", y[:, p], whole[:, a + st * p], tol=1e-6)
