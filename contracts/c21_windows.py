"""C21: sliding-window separation: windows tile the data and bands add up."""
import numpy as np

from contracts import common as C
from engine.contract import unit
from pydmd import BOPDMD
from pydmd.costs import COSTS
from pydmd.mrcosts import mrCOSTS

K, R = "costs.COSTS.", "mrcosts.mrCOSTS."


class Labels:
    """a clustering giving every frequency the label of the band it falls into"""

    def __init__(self, n_clusters, edges=(), **kw):
        self.edges, self.n = np.asarray(edges), n_clusters

    def fit_predict(self, x):
        y = np.searchsorted(self.edges, x[:, 0])
        self.cluster_centers_ = np.array([[x[y == j, 0].mean()] for j in range(self.n)])
        return y


def starts(nt, w, s):
    """documented layout: steps of s, and a last window flush with the end where samples are left over"""
    a = list(range(0, nt - w + 1, s))
    return a + ([nt - w] if a[-1] + w < nt else [])


def run(m, rank=None, glob=None):
    X, t = C.multi_scale(m)
    nt = X.shape[1]
    w = m.dim("window", 20, 40)
    s = m.dim("step", max(1, w // 4), w)
    if m.choice("exact", [False, True]):
        nt = w + s * ((nt - w) // s)
        X, t = X[:, :nt], t[:, :nt]
    glob = m.choice("global", [True, False]) if glob is None else glob
    rank = rank or m.choice("rank", [2, 4])
    c = COSTS(svd_rank=rank, global_svd=glob, pydmd_kwargs={"eig_constraints": m.choice("constraint", [set(), {"conjugate_pairs", "stable"}, {"imag"}])})
    try:
        c.fit(X, t, w, s)
    except ValueError as e:
        if "conjugate pairs" in str(e):
            m.skip("no conjugate pairs")
        raise
    return c, X, t, w, s, rank, glob


@unit("C21", name="layout", funcs=[K + "_build_windows", K + "get_window_indices", K + "fit", K + "calculate_lv_kern"], sym=False, cases=40, bounded="series of at most 100 samples, windows of 20-40")
def layout(m):
    """every sample is covered; each window is fitted on exactly its own samples and times"""
    c, X, t, w, s, rank, glob = run(m)
    nt = X.shape[1]
    S = starts(nt, w, s)
    m.same("number of windows", int(c.n_slides), len(S))
    seen = np.zeros(nt)
    U = np.linalg.svd(X, full_matrices=False)[0][:, :rank] if glob else None
    kern = np.tanh(16 * np.arange(w) / w) - np.tanh(16 * (np.arange(w) - w - 1) / w) - 1
    for k, a in enumerate(S):
        i = np.arange(nt)[c.get_window_indices(k)]
        m.same("window", list(i), list(range(a, a + w)))
        seen[i] += 1
        m.eq("times", c.time_array[k], t[0, a : a + w])
        mean = X[:, a : a + w].mean(axis=1)
        m.eq("mean", c.window_means_array[k], mean)
        if k == m.dim("checked", 0, len(S) - 1):
            kw = dict(c._pydmd_kwargs) if hasattr(c, "_pydmd_kwargs") else m.skip("options not visible")
            d = BOPDMD(**{**kw, "svd_rank": rank, "proj_basis": U}).fit((X[:, a : a + w] - mean[:, None]) * kern, t[:, a : a + w] - t[0, a])
            m.eq("frequencies", c.omega_array[k], d.eigs, 1e-6)
            m.eq("components", c.modes_array[k] * c.amplitudes_array[k], d.modes * d.amplitudes, 1e-6)
    m.holds("covered", np.all(seen >= 1), f"{seen}")
    m.same("remembered", (c.window_length, c.step_size), (w, s))


def formula(c, X, t, w, s, classes, means=True):
    """the documented weighted overlap of the window reconstructions, band by band"""
    n, nt = X.shape
    B = c.n_components
    out, tot = np.zeros((B, n, nt)), np.zeros(nt)
    g = np.exp(-((np.arange(w) - (w - 1) / 2) ** 2) / (w / 8) ** 2)
    for k, a in enumerate(starts(nt, w, s)):
        tt = t[0, a : a + w] - t[0, a]
        for j in range(B):
            i = classes[k] == j
            Z = ((c.modes_array[k][:, i] * c.amplitudes_array[k][i]) @ np.exp(np.outer(c.omega_array[k][i], tt))).real
            if j == 0 and means:
                Z = Z + X[:, a : a + w].mean(axis=1)[:, None]
            out[j, :, a : a + w] += g * Z
        tot[a : a + w] += g
    return out / tot


@unit("C21", name="bands", funcs=[K + "cluster_omega", K + "_cluster", K + "transform_omega", K + "scale_reconstruction", K + "scale_separation", K + "global_reconstruction", K + "build_kern", K + "to_xarray", K + "from_xarray"], sym=False, cases=40, bounded="series of at most 100 samples, windows of 20-40, up to 3 bands")
def bands(m):
    """bands partition the frequencies, add up to the whole, and low plus high is the whole"""
    c, X, t, w, s, rank, glob = run(m, rank=4)
    B = m.choice("bands", [1, 2, 3])
    how = m.choice("transform", ["absolute", "square_frequencies", "log10"])
    c.cluster_omega(n_components=B, transform_method=how)
    y, v = c.omega_classes, np.abs(c.omega_array.imag)
    m.holds("labels", y.shape == v.shape and y.min() >= 0 and y.max() <= B - 1, f"{np.unique(y)}")
    m.holds("sorted bands", np.all(np.diff(c.cluster_centroids) >= 0), f"{c.cluster_centroids}")
    for j in range(B - 1):
        if np.any(y == j) and np.any(y > j):
            m.holds("bands follow the frequencies", v[y == j].max() <= v[y > j].min() * (1 + 1e-6) + 1e-9, f"{v[y == j].max()} {v[y > j].min()}")
    means = m.choice("means", [True, False])
    kw = {} if means else {"scale_reconstruction_kwargs": {"include_means": False}}
    sc = c.scale_reconstruction() if means else c.scale_reconstruction(include_means=False)
    m.eq("bands", sc, formula(c, X, t, w, s, y, means), 1e-7)
    glo = c.global_reconstruction(**kw)
    m.eq("sum of the bands", sc.sum(axis=0), glo)
    low, high = c.scale_separation(**kw)
    m.eq("low plus high", low + high, glo)
    m.eq("low", low, sc[0])
    m.eq("independent of the number of bands", one(c, B, how, kw), glo, 1e-7)
    if glob:
        b = COSTS().from_xarray(c.to_xarray())
        m.eq("after export and import", b.scale_reconstruction() if means else b.scale_reconstruction(include_means=False), c.scale_reconstruction() if means else c.scale_reconstruction(include_means=False))


def one(c, B, how, kw):
    """the whole as reconstructed from a single band"""
    c.cluster_omega(n_components=1, transform_method=how)
    return c.global_reconstruction(**kw)


@unit("C21", name="constant", funcs=[K + "scale_reconstruction", K + "build_kern", K + "calculate_lv_kern"], sym=False, cases=40, bounded="series of at most 100 samples")
def constant(m):
    """normalised weighting: overlapping windows that agree give back what they agree on, constants included"""
    n, nt = 4, m.dim("nt", 60, 100)
    w = m.dim("window", 20, 40)
    s = m.dim("step", max(1, w // 4), w)
    dt = m.choice("dt", [0.1, 1.0])
    t = dt * (np.arange(nt) + m.choice("origin", [0, 5]))[None]
    c0 = m.rng.standard_normal(n)
    X = c0[:, None] + 1e-9 * m.rng.standard_normal((n, nt))
    c = COSTS(svd_rank=2, global_svd=False, pydmd_kwargs={"eig_constraints": {"imag"}})
    c.fit(X, t, w, s)
    c.cluster_omega(n_components=1, transform_method="absolute")
    m.eq("constant", c.global_reconstruction(), np.repeat(c0[:, None], nt, axis=1), 1e-6)


@unit("C21", name="levels", funcs=[R + "fit", R + "global_cluster_omega", R + "_global_cluster", R + "multi_res_interp", R + "multi_res_deterp", R + "global_scale_reconstruction", R + "global_reconstruction", R + "get_background", R + "interp_fill"], sym=False, cases=16, bounded="two levels, series of about 100 samples, equal ranks, regular windows")
def levels(m):
    """each level decomposes the low-frequency part of the level before it; the bands of all levels and the background add
    up to the global reconstruction, the bands of one level to its high-frequency part"""
    w1, s1, w2, s2 = m.choice("shape", [(20, 4, 40, 8), (20, 5, 30, 10), (16, 4, 32, 4), (24, 6, 48, 12)])
    nt = max(w2, w1) + s1 * s2 * m.dim("steps", 1, 2)
    nt = w2 + ((nt - w2) // s2) * s2
    while (nt - w1) % s1:
        nt += s2
        if nt > 200:
            m.skip("no common length")
    X, t = C.multi_scale(m, nt=nt)
    B = m.choice("bands", [2, 3])
    mr = mrCOSTS(window_length_array=[w1, w2], step_size_array=[s1, s2], svd_rank_array=[4, 4], global_svd_array=[True, True], n_components_array=[2, 2], transform_method="absolute")
    mr.fit(X, t, verbose=False)
    a, b = mr.costs_array
    ref = COSTS(svd_rank=4)
    ref.fit(X, t, w1, s1)
    m.eq("first level", a.omega_array, ref.omega_array, 1e-7)
    low = a.scale_separation()[0]
    ref = COSTS(svd_rank=4)
    ref.fit(low, t, w2, s2)
    m.eq("second level", b.omega_array, ref.omega_array, 1e-6)
    for lev, (w, s) in zip((a, b), ((w1, s1), (w2, s2))):
        for k in range(int(lev.n_slides)):
            m.eq("times", lev.time_array[k], t[0, k * s : k * s + w])
    mr.global_cluster_omega(B)
    sc, bg, glo = mr.global_scale_reconstruction(), mr.get_background(), mr.global_reconstruction()
    m.eq("everything adds up", sc.sum(axis=(0, 1)) + bg, glo)
    m.eq("background", bg, b.scale_separation()[0], 1e-9)
    y = mr.ragged_omega_classes
    for k, lev in enumerate((a, b)):
        m.holds("slow part left to the next level", np.array_equal(y[k] < 0, lev.omega_classes == 0))
        m.holds("bands", y[k].max() < B)
        m.eq("bands of the level", sc[k].sum(axis=0), lev.scale_separation()[1], 1e-7)
    m.eq("whole", glo, a.scale_separation()[1] + b.scale_separation()[1] + b.scale_separation()[0], 1e-7)


# -- for all sizes --------------------------------------------------------------
@unit("C21", name="tiles", funcs=[K + "_build_windows", K + "get_window_indices", K + "fit"], con=False, timeout=600, weight=5)
def tiles(m):
    """layout for every length, window and step: windows stay inside, leave no sample out,
    and each fit receives its own samples (mean removed, tapered) and times"""
    C.quiet(m)
    N = m.np
    n, nt, w, r = m.dim("n"), m.dim("nt", 3), m.dim("w", 3), m.dim("r")
    s = m.dim("step")
    m.assume(w <= nt)
    m.assume(s <= w)
    X, t = m.array("X", (n, nt), "f"), m.array("t", (1, nt), "f")
    kern = m.array("kern", (w,), "f")
    m.stub("pydmd.costs:COSTS.calculate_lv_kern", lambda *a, **k: kern, "any taper")
    m.stub("pydmd.costs:COSTS._build_proj_basis", lambda self, d, svd_rank=None: m.array("U", (n, r), "f"), "any basis (C02)")
    m.stub("pydmd.costs:compute_rank", lambda *a, **k: r, "rank query (C01)")
    q = (nt - w) // s
    rest = nt - (s * q + w)
    Kw = q + 1 + (1 if rest > 0 else 0)
    start = lambda k: nt - w if rest > 0 and k == Kw - 1 else s * k
    g = {}

    class Fit:
        def __init__(self, **kw):
            m.eq("rank of the fits", kw["svd_rank"], r)

        def fit(self, D, T):
            k = g["k"]
            a = start(k)
            Xw = X[:, a : a + w]
            m.eq("samples of the window", D, (Xw - N.mean(Xw, axis=1)[:, None]) * kern)
            m.eq("times of the window", T, t[:, a : a + w] - t[0, a])
            self.modes, self.eigs, self.amplitudes = m.array("modes", (n, r), "c"), m.array("eigs", (r,), "c"), m.array("amp", (r,), "f")

    m.stub("pydmd.costs:BOPDMD", Fit, "any fit (C19)")

    def inv(v):
        g["k"] = v.index
        return [("windows", v.count == Kw)]

    m.loop("pydmd.costs:COSTS.fit", "for0", inv)
    c = COSTS(svd_rank=r)
    c.fit(X, t, w, s)
    m.holds("number of windows", c.n_slides == Kw)
    k = C.idx(m, "window", Kw)
    sl = c.get_window_indices(k)
    m.eq("window", N.arange(nt)[sl], start(k) + N.arange(w))
    j = C.idx(m, "sample", nt)
    cov = j // s
    cov = cov if cov <= Kw - 1 else Kw - 1
    i = N.arange(nt)[c.get_window_indices(cov)]
    m.holds("covered", (i[0] <= j) & (j <= i[w - 1]))


@unit("C21", name="overlap", funcs=[K + "scale_reconstruction", K + "global_reconstruction", K + "scale_separation"], con=False, split=[("slides", 2), ("bands", 2)], bounded="at most three overlapping windows and two bands; every size, position, frequency, assignment and weight")
def overlap(m):
    """the bands are the weighted means over the windows of the parts assigned to them; they add up to the weighted mean of
    the whole windows, whatever the assignment"""
    from engine import models as M

    C.quiet(m)
    N = m.np
    n, nt, w, r = m.dim("n"), m.dim("nt", 2), m.dim("w"), m.dim("r")
    m.assume(w <= nt)
    S, B = m.choice("slides", [1, 3]), m.choice("bands", [1, 2])
    means = m.choice("means", [True, False])
    c = COSTS(svd_rank=r)
    c._n_slides, c._n_components, c._n_data_vars, c._n_time_steps, c._window_length = S, B, n, nt, w
    W, b, om = m.array("W", (S, n, r), "c"), m.array("b", (S, r), "c"), m.array("om", (S, r), "c")
    c._modes_array, c._amplitudes_array, c._omega_array = W, b, om
    mean, T = m.array("mean", (S, n), "f"), m.array("T", (S, w), "f")
    c._window_means_array, c._time_array = mean, T
    high = [m.mask(f"high{k}", r) for k in range(S)]
    c._omega_classes = N.stack([N.where(h, 1, 0) if B == 2 else N.where(h, 0, 0) for h in high])
    M.ctx().memo[("unique", M.arrkey(c._omega_classes))] = list(range(B))
    c._cluster_centroids = np.arange(B) + 0.5
    g = m.array("g", (w,), "f")
    start = [C.idx(m, f"start{k}", nt - w + 1) for k in range(S)]
    m.stub("pydmd.costs:COSTS.build_kern", lambda *a: g, "any weights")
    m.stub("pydmd.costs:COSTS.get_window_indices", lambda self, k: slice(start[k], start[k] + w), "any windows inside the series (proved above)")
    got = c.scale_reconstruction() if means else c.scale_reconstruction(include_means=False)
    kw = dict(scale_reconstruction_kwargs={"include_means": means})
    num, den = [0 * m.array("zero", (n, nt), "f") for _ in range(B)], N.zeros(nt)
    place = N.arange(nt)
    for k in range(S):
        a = start[k]
        inside = (place >= a) & (place < a + w)
        at = N.where(inside, place - a, 0 * place)
        tt = (T[k] - N.min(T[k]))[at]
        wt = N.where(inside, g[at], 0 * g[at])
        for j in range(B):
            part = N.where(high[k] if j else ~high[k], b[k], 0 * b[k]) if B == 2 else b[k]
            Z = N.real((W[k] * part[None, :]) @ N.exp(om[k][:, None] * tt[None, :]))
            if j == 0 and means:
                Z = Z + mean[k][:, None]
            num[j] = num[j] + wt[None, :] * Z
        den = den + wt
    for j in range(B):
        m.eq(f"band {j}", got[j], num[j] / den[None, :])
    whole = num[0] if B == 1 else num[0] + num[1]
    m.eq("sum of the bands", c.global_reconstruction(**kw), whole / den[None, :])
    lo, hi = c.scale_separation(**kw)
    m.eq("low plus high", lo + hi, whole / den[None, :])
