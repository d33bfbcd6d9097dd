"""C14: multi-resolution windows partition time and levels sum to the reconstruction."""
import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
import pydmd
from pydmd import DMD, MrDMD
from pydmd.mrdmd import BinaryTree

TREE = ["mrdmd.BinaryTree.__getitem__", "mrdmd.BinaryTree.__setitem__", "mrdmd.BinaryTree.__len__", "mrdmd.BinaryTree.index_leaves", "mrdmd.BinaryTree.levels"]
PART = ["mrdmd.MrDMD." + f for f in ("partial_modes", "partial_dynamics", "partial_eigs", "partial_amplitudes", "partial_reconstructed_data", "partial_time_interval", "modes", "dynamics", "eigs", "reconstructed_data", "enumerate")]
TIME = ["mrdmd.MrDMD." + f for f in ("time_window_bins", "time_window_eigs", "time_window_frequency", "time_window_growth_rate", "time_window_amplitudes", "partial_time_interval")]


class Window:
    """stand-in for the model of one window: an arbitrary decomposition of whatever it is fitted on"""

    def __init__(self, m, level, leaf, r, kind):
        self.m, self.tag, self.r, self.kind = m, f"{level}.{leaf}", r, kind

    def fit(self, x):
        m = self.m
        self.x = m.np.array(x)
        n, k = x.shape
        r = self.r
        self.M, self.E, self.b, self.D = m.array("M" + self.tag, (n, r), self.kind), m.array("E" + self.tag, (r,), self.kind), m.array("b" + self.tag, (r,), self.kind), m.array("D" + self.tag, (r, k), self.kind)
        if not m.sym:
            self.E = self.E * m.pr.choice([0.1, 1, 10])
        self.mask = m.np.ones(r, dtype=bool)
        self.R = [m.array(f"R{self.tag}", (n, k), self.kind)]
        return self

    def select(self, v):
        self.mask = v
        self.R.append(self.m.array(f"R{self.tag}v{len(self.R)}", self.R[0].shape, self.kind))

    modes_activation_bitmask = property(lambda self: self.mask, select)
    modes = property(lambda self: self.M[:, self.mask])
    eigs = property(lambda self: self.E[self.mask])
    amplitudes = property(lambda self: self.b[self.mask])
    dynamics = property(lambda self: self.D[self.mask])
    frequency = property(lambda self: self.E[self.mask] * 2)
    growth_rate = property(lambda self: self.E[self.mask] * 3)
    reconstructed_data = property(lambda self: self.R[-1])  # changes with every selection


def keep(N, dmd, criteria):
    """contract of select_modes, discharged in C09.selection"""
    mask = N.array(dmd.modes_activation_bitmask)
    mask[mask] = criteria(dmd)
    dmd.modes_activation_bitmask = mask
    return dmd


def fitted(m, depths, modes=None):
    quiet(m)
    L = m.choice("depth", depths)
    n, k = m.dim("n", 1, 4), m.dim("k", 4, 40)
    kind = m.kind()
    r = modes or m.dim("r", 1, 4)
    X = m.array("X", (n, k), kind)
    cycles = m.dim("cycles", 1, 4)
    W = {}

    def build(level, leaf):
        W[level, leaf] = Window(m, level, leaf, r, kind)
        return W[level, leaf]

    N = m.np
    if m.sym:
        from engine import patch

        m.assume(k >= 4 * 2**L)
        m.assume(patch.b_int(N.floor(N.log(k / 4.0) / N.log(2.0))) + 1 >= L)
    else:
        m.assume(k >= 4 * 2 ** (L - 1) and k >= 4)
    m.stub("pydmd.mrdmd:select_modes", lambda dmd, criteria: keep(N, dmd, criteria), "contract of select_modes (C09.selection)")
    d = MrDMD(build, max_level=L, max_cycles=cycles)
    d.fit(X)
    return d, W, X, L, cycles


@unit("C14", funcs=["mrdmd.MrDMD.fit", "mrdmd.MrDMD._build_tree", "mrdmd.MrDMD._dmd_builder", "mrdmd.MrDMD.reconstructed_data"] + TREE, cases=200, weight=3, timeout=500, split=[("depth", 4)])
def windows(m):
    """each window is fitted on its own samples of the residual of the levels above, keeps exactly its
    slow modes, and the reconstruction is the sum over levels"""
    N = m.np
    d, W, X, L, cycles = fitted(m, [0, 1, 2, 3])
    res = X
    total = None
    for level in range(L + 1):
        parts = N.array_split(res, 2**level, axis=1)
        for leaf in range(2**level):
            w = W[level, leaf]
            m.eq("window data", w.x, parts[leaf])
            m.eq("slow modes kept", w.mask, N.abs(N.log(w.E)) < 2 * np.pi * cycles / w.x.shape[1])
        rec = N.hstack([W[level, leaf].reconstructed_data for leaf in range(2**level)])
        res = res - rec
        total = rec if total is None else total + rec
    m.eq("sum over levels", d.reconstructed_data, total)


@unit("C14", funcs=PART + TREE, cases=200, weight=3, timeout=500, split=[("depth", 3)])
def queries(m):
    """per-level and per-window queries return the windows asked for, in order"""
    N = m.np
    L = m.choice("depth", [0, 1, 2])
    quiet(m)
    n, k = m.dim("n", 1, 4), m.dim("k", 4, 40)
    kind = m.kind()
    W = {}

    def build(level, leaf):
        w = W[level, leaf] = Window(m, level, leaf, m.dim(f"r{level}.{leaf}", 1, 3), kind)
        w.fit(m.array(f"x{level}.{leaf}", (n, m.dim(f"k{level}.{leaf}", 2, 6)), kind))
        return w

    d = MrDMD(build, max_level=L)
    for level in range(L + 1):
        ws = [W[level, leaf] for leaf in range(2**level)]
        m.eq("level modes", d.partial_modes(level), N.hstack([w.M for w in ws]))
        m.eq("level eigenvalues", d.partial_eigs(level), N.concatenate([w.E for w in ws]))
        m.eq("level amplitudes", d.partial_amplitudes(level), N.concatenate([w.b for w in ws]))
        m.eq("level reconstruction", d.partial_reconstructed_data(level), N.hstack([N.dot(w.M, w.D) for w in ws]))
        for leaf, w in enumerate(ws):
            m.eq("window modes", d.partial_modes(level, leaf), w.M)
            m.eq("window eigenvalues", d.partial_eigs(level, leaf), w.E)
            m.eq("window amplitudes", d.partial_amplitudes(level, leaf), w.b)
            m.eq("window evolution", d.partial_dynamics(level, leaf), w.D)
            m.eq("window reconstruction", d.partial_reconstructed_data(level, leaf), N.dot(w.M, w.D))
    allw = [W[level, leaf] for level in range(L + 1) for leaf in range(2**level)]
    m.eq("all eigenvalues", d.eigs, N.concatenate([w.E for w in allw]))
    m.eq("all modes", d.modes, N.hstack([w.M for w in allw]))
    m.holds("enumeration", [(a, b) for a, b, c in d.enumerate()] == [(level, leaf) for level in range(L + 1) for leaf in range(2**level)] and all(c is W[a, b] for a, b, c in d.enumerate()))


@unit("C14", funcs=TIME + TREE, cases=300, weight=2, timeout=500, split=[("depth", 3)])
def time_windows(m):
    """the windows meeting the interval, all of them and no others, in order"""
    N = m.np
    d, W, X, L, cycles = fitted(m, [0, 1, 2])
    T = X.shape[1]
    t0, tend = m.scalar("t0", gen=lambda r: m.pr.choice([m.pr.uniform(-3, 40), float(m.pr.randint(-2, 40)), 0.0, T / 2, T / 4])), m.scalar("tend", gen=lambda r: m.pr.choice([m.pr.uniform(0, 60), float(m.pr.randint(0, 50)), float(T), T / 2, T / 4]))
    m.assume(t0 < tend)
    m.assume(t0 < T)
    m.assume(tend > 0)
    bins = [tuple(int(v) for v in b) for b in d.time_window_bins(t0, tend)]
    want = []
    for level in range(L + 1):
        for leaf in range(2**level):
            iv = d.partial_time_interval(level, leaf)
            m.eq("window start", iv["t0"] * 2**level, T * leaf, atol=1e-9)
            m.eq("window end", iv["tend"] * 2**level, T * (leaf + 1), atol=1e-9)
            m.eq("window length", iv["delta"] * 2**level, T, atol=1e-9)
            if iv["t0"] < tend and t0 < iv["tend"]:
                want.append((level, leaf))
    m.holds("windows meeting the interval", bins == want, f"{bins} {want}")
    ws = [W[b] for b in want]
    m.eq("eigenvalues", d.time_window_eigs(t0, tend), N.concatenate([w.eigs for w in ws]))
    m.eq("amplitudes", d.time_window_amplitudes(t0, tend), N.concatenate([w.amplitudes for w in ws]))
    m.eq("frequencies", d.time_window_frequency(t0, tend), N.concatenate([w.frequency for w in ws]))
    m.eq("growth rates", d.time_window_growth_rate(t0, tend), N.concatenate([w.growth_rate for w in ws]))


def fit(m, d, X):
    try:
        return d.fit(X)
    except np.linalg.LinAlgError:
        m.assume(False)  # a residual of exactly zero: no eigenvalues to speak of


SUB = {
    "DMD": lambda m: DMD(svd_rank=m.choice("svd_rank", [-1, 0, 1, 2]), exact=m.choice("exact", [False, True]), opt=m.choice("opt", [False, True])),
    "FbDMD": lambda m: pydmd.FbDMD(svd_rank=m.choice("svd_rank", [1, 2])),
    "SubspaceDMD": lambda m: pydmd.SubspaceDMD(svd_rank=1),
    "CDMD": lambda m: pydmd.CDMD(svd_rank=2, compression_matrix=np.eye(2, m.dims["n"])),
}


@unit("C14", funcs=["mrdmd.MrDMD.fit", "mrdmd.MrDMD._dmd_builder", "mrdmd.MrDMD.dynamics", "dmd_modes_tuner.select_modes"] + PART, sym=False, cases=400, weight=2, bounded="random data, 4-60 instants, depths 0-4, real sub-models")
def real_models(m):
    """the same with the real models inside, each level recomputed from scratch"""
    quiet(m)
    n, k, L = m.dim("n", 2, 6), m.dim("k", 4, 60), m.dim("L", 0, 4)
    kind = m.choice("kind", ["f", "c"])
    t = np.linspace(0, 6, k)
    X = C.cplx(m.rng, (n, 3), kind) @ np.array([np.exp(0.3j * t), np.exp(2j * t), np.exp((-0.1 + 7j) * t)]) + 0.05 * C.cplx(m.rng, (n, k), kind)
    X = X.real.copy() if kind == "f" else X
    cyc = m.choice("cycles", [1, 2, 3, 8])
    how = m.choice("sub", list(SUB))
    sub = SUB[how](m)
    form = m.choice("form", ["instance", "list", "function"])
    cap = min(L, int(np.floor(np.log2(k / 4.0) + 1e-12)) + 1)
    if form == "list":
        arg = [SUB[how](m) for _ in range(L + 1)]
        m.assume(L <= cap)
    else:
        arg = sub if form == "instance" else (lambda level, leaf: __import__("copy").deepcopy(sub))
    d = MrDMD(arg, max_level=L, max_cycles=cyc)
    if form != "list" and m.choice("refit", [False, True]):
        fit(m, d, C.cplx(m.rng, (n, m.pr.randint(4, 40)), kind))
    fit(m, d, X)
    m.same("depth", d.max_level, cap)
    res, total = X.astype(complex), 0
    for level in range(cap + 1):
        recs = []
        for leaf, x in enumerate(np.array_split(res, 2**level, axis=1)):
            w = d.dmd_tree[level, leaf]
            x = x.real if kind == "f" else x
            m.eq("window data", w.snapshots, x, tol=1e-6, atol=1e-8 * np.abs(X).max())
            ref = arg[level] if form == "list" else sub
            ref = fit(m, __import__("copy").deepcopy(ref), w.snapshots)
            slow = np.abs(np.log(ref.eigs)) < 2 * np.pi * cyc / x.shape[1]
            m.assume(np.all(np.abs(np.abs(np.log(ref.eigs)) - 2 * np.pi * cyc / x.shape[1]) > 1e-9))
            m.eq("slow modes kept", w.eigs, ref.eigs[slow], tol=1e-6)
            m.eq("modes kept", w.modes, ref.modes[:, slow], tol=1e-6)
            m.eq("amplitudes kept", w.amplitudes, ref.amplitudes[slow], tol=1e-6, atol=1e-9)
            r = (ref.modes[:, slow] * ref.amplitudes[slow]) @ (ref.eigs[slow][:, None] ** np.arange(x.shape[1])[None])
            recs.append(r)
            big = (np.abs(ref.modes[:, slow]) * np.abs(ref.amplitudes[slow])) @ (np.abs(ref.eigs[slow])[:, None] ** np.arange(x.shape[1])[None])
            m.assume(big.size == 0 or big.max() < 1e4 * np.abs(X).max())
            m.eq("window reconstruction", d.partial_reconstructed_data(level, leaf), r, tol=1e-5, atol=1e-7 * np.abs(X).max())
            m.eq("window evolution", d.partial_dynamics(level, leaf), w.dynamics)
        rec = np.hstack(recs)
        m.eq("level reconstruction", d.partial_reconstructed_data(level), rec, tol=1e-5, atol=1e-7 * np.abs(X).max())
        total = total + rec
        res = res - (rec.real if kind == "f" else rec)
    m.eq("sum over levels", d.reconstructed_data, total, tol=1e-5, atol=1e-7 * np.abs(X).max())
    m.eq("modes times dynamics per level", d.modes.shape[1], d.dynamics.shape[0])


@unit("C14", funcs=PART + TREE + TIME, sym=False, cases=150, bounded="levels and windows outside the tree, random depths")
def rejected(m):
    quiet(m)
    L = m.dim("L", 0, 3)
    X = m.rng.standard_normal((3, 64))
    d = MrDMD(DMD(svd_rank=1), max_level=L, max_cycles=5).fit(X)
    level = m.choice("level", [-2, -1, "over", "far"])
    level = L + 1 if level == "over" else L + 5 if level == "far" else level
    ok = m.pr.randint(0, L)
    leaf = m.choice("leaf", [-1, "over", "far"])
    leaf = 2**ok if leaf == "over" else 2**ok + 7 if leaf == "far" else leaf
    for f in (d.partial_modes, d.partial_dynamics, d.partial_eigs, d.partial_amplitudes, d.partial_reconstructed_data):
        m.raises("level outside the tree", (ValueError, TypeError), f, level)
        m.raises("level outside the tree", ValueError, f, level, 0)
        m.raises("window outside the level", ValueError, f, ok, leaf)
    m.raises("level outside the tree", ValueError, d.partial_time_interval, level, 0)
    m.raises("window outside the level", ValueError, d.partial_time_interval, ok, leaf)
    m.raises("one model per level", ValueError, MrDMD, [DMD(svd_rank=1)] * (L + m.choice("models", [0, 2, 3])), max_level=L)
