"""C09: mode selection keeps (mode, eigenvalue, amplitude) triples consistent."""
import copy

import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
import pydmd
from pydmd import DMD
from pydmd.dmd_modes_tuner import ModesSelectors, ModesTuner, select_modes, stabilize_modes

B = ["dmdbase.ActivationBitmaskProxy.__init__", "dmdbase.ActivationBitmaskProxy.change_bitmask", "dmdbase.DMDBase.modes_activation_bitmask", "dmdbase.DMDBase._allocate_modes_bitmask_proxy"]


def fitted(m, r=None):
    """a fitted DMD with arbitrary modes, eigenvalues and amplitudes"""
    quiet(m)
    n, k = m.dim("n", 3, 6), m.dim("k", 5, 9)
    X = m.array("X", (n, k), m.kind())
    r = r or m.dim("r", 1, 3)
    C.any_operator(m, n, r)
    d = DMD(svd_rank=r)
    d.fit(X)
    return d, r


def triples(m, d):
    N = m.np
    return [N.array(d.modes), N.array(d.eigs), N.array(d.amplitudes)]


def gather(t, b):
    return [t[0][:, b], t[1][b], t[2][b]]


def same(m, name, got, want):
    for x, y, z in zip(got, want, ("modes", "eigenvalues", "amplitudes")):
        m.eq(f"{name}: {z}", x, y)


@unit("C09", funcs=B, cases=200)
def fresh(m):
    """after a fit every mode is active"""
    d, r = fitted(m)
    op = d.operator
    m.eq("modes", d.modes, op.modes)
    m.eq("eigenvalues", d.eigs, op.eigenvalues)
    b = d.modes_activation_bitmask
    m.same("one flag per mode", b.shape[0], d.eigs.shape[0])
    m.holds("all active", b == True)  # noqa: E712
    m.same("triples", [d.modes.shape[1], d.amplitudes.shape[0]], [d.eigs.shape[0]] * 2)


@unit("C09", funcs=B, cases=300, weight=2)
def change(m):
    """induction step of every history: from any flags a and any edits E of the active
    triples, new flags b expose exactly the active triples, edits kept, order kept"""
    N = m.np
    d, r = fitted(m)
    O = triples(m, d)
    q = d.eigs.shape[0]
    a, b = m.mask("a", q), m.mask("b", q)
    d.modes_activation_bitmask = a
    same(m, "active triples", triples(m, d), gather(O, a))
    m.eq("flags", d.modes_activation_bitmask, a)
    # arbitrary edits of the active triples
    c = d.eigs.shape[0]
    E = [m.array("Em", (d.modes.shape[0], c), "c"), m.array("Ee", (c,), "c"), m.array("Ea", (c,), "c")]
    if not m.sym and O[1].dtype.kind != "c":
        E = [x.real.copy() for x in E]
    d.modes[:] = E[0]
    d.eigs[:] = E[1]
    d.amplitudes[:] = E[2]
    same(m, "edited", triples(m, d), E)
    W = [N.array(x) for x in O]
    W[0][:, a] = E[0]
    W[1][a] = E[1]
    W[2][a] = E[2]
    d.modes_activation_bitmask = b
    same(m, "re-activated with edits", triples(m, d), gather(W, b))
    m.eq("flags", d.modes_activation_bitmask, b)
    d.modes_activation_bitmask = N.full(q, True)
    same(m, "nothing lost", triples(m, d), W)


@unit("C09", funcs=B + ["dmdbase.DMDBase.reconstructed_data", "dmdbase.DMDBase.dynamics"], cases=200)
def reconstruction(m):
    """reconstruction uses exactly the active triples"""
    N = m.np
    d, r = fitted(m)
    O = triples(m, d)
    a = m.mask("a", d.eigs.shape[0])
    d.modes_activation_bitmask = a
    t = gather(O, a)
    k = d.snapshots.shape[1]
    p = N.arange(k)
    m.eq("reconstruction", d.reconstructed_data, N.dot(t[0], t[1][:, None] ** p[None] * t[2][:, None]), tol=1e-6)


@unit("C09", funcs=B + ["dmdbase.DMDBase.__getitem__"], cases=300, split=[("key", 4)])
def indexing(m):
    """indexing exposes the chosen original triples and leaves the source alone"""
    N = m.np
    d, r = fitted(m, m.dim("r", 3, 3))
    q = d.eigs.shape[0]
    m.assume(q == 3)
    O = triples(m, d)
    e = m.scalar("e", "c")
    if not m.sym and O[1].dtype.kind != "c":
        e = e.real
    d.eigs[1] = e
    O[1][1] = e
    a = m.choice("flags", [[True, True, True], [False, True, True], [True, False, True]])
    d.modes_activation_bitmask = N.array(a)
    key = m.choice("key", [1, [2, 0], slice(0, 2), np.array([1, 2])])
    s = d[key]
    idx = {"1": [1], "[2, 0]": [0, 2], "slice(0, 2, None)": [0, 1]}.get(str(key), [1, 2])
    want = [O[0][:, idx], O[1][idx], O[2][idx]]
    same(m, "indexed", triples(m, s), want)
    s.amplitudes[:] = 5.0
    s.eigs[:] = 2.0
    s.modes[:] = 0.0
    s.modes_activation_bitmask = N.array([True, True, False])
    b = N.array(a)
    m.eq("source flags", d.modes_activation_bitmask, b)
    same(m, "source", triples(m, d), gather(O, b))
    d.modes_activation_bitmask = N.full(3, True)
    same(m, "source, all", triples(m, d), O)


@unit("C09", funcs=B + ["dmdbase.DMDBase.__getitem__"], sym=False, cases=200, bounded="random keys")
def indexing_rejected(m):
    d, r = fitted(m)
    k = m.choice("key", ["str", "float list", "repeat", "out", "tuple", "mask float"])
    key = {"str": "a", "float list": [0.5], "repeat": [0, 0], "out": [99], "tuple": (0,), "mask float": np.array([0.5])}[k]
    m.raises("rejected", (ValueError, IndexError), lambda: d[key])
    m.raises("wrong length", ValueError, lambda: setattr(d, "modes_activation_bitmask", np.ones(len(d.eigs) + 1, bool)))
    m.raises("wrong dtype", RuntimeError, lambda: setattr(d, "modes_activation_bitmask", np.ones(len(d.eigs))))


@unit("C09", funcs=["dmd_modes_tuner.stabilize_modes"] + B, cases=300)
def stabilise(m):
    """eigenvalues in the annulus go to the unit circle, amplitudes take the magnitude"""
    N = m.np
    d, r = fitted(m)
    O = triples(m, d)
    lo, hi = m.scalar("lo", lo=0.1, hi=1), m.scalar("hi", lo=1, hi=3)
    a = m.mask("a", d.eigs.shape[0])
    d.modes_activation_bitmask = a
    A = gather(O, a)
    s = stabilize_modes(d, lo, hi)
    m.holds("in place", s is d)
    mod = N.abs(A[1])
    ins = N.logical_and(mod > lo, mod < hi)
    m.eq("eigenvalues", d.eigs, N.where(ins, A[1] / mod, A[1]))
    m.eq("amplitudes", d.amplitudes, N.where(ins, A[2] * mod, A[2]))
    m.eq("modes", d.modes, A[0])
    d.modes_activation_bitmask = N.full(O[1].shape[0], True)
    m.eq("inactive eigenvalues", d.eigs[N.logical_not(a)], O[1][N.logical_not(a)])
    m.eq("inactive amplitudes", d.amplitudes[N.logical_not(a)], O[2][N.logical_not(a)])


@unit("C09", funcs=["dmd_modes_tuner.select_modes", "dmd_modes_tuner.ModesTuner.select"] + B, cases=300)
def selection(m):
    """from any flags and any criterion on the active modes: flags of rejected modes are cleared, or
    their amplitudes set to zero, nothing else changes"""
    N = m.np
    d, r = fitted(m)
    O = triples(m, d)
    q = d.eigs.shape[0]
    a = m.mask("a", q)
    d.modes_activation_bitmask = a
    A = triples(m, d)
    b = m.mask("b", A[1].shape[0])
    null = m.choice("nullify", [False, True])
    via = m.choice("through", ["function", "tuner"])
    if via == "function":
        s = select_modes(d, lambda x: b, nullify_amplitudes=null)
        m.holds("in place", s is d)
    else:
        ModesTuner(d, in_place=True).select(lambda x: b, nullify_amplitudes=null)
    if null:
        m.eq("flags", d.modes_activation_bitmask, a)
        same(m, "triples", triples(m, d), [A[0], A[1], N.where(b, A[2], 0)])
    else:
        w = N.zeros(q, dtype=bool)
        w[a] = b
        m.eq("flags", d.modes_activation_bitmask, w)
        same(m, "triples", triples(m, d), gather(O, w))


@unit("C09", funcs=["dmd_modes_tuner.ModesSelectors.threshold", "dmd_modes_tuner.ModesSelectors.stable_modes"], cases=300)
def criteria(m):
    """the documented modes and no others"""
    N = m.np
    d, r = fitted(m)
    mod = N.abs(d.eigs)
    c = m.choice("criterion", ["threshold", "stable", "inside", "outside"])
    u, v = m.scalar("u", lo=0.1, hi=0.9), m.scalar("v", lo=0.1, hi=0.9)
    if c == "threshold":
        lo, hi = u, u + v
        got = ModesSelectors.threshold(lo, hi)(d)
    elif c == "stable":
        lo, hi = 1 - u, 1 + u
        got = ModesSelectors.stable_modes(max_distance_from_unity=u)(d)
    elif c == "inside":
        lo, hi = 1 - u, None
        got = ModesSelectors.stable_modes(max_distance_from_unity_inside=u)(d)
    else:
        lo, hi = None, 1 + v
        got = ModesSelectors.stable_modes(max_distance_from_unity_outside=v)(d)
    want = N.full(mod.shape[0], True)
    if lo is not None:
        want = N.logical_and(want, mod >= lo)
    if hi is not None:
        want = N.logical_and(want, mod <= hi)
    m.eq("selected", got, want)


@unit("C09", funcs=["dmd_modes_tuner.ModesSelectors.integral_contribution", "dmd_modes_tuner.ModesSelectors._compute_integral_contribution"], sym=False, cases=500, bounded="random data and options of the models with modes, random output windows")
def integral(m):
    """the n modes of largest |mode|^2 times total |time evolution| over the data window"""
    rec = C.model(m, HIST[:-2])
    d = rec.make()
    d.fit(*rec.data())
    k = len(d.eigs)
    m.assume(k > 1)
    full = np.array([np.linalg.norm(p) ** 2 * np.abs(y).sum() for p, y in zip(d.modes.T, d.dynamics)])
    m.assume(np.isfinite(full).all())
    if m.choice("window", [False, True]):
        d.dmd_time["tend"] = d.dmd_time["tend"] + 25
        d.dmd_time["t0"] = 2
    w = dict(d.dmd_time)
    n = m.pr.randint(1, k)
    s = np.sort(full)[::-1]
    m.assume(n == k or s[n - 1] - s[n] > 1e-6 * s[0])
    got = ModesSelectors.integral_contribution(n)(d)
    want = np.zeros(k, bool)
    want[np.argsort(full)[::-1][:n]] = True
    m.eq("selected", got, want)
    m.same("window untouched", dict(d.dmd_time), w)


HIST = ["DMD", "FbDMD", "CDMD", "RDMD", "SubspaceDMD", "SpDMD", "HankelDMD", "HODMD", "PrePost", "PiDMD", "BOPDMD", "VarProDMD"]


@unit("C09", funcs=["dmdbase.ActivationBitmaskProxy", "dmdbase.DMDBase.__getitem__", "dmd_modes_tuner.select_modes", "dmd_modes_tuner.stabilize_modes", "dmd_modes_tuner.ModesTuner"], sym=False, cases=1200, weight=2, bounded="random histories of up to 12 operations on random models")
def histories(m):
    """a reference list of triples with flags follows every history"""
    rec = C.model(m, HIST)
    d = rec.make()
    d.fit(*rec.data())
    k = len(d.eigs)
    M, E, A = np.array(d.modes), np.array(d.eigs), np.array(d.amplitudes)
    on = np.ones(k, bool)
    if m.choice("window", [False, True]) and rec.name not in ("BOPDMD", "VarProDMD"):
        try:
            d.dmd_time["tend"] = d.dmd_time["tend"] + 3
        except Exception:
            pass
    for _ in range(m.pr.randint(1, 12)):
        op = m.pr.choice(["mask", "select", "nullify", "stabilize", "edit", "refit", "copy", "tuner", "tunerin", "index", "window", "read", "named"])
        m.opts.setdefault("history", []).append(op)
        act = np.flatnonzero(on)
        if op == "mask":
            on = m.rng.random(k) < 0.7
            v = on.copy()
            d.modes_activation_bitmask = v if m.pr.random() < 0.5 else v.tolist()
            v[:] = False  # the instance keeps its own copy
        elif op in ("select", "nullify"):
            keep = m.rng.random(len(act)) < 0.6
            res = select_modes(d, lambda x: keep, nullify_amplitudes=op == "nullify", return_indexes=True)
            m.holds("returned instance", res[0] is d)
            m.same("cut indexes", sorted(int(i) for i in res[1]), [int(i) for i in np.flatnonzero(~keep)])
            if op == "nullify":
                A[act[~keep]] = 0
            else:
                on[act[~keep]] = False
        elif op == "named":
            lo = float(np.median(np.abs(E)))
            ModesTuner(d, in_place=True).select("module_threshold", low_threshold=lo, up_threshold=1e9)
            on[act[np.abs(E[act]) < lo]] = False
        elif op in ("stabilize", "tunerin"):
            lo, hi = m.pr.uniform(0, 1), m.pr.uniform(1, 2)
            if op == "stabilize":
                _, idx = stabilize_modes(d, lo, hi, return_indexes=True)
            else:
                ModesTuner(d, in_place=True).stabilize(lo, hi)
                idx = None
            ab = np.abs(E)
            hit = on & (lo < ab) & (ab < hi)
            A[hit] = A[hit] * ab[hit]
            E[hit] = E[hit] / ab[hit]
            if idx is not None:
                m.same("stabilised indexes", [int(i) for i in idx], [int(i) for i in np.flatnonzero(hit[act])])
        elif op == "edit" and len(act):
            j = m.pr.randrange(len(act))
            what = m.pr.choice("mea")
            if what == "m":
                d.modes[:, j] *= 2
                M[:, act[j]] *= 2
            elif what == "e":
                d.eigs[j] *= 0.9
                E[act[j]] *= 0.9
            else:
                d.amplitudes[j] *= 3
                A[act[j]] *= 3
        elif op == "copy":
            c = select_modes(d, lambda x: np.zeros(len(act), bool), in_place=False)
            m.same("copy is empty", len(c.eigs), 0) if len(act) else None
            c = stabilize_modes(d, 0.0, in_place=False)
        elif op == "tuner":
            t = ModesTuner([d, d])
            t.select(lambda x: np.zeros(len(x.eigs), bool))
        elif op == "index" and rec.name not in ("HankelDMD", "HODMD", "PrePost"):
            j = m.pr.randrange(k)
            s = d[j]
            m.eq("indexed eigenvalue", s.eigs, E[[j]])
            m.eq("indexed mode", s.modes, M[:, [j]])
            m.eq("indexed amplitude", s.amplitudes, A[[j]])
            s.amplitudes[:] = 9
            s.modes[:] = 9
            s.modes_activation_bitmask = np.ones(k, bool)
            s.eigs[:] = 9
        elif op == "read":
            C.outputs(d, ["dynamics", "reconstructed_data", "frequency"])
        m.eq("flags", np.array(d.modes_activation_bitmask), on)
        m.eq("eigenvalues", d.eigs, E[on])
        m.eq("modes", d.modes, M[:, on])
        m.eq("amplitudes", d.amplitudes, A[on])
        if len(d.eigs) and np.abs(E).max() < 20:
            m.same("time evolution per mode", d.dynamics.shape[0], int(on.sum()))
            if rec.name not in ("HankelDMD", "HODMD", "PrePost"):
                m.eq("reconstruction", d.reconstructed_data, d.modes @ d.dynamics)
