"""C05: the output time window selects instants without changing the model."""
import copy

import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
import pydmd
from pydmd import DMD

BASE = ["dmdbase._timesteps", "dmdbase.DMDBase.dmd_timesteps", "dmdbase.DMDBase.original_timesteps", "dmdbase.DMDBase.dynamics", "dmdbase.DMDBase._set_initial_time_dictionary", "dmdbase.DMDTimeDict"]


@unit("C05", funcs=["dmd.DMD.fit"] + BASE, cases=100, split=[("pair", 2)])
def after_fit(m):
    """0..n-1 with step 1, twice"""
    N = m.np
    quiet(m)
    n, k = m.dim("n", 2), m.dim("k", 4, 14)
    X = m.array("X", (n, k), m.kind())
    r = m.dim("r", 1, 3)
    C.any_operator(m, n, r)
    d = DMD(svd_rank=r)
    if m.choice("pair", [False, True]):
        d.fit(X, m.array("Y", (n, k), m.kind()))
    else:
        d.fit(X)
    for w in (d.original_time, d.dmd_time):
        m.same("keys", sorted(w), ["dt", "t0", "tend"])
        m.same("t0", w["t0"], 0)
        m.same("dt", w["dt"], 1)
        m.same("tend", w["tend"], k - 1)
    m.holds("windows are separate objects", d.original_time is not d.dmd_time)
    m.eq("output instants", d.dmd_timesteps, N.arange(k))
    m.eq("data instants", d.original_timesteps, N.arange(k))
    m.eq("one column per instant", d.reconstructed_data, N.dot(d.modes, (d.eigs[:, None] ** N.arange(k)[None]) * d.amplitudes[:, None]), tol=1e-6)


def window(m, d, s0, ds, q):
    d.dmd_time["t0"] = s0
    d.dmd_time["dt"] = ds
    d.dmd_time["tend"] = s0 + ds * (q - 1)


@unit("C05", funcs=["dmd.DMD.fit"] + BASE, cases=300, weight=2)
def same_state(m):
    """the state at one instant does not depend on the window it is part of"""
    N = m.np
    quiet(m)
    n, k = m.dim("n", 2), m.dim("k", 4, 9)
    X = m.array("X", (n, k), m.kind())
    r = m.dim("r", 1, 2)
    C.any_operator(m, n, r)
    o = m.dim("o", 0, 3)
    m.assume(o < k)
    d = DMD(svd_rank=r, opt=m.choice("opt", [0, 1])and o)
    d.fit(X)
    if not m.sym:
        m.assume(np.abs(d.eigs).min() > 0.05 and np.abs(d.eigs).max() < 5 and (np.iscomplexobj(d.eigs) or d.eigs.min() > 0))
    s0, ds, e = m.scalar("s0", lo=0.5, hi=3), m.scalar("ds", lo=0.1, hi=2), m.scalar("e", lo=0.1, hi=2)
    q, p = m.dim("q", 1, 9), m.dim("p", 1, 9)
    i, j = m.dim("i", 0, 8), m.dim("j", 0, 8)
    m.assume(i < q)
    m.assume(j < p)
    lam, Phi, b = d.eigs, d.modes, d.amplitudes
    window(m, d, s0, ds, q)
    a = d.reconstructed_data
    m.same("one column per instant", a.shape[1], q)
    ta = d.dmd_timesteps
    m.eq("instants", ta, s0 + ds * N.arange(q))
    window(m, d, s0 + i * ds - j * e, e, p)
    c = d.reconstructed_data
    m.same("one column per instant", c.shape[1], p)
    m.eq("same state at the same instant", a[:, i], c[:, j], tol=1e-6)
    m.same("original window", [d.original_time[x] for x in ("t0", "tend", "dt")], [0, k - 1, 1])
    m.eq("model untouched: modes", d.modes, Phi)
    m.eq("model untouched: eigenvalues", d.eigs, lam)
    m.eq("model untouched: amplitudes", d.amplitudes, b)


@unit("C05", funcs=["dmdbase._timesteps"], cases=300)
def last_instant(m):
    """instants never pass the end, also when the end is not on the grid"""
    N = m.np
    quiet(m)
    X = m.array("X", (3, 6), "f")
    C.any_operator(m, 3, 2)
    d = DMD(svd_rank=2)
    d.fit(X)
    s0, ds, f = m.scalar("s0", lo=-3, hi=3), m.scalar("ds", lo=0.1, hi=2), m.scalar("f", lo=0.01, hi=0.98)
    q = m.dim("q", 1, 12)
    if m.sym:
        m.assume(q < 10**6)
    d.dmd_time["t0"] = s0
    d.dmd_time["dt"] = ds
    d.dmd_time["tend"] = s0 + ds * (q - 1 + f)
    m.eq("instants up to the end", d.dmd_timesteps, s0 + ds * N.arange(q))


@unit("C05", funcs=["dmdbase.DMDBase.dmd_time", "dmdbase.DMDBase._set_initial_time_dictionary", "dmdbase.DMDTimeDict"], cases=100)
def dictionaries(m):
    """caller's dictionaries are copied; only the three documented keys"""
    quiet(m)
    n, k = m.dim("n", 2), m.dim("k", 4, 9)
    X = m.array("X", (n, k), "f")
    C.any_operator(m, n, 2)
    d = DMD(svd_rank=2)
    d.fit(X)
    mine = {"t0": 1, "tend": 5, "dt": 2}
    d.dmd_time = mine
    m.holds("not the caller's object", d.dmd_time is not mine)
    d.dmd_time["tend"] = 9
    m.same("caller's dictionary", mine, {"t0": 1, "tend": 5, "dt": 2})
    mine["t0"] = 77
    m.same("output window", [d.dmd_time[x] for x in ("t0", "tend", "dt")], [1, 9, 2])
    m.same("original window", [d.original_time[x] for x in ("t0", "tend", "dt")], [0, k - 1, 1])
    src = {"t0": 3, "tend": 3 + k - 1, "dt": 1}
    d._set_initial_time_dictionary(src)
    d.dmd_time["tend"] = 100
    m.same("supplied dictionary", src, {"t0": 3, "tend": 3 + k - 1, "dt": 1})
    m.same("original window kept", d.original_time["tend"], 3 + k - 1)
    d.original_time["dt"] = 4
    m.same("output window kept", d.dmd_time["dt"], 1)
    for w in (d.original_time, d.dmd_time):
        for key in ("T0", "foo", 3, "t", ""):
            m.raises("unknown key rejected", KeyError, w.__setitem__, key, 1)
    m.raises("missing key rejected", ValueError, d._set_initial_time_dictionary, {"t0": 0, "tend": 4})
    m.raises("extra key rejected", ValueError, d._set_initial_time_dictionary, {"t0": 0, "tend": 4, "dt": 1, "foo": 2})
    e = DMD(svd_rank=2)
    m.raises("no window before fit", RuntimeError, lambda: e.dmd_time)
    m.raises("no window before fit", RuntimeError, lambda: e.original_time)


@unit("C05", funcs=["dmdbase.DMDBase.frequency", "dmdbase.DMDBase.growth_rate"], cases=200)
def frequency(m):
    N = m.np
    quiet(m)
    n, k = m.dim("n", 2), m.dim("k", 4, 9)
    X = m.array("X", (n, k), m.kind())
    r = m.dim("r", 1, 2)
    C.any_operator(m, n, r)
    d = DMD(svd_rank=r)
    d.fit(X)
    dt, e = m.scalar("dt", lo=0.1, hi=2), m.scalar("e", lo=0.1, hi=2)
    d.original_time["dt"] = dt
    d.dmd_time["dt"] = e
    m.eq("frequency", d.frequency, N.log(d.eigs).imag / (2 * np.pi * dt), tol=1e-9)
    if not m.sym:
        m.eq("frequency is the phase", d.frequency, np.where(np.isreal(d.eigs) & np.isrealobj(d.eigs), 0, np.angle(d.eigs)) / (2 * np.pi * dt), tol=1e-9)


GRID = ["HankelDMD", "HODMD"]


@unit("C05", funcs=["hankeldmd.HankelDMD.reconstructed_data"] + BASE, sym=False, cases=600, bounded="random data, options and windows for every model with an output window")
def every_model(m):
    rec = C.model(m, ["DMD", "FbDMD", "CDMD", "RDMD", "SubspaceDMD", "EDMD", "PiDMD", "HankelDMD", "HODMD", "SpDMD", "PrePost"])
    args = rec.data()
    X = args[0]
    nt = X.shape[1]
    d = rec.make()
    d.fit(*args)
    m.holds("original window", d.original_time == {"t0": 0, "tend": nt - 1, "dt": 1}, f"{d.original_time}") if rec.name != "PrePost" or m.opts["wrapper"] != "hankel" else None
    m.holds("windows equal after fit", dict(d.dmd_time) == dict(d.original_time))
    nt = d.original_time["tend"] + 1
    lam = np.atleast_1d(d.eigs)
    m.assume(len(lam) and np.abs(lam).min() > 1e-2 and np.abs(lam).max() < 3)
    m.assume(np.iscomplexobj(lam) or lam.min() > 0)
    full = copy.deepcopy(d.reconstructed_data)
    hank = rec.name in GRID or (rec.name == "PrePost" and m.opts["wrapper"] == "hankel")
    if not hank:
        m.same("columns", full.shape[1], nt)
    state = [copy.deepcopy(x) for x in (d.modes, d.eigs, d.amplitudes, dict(d.original_time))]
    # another window on the sampling grid
    a = m.pr.randint(0, nt - 1)
    st = m.pr.randint(1, 3)
    q = m.pr.randint(1, (nt - 1 - a) // st + 1)
    win = {"t0": a, "tend": a + st * (q - 1) + (m.pr.choice([0, st - 1]) if rec.name not in GRID else 0), "dt": st}
    keep = dict(win)
    how = m.choice("how", ["keys", "dict"])
    if hank and rec.name == "PrePost":
        return
    if rec.name in GRID and st > 1 and m.opts["method"] != "first" and m.opts.get("d", 1) > 1:
        m.assume(False)
    if how == "keys":
        for k in win:
            d.dmd_time[k] = win[k]
    else:
        d.dmd_time = win
    m.eq("instants", d.dmd_timesteps, a + st * np.arange(q))
    y = d.reconstructed_data
    m.same("one column per instant", y.shape[1], q)
    if rec.name not in GRID or m.opts["method"] == "first" or m.opts["d"] == 1:
        m.eq("same states", y, full[:, a : a + st * (q - 1) + 1 : st], tol=1e-6, scale=np.abs(full).max())
    m.same("caller's window", win, keep)
    d.dmd_time["tend"] = d.dmd_time["tend"] + st
    m.same("caller's window after editing", win, keep)
    for nm, x, y in zip(("modes", "eigs", "amplitudes", "original window"), state, (d.modes, d.eigs, d.amplitudes, dict(d.original_time))):
        m.same(nm + " unchanged", x, y)
    if rec.name not in GRID + ["PrePost"]:
        # back to the original window
        d.dmd_time = d.original_time
        m.eq("original states again", d.reconstructed_data, full, tol=1e-9)
        d.dmd_time["tend"] = nt + 5
        m.same("original window independent", d.original_time["tend"], nt - 1)
        d.dmd_time["t0"] = -3
        m.eq("before the first instant", d.reconstructed_data[:, 3 : 3 + nt], full, tol=1e-6)
        dt = m.pr.uniform(0.1, 3)
        d.original_time["dt"] = dt
        m.eq("frequency", d.frequency, np.where(np.isrealobj(d.eigs), 0, np.angle(d.eigs)) / (2 * np.pi * dt))
