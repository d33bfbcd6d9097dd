"""C08: refitting an instance equals fitting a fresh one."""
import copy

import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
import pydmd
from pydmd import DMD
from pydmd.dmdoperator import DMDOperator


def compare(m, d, f):
    """every observable of the refitted instance against the fresh one"""
    m.eq("eigenvalues", d.eigs, f.eigs)
    m.eq("modes", d.modes, f.modes)
    m.eq("amplitudes", d.amplitudes, f.amplitudes)
    m.eq("operator", d.operator.as_numpy_array, f.operator.as_numpy_array)
    m.same("original window", dict(d.original_time), dict(f.original_time))
    m.same("output window", dict(d.dmd_time), dict(f.dmd_time))
    m.eq("all modes active", d.modes_activation_bitmask, f.modes_activation_bitmask)
    m.eq("reconstruction", d.reconstructed_data, f.reconstructed_data)
    m.eq("snapshots", d.snapshots, f.snapshots)


@unit("C08", funcs=["dmd.DMD.fit", "dmdbase.DMDBase._reset", "dmdbase.DMDBase._set_initial_time_dictionary", "dmdoperator.DMDOperator.compute_operator", "dmdbase.DMDBase._compute_amplitudes", "dmdbase.ActivationBitmaskProxy"], cases=300, split=[("history", 4), ("options", 4)], weight=2)
def dmd(m):
    """DMD on symbolic data after a symbolic history: fit, then edits, then fit again"""
    N = m.np
    quiet(m)
    n, k = m.dim("n", 2, 5), m.dim("k", 4, 9)
    p, q = m.dim("p", 2, 5), m.dim("q", 4, 9)
    X, Z = m.array("X", (n, k), m.kind()), m.array("Z", (p, q), m.kind())
    r = m.dim("r", 1, 2)
    o = m.choice("options", ["plain", "exact", "tik", "pair"])
    kw = dict(svd_rank=r, exact=o == "exact", tikhonov_regularization=0.1 if o == "tik" else None, opt=m.choice("opt", [False, 1]))
    d = DMD(**kw)
    if o == "pair":
        d.fit(Z, m.array("W", (p, q), m.kind()))
    else:
        d.fit(Z)
    h = m.choice("history", ["none", "window", "mask", "amplitudes"])
    if h == "window":
        d.dmd_time["t0"] = 3
        d.dmd_time["tend"] = 8
        d.dmd_time["dt"] = 2
        d.reconstructed_data
    elif h == "mask":
        b = m.mask("mask", d.eigs.shape[0])
        d.modes_activation_bitmask = b
    elif h == "amplitudes":
        d.amplitudes[0] = 7.0
        d.eigs[0] = 2.0
    d.fit(X)
    f = DMD(**kw)
    f.fit(X)
    compare(m, d, f)


@unit("C08", funcs=["dmdoperator.DMDOperator.compute_operator", "dmdoperator.DMDOperator._compute_eigenquantities", "dmdoperator.DMDOperator._compute_modes", "dmdoperator.DMDOperator._least_square_operator"], cases=300, split=[("fb", 2), ("rescale", 2), ("exact", 2)])
def operator(m):
    """the operator object keeps nothing of an earlier fit"""
    n, k, r = m.dim("n", 2, 6), m.dim("k", 3, 8), m.dim("r", 1, 3)
    p, q = m.dim("p", 2, 6), m.dim("q", 3, 8)
    X, Y = m.array("X", (n, k), m.kind()), m.array("Y", (n, k), m.kind())
    Z, W = m.array("Z", (p, q), m.kind()), m.array("W", (p, q), m.kind())
    kw = dict(svd_rank=r, exact=m.choice("exact", [False, True]), forward_backward=m.choice("fb", [False, True]), rescale_mode=m.choice("rescale", [None, "auto"]), sorted_eigs=m.choice("sorted", [False, "abs"]), tikhonov_regularization=m.choice("tik", [None, 0.1]))
    a, b = DMDOperator(**kw), DMDOperator(**kw)
    a.compute_operator(Z, W)
    a.modes
    ra = a.compute_operator(X, Y)
    rb = b.compute_operator(X, Y)
    for x, y in zip(ra, rb):
        m.eq("singular triples", x, y)
    m.eq("reduced operator", a.as_numpy_array, b.as_numpy_array)
    m.eq("eigenvalues", a.eigenvalues, b.eigenvalues)
    m.eq("eigenvectors", a.eigenvectors, b.eigenvectors)
    m.eq("modes", a.modes, b.modes)


# ---------------------------------------------------------------------------
def history(m, rec, d):
    """random user actions between fits"""
    for _ in range(m.pr.randint(0, 4)):
        a = m.pr.choice(["out", "window", "window object", "mask", "amplitudes", "eigs", "predict", "select", "stabilize", "forecast", "fail"])
        m.opts.setdefault("history", []).append(a)
        try:
            if a == "out":
                C.outputs(d)
            elif a == "window":
                d.dmd_time["t0"] = m.pr.randint(0, 3)
                d.dmd_time["tend"] = m.pr.randint(4, 9)
                d.dmd_time["dt"] = m.pr.choice([1, 2])
                C.outputs(d, ["reconstructed_data"])
            elif a == "window object":
                d.dmd_time  # a model without an output window has none to edit
                d.dmd_time = {"t0": 2, "tend": 11, "dt": 3}
                C.outputs(d, ["reconstructed_data"])
            elif a == "mask":
                b = np.array(d.modes_activation_bitmask)
                b[m.pr.randrange(len(b))] = False
                d.modes_activation_bitmask = b
            elif a == "amplitudes":
                d.amplitudes[:] = 3.0
            elif a == "eigs":
                d.eigs[:] = 1.5
            elif a == "predict":
                d.predict(np.array(d.snapshots, copy=True))
            elif a == "select":
                from pydmd.dmd_modes_tuner import select_modes

                select_modes(d, lambda x: np.arange(len(x.eigs)) > 0, nullify_amplitudes=m.pr.random() < 0.5)
            elif a == "stabilize":
                from pydmd.dmd_modes_tuner import stabilize_modes

                stabilize_modes(d, 0.0)
            elif a == "forecast":
                d.forecast(np.linspace(0, 3, 4))
            else:
                d.fit(np.ones(3))
        except Exception:
            pass


def vary(m, rec, a):
    """the same kind of data given another way: with or without a separate second matrix or
    a known input map, with one or two spatial axes"""
    if rec.name in ("DMD", "FbDMD", "OptDMD", "LANDO", "DMDc") and m.pr.random() < 0.5:
        if rec.name == "DMDc":
            a = a[:2] if len(a) == 3 else (*a, m.rng.standard_normal((a[0].shape[0], a[1].shape[0])))
        elif len(a) == 2:
            a = a[:1]
        else:
            a = (a[0], a[0] * 0.5 + 0.1 * m.rng.standard_normal(a[0].shape))
    if rec.name in ("DMD", "FbDMD", "CDMD", "RDMD", "SpDMD", "SubspaceDMD", "OptDMD", "EDMD", "PiDMD") and a[0].shape[0] % 2 == 0 and m.pr.random() < 0.4:
        a = tuple(x.reshape(2, x.shape[0] // 2, x.shape[1]) for x in a)
    return a


CT = ["DMD", "FbDMD", "CDMD", "RDMD", "HankelDMD", "HODMD", "SpDMD", "SubspaceDMD", "OptDMD", "EDMD", "PiDMD", "DMDc", "BOPDMD", "VarProDMD", "LANDO", "MrDMD", "HAVOK", "PrePost", "COSTS", "mrCOSTS", "Param"]


@unit("C08", funcs=["dmdbase.DMDBase._reset", "rdmd.RDMD.fit", "cdmd.CDMD.fit", "hankeldmd.HankelDMD.fit", "hodmd.HODMD.fit", "spdmd.SpDMD.fit", "subspacedmd.SubspaceDMD.fit", "optdmd.OptDMD.fit", "edmd.EDMD.fit", "pidmd.PiDMD.fit", "dmdc.DMDc.fit", "bopdmd.BOPDMD.fit", "varprodmd.VarProDMD.fit", "lando.LANDO.fit", "mrdmd.MrDMD.fit", "havok.HAVOK.fit", "preprocessing.pre_post_processing.PrePostProcessingDMD", "costs.COSTS.fit", "mrcosts.mrCOSTS.fit", "paramdmd.ParametricDMD.fit"], sym=False, cases=900, weight=3, bounded="random data, options and histories (up to 3 earlier fits with up to 4 actions each) of every model")
def every_model(m):
    rec = C.model(m, CT)
    d = rec.make()
    rows = None
    for _ in range(m.pr.randint(1, 3)):
        a = vary(m, rec, rec.data())
        np.random.seed(3)
        try:
            d.fit(*a)
        except ValueError:
            pass
        history(m, rec, d)
    a = vary(m, rec, rec.data())
    f = rec.make()
    np.random.seed(7)
    try:
        f.fit(*a)
    except ValueError as e:
        m.raises("same rejection", ValueError, d.fit, *a)
        return
    of = C.outputs(f)
    np.random.seed(7)
    d.fit(*a)
    od = C.outputs(d)
    for o in (of, od):
        g = o.pop("f", None)
        if rec.name == "LANDO" and g is not None:
            o["f at points"] = g(np.arange(6.0).reshape(3, 2) / 5)
    C.same_outputs(m, "refit = fresh", od, of)
    for k in ("svd_rank", "tlsq_rank", "opt", "exact", "d", "proj_basis", "init_alpha", "snapshots_shape", "time"):
        if hasattr(f, k):
            x, y = getattr(d, k), getattr(f, k)
            if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
                m.eq(f"option {k}", x, y)
            elif not callable(x):
                m.same(f"option {k}", x, y)
