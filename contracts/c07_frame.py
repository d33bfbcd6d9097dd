"""C07: fitting, predicting and tuning never modify the caller's data."""
import copy

import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import same_data, unit
import pydmd
from pydmd import DMD
from pydmd.dmd_modes_tuner import ModesTuner, select_modes, stabilize_modes
from pydmd.dmdoperator import DMDOperator
from pydmd.snapshots import Snapshots
from pydmd.utils import compute_rank, compute_svd, compute_tlsq, pseudo_hankel_matrix


@unit("C07", funcs=["utils.compute_rank", "utils.compute_svd", "utils.compute_tlsq", "utils.pseudo_hankel_matrix", "snapshots.Snapshots.__init__"], frame=True, cases=200)
def utilities(m):
    n, k = m.dim("n"), m.dim("k", 3, 9)
    X, Y = m.array("X", (n, k), m.kind()), m.array("Y", (n, k), m.kind())
    f = m.choice("function", ["rank", "svd", "tlsq", "hankel", "snapshots"])
    r = m.choice("setting", [0, -1, 0.9, "r"])
    r = m.dim("r", 1, 5) if r == "r" else r
    if f == "rank":
        compute_rank(X, r)
    elif f == "svd":
        U, s, V = compute_svd(X, r)
        U *= 2
        V *= 2
    elif f == "tlsq":
        m.assume(r == -1 or r == 0 or r != 0.9)
        compute_tlsq(X, Y, r if r != 0.9 else 0)
    elif f == "hankel":
        d = m.dim("d", 1, 3)
        m.assume(d <= k)
        pseudo_hankel_matrix(X, d)
    else:
        Snapshots(X).snapshots


@unit("C07", funcs=["dmd.DMD.fit", "dmd.DMD.predict", "dmdbase.DMDBase._compute_amplitudes", "dmdbase.DMDBase.dynamics", "dmdbase.DMDBase.reconstructed_data", "dmdoperator.DMDOperator.compute_operator"], frame=True, cases=300, split=[("exact", 2), ("opt", 3)], weight=2)
def dmd(m):
    """the whole of DMD on symbolic data: no write reaches an argument"""
    quiet(m)
    n, k = m.dim("n", 2, 6), m.dim("k", 4, 9)
    X = m.array("X", (n, k), m.kind())
    exact = m.choice("exact", [False, True])
    opt = m.choice("opt", [False, True, 1])
    resc = m.choice("rescale", [None, "auto"])
    tik = m.choice("tik", [None, 0.1])
    pair = m.choice("pair", [False, True])
    r = m.dim("r", 1, 3)
    d = DMD(svd_rank=r, exact=exact, opt=opt, rescale_mode=resc, tikhonov_regularization=tik)
    if pair:
        d.fit(X, m.array("Y", (n, k), m.kind()))
    else:
        d.fit(X)
    d.reconstructed_data
    d.predict(m.array("Z", (n, 3), m.kind()))


@unit("C07", funcs=["dmdoperator.DMDOperator.compute_operator", "dmdoperator.DMDOperator._compute_eigenquantities"], frame=True, cases=200, split=[("sorted", 3)])
def operator(m):
    n, k, r = m.dim("n", 2, 6), m.dim("k", 3, 8), m.dim("r", 1, 3)
    X, Y = m.array("X", (n, k), m.kind()), m.array("Y", (n, k), m.kind())
    p = n if n <= k else k
    q = r if r <= p else p
    fac = m.array("fac", (q,), pos=True) if m.choice("fac", [False, True]) else None
    op = DMDOperator(svd_rank=r, exact=m.choice("exact", [False, True]), forward_backward=m.choice("fb", [False, True]), rescale_mode=fac, sorted_eigs=m.choice("sorted", [False, "abs", "real"]), tikhonov_regularization=None)
    op.compute_operator(X, Y)
    op.modes


@unit("C07", funcs=["preprocessing.zero_mean._ZeroMeanPrePostProcessing", "preprocessing.svd_projection._SvdProjectionPrePostProcessing", "preprocessing.hankel._HankelPrePostProcessing.pre_processing", "preprocessing.pre_post_processing.PrePostProcessingDMD"], frame=True, cases=300)
def wrappers(m):
    from pydmd.preprocessing import hankel_preprocessing, svd_projection_preprocessing, zero_mean_preprocessing

    quiet(m)
    n, k, r = m.dim("n", 2, 6), m.dim("k", 6, 9), m.dim("r", 1, 2)
    X = m.array("X", (n, k), m.kind())
    d = DMD(svd_rank=r)
    w = m.choice("wrapper", ["mean", "mean axis", "svd", "nested", "hankel"])
    if w == "hankel":
        W = hankel_preprocessing(d, 2)
    else:
        W = {"mean": lambda: zero_mean_preprocessing(d), "mean axis": lambda: zero_mean_preprocessing(d, axis=1), "svd": lambda: svd_projection_preprocessing(d, m.dim("q", 1, 3)), "nested": lambda: zero_mean_preprocessing(svd_projection_preprocessing(d, m.dim("q", 1, 3)))}[w]()
    W.fit(X)
    if w != "hankel":
        W.reconstructed_data


@unit("C07", funcs=["bopdmd.BOPDMDOperator._push_eigenvalues"], frame=True, cases=200, split=[("constraint", 4)])
def eigenvalue_constraints(m):
    """constraining eigenvalues does not write into the array it is given"""
    c = m.choice("constraint", [set(), {"stable"}, {"imag"}, "function"])
    lam = m.array("lam", (m.dim("r", 1, 5),), "c")
    cons = (lambda x: 1j * x.imag) if c == "function" else c
    op = C.bop_operator(eig_constraints=cons)
    op._push_eigenvalues(lam)


# ---------------------------------------------------------------------------
def watch_all(m, rec, args):
    for j, a in enumerate(args):
        m.watch(f"fit argument {j}", a)
    for k, v in rec.opts.items():
        if isinstance(v, (np.ndarray, list, dict, set)):
            m.watch(f"option {k}", v)


def use(m, rec, d):
    """exercise every public way of getting results"""
    C.outputs(d)
    n = {"HAVOK": 0, "LANDO": 0}.get(rec.name)
    if hasattr(d, "forecast"):
        t = np.linspace(0, 2, 5)
        m.watch("forecast times", t)
        try:
            d.forecast(t)
        except Exception:
            pass
    if rec.name == "HAVOK":
        u, t, v = np.array(d.forcing, copy=True), None, None
        try:
            t = np.arange(len(d.forcing)) * 0.05
            v = np.array(d.linear_dynamics[0] if d.linear_dynamics.shape[0] == len(t) else d.linear_dynamics[:, 0], copy=True)
            for name, x in (("forcing", u), ("times", t), ("start", v)):
                m.watch(name, x)
            d.predict(u, t, v)
        except Exception:
            pass
    elif rec.name == "LANDO":
        x = m.rng.standard_normal((3, 4))
        x0 = m.rng.standard_normal(3)
        m.watch("predict x", x)
        m.watch("x0", x0)
        try:
            d.f(x)
            d.analyze_fixed_point(x0)
            d.predict(x0, 5, dt=0.1)
        except Exception:
            pass
    elif rec.name == "DMDc":
        u = m.rng.standard_normal(d._controlin.shape) if hasattr(d, "_controlin") else None
        if u is not None:
            m.watch("control", u)
            d.reconstructed_data(u)
    elif hasattr(d, "predict"):
        try:
            Z = np.array(d.snapshots, copy=True)
            m.watch("predict argument", Z)
            d.predict(Z)
        except Exception:
            pass
    try:
        b = np.array(d.modes_activation_bitmask)
        b[0] = False
        m.watch("bitmask", b)
        d.modes_activation_bitmask = b
        b2 = np.ones_like(b)
        m.watch("bitmask", b2)
        d.modes_activation_bitmask = b2
        w = {"t0": 1, "tend": 4, "dt": 1}
        m.watch("time window", w)
        d.dmd_time = w
        d.dmd_time["t0"] = 0
        C.outputs(d, ["reconstructed_data", "dynamics"])
        d.amplitudes[:] = 1
        d.eigs[:] = 1
    except Exception:
        pass


@unit("C07", funcs=["dmd.DMD", "cdmd.CDMD", "rdmd.RDMD", "hankeldmd.HankelDMD", "hodmd.HODMD", "spdmd.SpDMD", "subspacedmd.SubspaceDMD", "optdmd.OptDMD", "edmd.EDMD", "pidmd.PiDMD", "dmdc.DMDc", "bopdmd.BOPDMD", "varprodmd.VarProDMD", "lando.LANDO", "mrdmd.MrDMD", "havok.HAVOK", "paramdmd.ParametricDMD", "costs.COSTS", "mrcosts.mrCOSTS"], sym=False, cases=900, bounded="random data and options of every model, byte comparison of every argument")
def every_model(m):
    """no public operation changes an argument"""
    rec = C.model(m, extra=True)
    args = rec.data()
    if rec.name in ("DMD", "FbDMD", "RDMD", "HankelDMD", "SubspaceDMD", "MrDMD", "SpDMD") and m.choice("form", [0, 1]):
        args = tuple([np.array(a[:, i]) for i in range(a.shape[1])] for a in args)
    watch_all(m, rec, args)
    d = rec.make()
    try:
        d.fit(*args)
    except Exception as e:
        if type(e).__name__ in ("Skip", "Failed"):
            raise
        m.check_frame()
        m.assume(False)  # a rejected fit: nothing else to compare
    m.check_frame()
    use(m, rec, d)
    m.check_frame()
    m.nobl += 1


@unit("C07", funcs=["mrdmd.MrDMD.fit", "bopdmd.BOPDMD.fit", "dmdbase.DMDBase"], sym=False, cases=500, bounded="random data and options of every model; two instances from the same arguments")
def instances(m):
    """two instances built from the same arguments share nothing: the results of the
    first are not changed by anything done to the second"""
    rec = C.model(m, extra=True)
    args = rec.data()
    a = rec.make()
    np.random.seed(1)
    try:
        a.fit(*args)
    except ValueError:
        m.assume(False)
    out = C.outputs(a)
    out.pop("f", None)
    before = C.copy_out(out)
    b = rec.make()
    b.fit(*args)
    use(m, rec, b)
    b.fit(*rec.data())
    use(m, rec, b)
    for k in out:
        m.holds(f"result handed out earlier: {k}", same_data(out[k], before[k]), f"{k} of the first instance changed")
    now = C.outputs(a)
    now.pop("f", None)
    C.same_outputs(m, "first instance unchanged", now, before)


TUN = ["DMD", "FbDMD", "CDMD", "RDMD", "HankelDMD", "HODMD", "SubspaceDMD", "PiDMD"]


@unit("C07", funcs=["dmd_modes_tuner.select_modes", "dmd_modes_tuner.stabilize_modes", "dmd_modes_tuner.ModesTuner"], sym=False, cases=400, bounded="random data and options of the models with modes")
def tuning_copies(m):
    """tuning a copy leaves the instance and the list of instances alone"""
    rec = C.model(m, TUN)
    d = rec.make()
    d.fit(*rec.data())
    m.assume(len(d.eigs) > 1)
    before = C.copy_out(C.outputs(d))
    how = m.choice("how", ["select", "stabilize", "tuner", "tuner list", "subset", "index"])
    crit = lambda x: np.arange(len(x.eigs)) > 0
    if how == "select":
        select_modes(d, crit, in_place=False, nullify_amplitudes=m.choice("nullify", [False, True]))
    elif how == "stabilize":
        c = stabilize_modes(d, 0, in_place=False)
        c.eigs[:] = 1
    elif how == "tuner":
        t = ModesTuner(d)
        t.select(crit, nullify_amplitudes=m.choice("nullify", [False, True])).stabilize(0.0)
        t.get().amplitudes[:] = 0
    elif how == "tuner list":
        lst = [d, d]
        m.watch("list", list(lst))
        t = ModesTuner(lst)
        t.select("integral_contribution", n=1).stabilize(0.0)
        m.holds("list", lst[0] is d and lst[1] is d and len(lst) == 2)
    elif how == "subset":
        t = ModesTuner([d, copy.deepcopy(d)])
        t.subset([0]).select(crit)
    else:
        m.assume(rec.name not in ("HankelDMD", "HODMD"))
        s = d[0]
        s.amplitudes[:] = 0
        s.eigs[:] = 2
        s.modes[:] = 0
        s.modes_activation_bitmask = np.ones(len(before["eigs"]), bool)
        s.modes[:] = 0
        s.modes_activation_bitmask = np.zeros(len(before["eigs"]), bool)
    C.same_outputs(m, "source unchanged", C.outputs(d), before)
