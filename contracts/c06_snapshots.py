"""C06: snapshots are flattened losslessly in C order with time last."""
import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
import pydmd
from pydmd.snapshots import Snapshots

F = ["snapshots.Snapshots.__init__", "snapshots.Snapshots._unroll_space_dimensions"]


@unit("C06", funcs=F, cases=200, split=[("ndim", 3)])
def flatten_array(m):
    """snapshot k is column k in C order; reshaping a column gives the snapshot"""
    N = m.np
    quiet(m)
    nd = m.choice("ndim", [2, 3, 4])
    sp = [m.dim(x, 1, 5) for x in "abc"[: nd - 1]]
    k = m.dim("k", 2, 6)
    X = m.array("X", (*sp, k), m.kind())
    S = Snapshots(X)
    s = S.snapshots
    size = sp[0] if nd == 2 else (sp[0] * sp[1] if nd == 3 else sp[0] * sp[1] * sp[2])
    m.same("flattened shape", s.shape, (size, k))
    m.same("spatial shape remembered", tuple(S.snapshots_shape), tuple(sp))
    idx = [m.dim(f"i{j}", 0, 4) for j in range(nd - 1)]
    t = m.dim("t", 0, 5)
    for i, a in zip(idx, sp):
        m.assume(i < a)
    m.assume(t < k)
    flat = idx[0]
    for i, a in zip(idx[1:], sp[1:]):
        flat = flat * a + i
    m.eq("C order", s[flat, t], X[tuple(idx) + (t,)])
    m.eq("reshaping a column gives the snapshot", s[:, t].reshape(S.snapshots_shape), X[..., t])


def as_list(m, X):
    """the same data as a list of snapshots"""
    if m.sym:
        from engine.seq import SymSeq
        from engine.ix import mkint

        return SymSeq(X.shape[-1], lambda i: X[..., mkint(i)])
    return [X[..., i] for i in range(X.shape[-1])]


@unit("C06", funcs=F, cases=200, split=[("ndim", 3)])
def flatten_list(m):
    """a list of snapshots is the array with time on the last axis"""
    quiet(m)
    nd = m.choice("ndim", [2, 3, 4])
    sp = [m.dim(x, 1, 5) for x in "abc"[: nd - 1]]
    k = m.dim("k", 2, 6)
    X = m.array("X", (*sp, k), m.kind())
    A, L = Snapshots(X), Snapshots(as_list(m, X))
    m.eq("same flattened data", L.snapshots, A.snapshots)
    m.same("same spatial shape", tuple(L.snapshots_shape), tuple(A.snapshots_shape))


@unit("C06", funcs=F + ["dmdbase.DMDBase._compare_data_shapes", "dmd.DMD.fit"], cases=200)
def rejected(m):
    quiet(m)
    n, k = m.dim("n", 1, 5), m.dim("k", 2, 6)
    X = m.array("X", (n, k), m.kind())
    what = m.choice("what", ["1d", "one", "one-list", "shapes", "scalars", "pair", "pair2"])
    if what == "1d":
        m.raises("one-dimensional array", ValueError, Snapshots, X[:, 0])
    elif what == "one":
        m.raises("one snapshot", ValueError, Snapshots, X[:, :1])
    elif what == "one-list":
        m.raises("one snapshot in a list", ValueError, Snapshots, [X[:, 0]])
    elif what == "shapes":
        p = m.dim("p", 1, 5)
        m.assume(p != n)
        m.raises("snapshots of different size", ValueError, Snapshots, [X[:, 0], m.array("Z", (p,), "f")])
        m.raises("snapshots of different shape", ValueError, Snapshots, [X[:, 0], m.array("Z", (n, 1), "f")])
    elif what == "scalars":
        m.raises("scalar snapshots", ValueError, Snapshots, [1.0, 2.0, 3.0])
    else:
        p = m.dim("p", 1, 6) if what == "pair" else n
        q = m.dim("q", 2, 6)
        if what == "pair":
            m.assume(p != n)
        else:
            m.assume(q != k)
        m.raises("mismatched pair", ValueError, pydmd.DMD(svd_rank=1).fit, X, m.array("Y", (p, q), "f"))


MULTI = ["DMD", "FbDMD", "CDMD", "RDMD", "HankelDMD", "HODMD", "SpDMD", "SubspaceDMD", "OptDMD", "EDMD", "PiDMD", "DMDc", "BOPDMD", "VarProDMD", "LANDO", "MrDMD"]


@unit("C06", funcs=["dmd.DMD.fit", "cdmd.CDMD.fit", "rdmd.RDMD.fit", "hankeldmd.HankelDMD.fit", "hodmd.HODMD.fit", "spdmd.SpDMD.fit", "subspacedmd.SubspaceDMD.fit", "optdmd.OptDMD.fit", "edmd.EDMD.fit", "pidmd.PiDMD.fit", "dmdc.DMDc.fit", "bopdmd.BOPDMD.fit", "varprodmd.VarProDMD.fit", "lando.LANDO.fit", "mrdmd.MrDMD.fit"], sym=False, cases=800, bounded="random data and options of every model; spatial shapes of 1-3 axes")
def every_model(m):
    """list, flattened and shaped array give identical results, and the shape is remembered"""
    rec = C.model(m, MULTI)
    args = rec.data()
    nd = m.choice("axes", [1, 2, 3])
    m.assume(not (rec.name == "LANDO" and m.opts["scale"] == "array" and nd > 1))  # one factor per entry of a flat snapshot

    def shaped(a):
        n = a.shape[0]
        p = m.opts.get("p") or [x for x in range(1, n + 1) if n % x == 0][-1 if nd == 1 else m.pr.randrange(sum(n % x == 0 for x in range(1, n + 1)))]
        sp = {1: (n,), 2: (p, n // p), 3: (p, 1, n // p)}[nd]
        return a.reshape(*sp, a.shape[1]), sp

    def is_data(j, a):
        if rec.name in ("DMDc",):
            return j == 0
        if rec.name in ("BOPDMD", "VarProDMD"):
            return j == 0
        return True

    sp = None
    sh, li, ar = [], [], []
    for j, a in enumerate(args):
        if is_data(j, a):
            if sp is None:
                b, sp = shaped(a)
            else:
                b = a.reshape(*sp, a.shape[1])
            sh.append(b)
            li.append([m.layout(np.array(b[..., t])) for t in range(b.shape[-1])])
        else:
            sh.append(a)
            li.append(a)
        ar.append(a)
    res = []
    # the array laid out in memory like the flattened list (same rounding in BLAS)
    fo = [np.copy(Snapshots(x).snapshots, order="K") if isinstance(x, list) else x for x in li]
    for form in (ar, sh, li, fo):
        d = rec.make()
        np.random.seed(5)
        d.fit(*form)
        o = C.copy_out(C.outputs(d))
        o.pop("f", None)
        o.pop("reconstructed_data", None) if rec.name == "EDMD" else None
        res.append((d, o))
        m.same("spatial shape", tuple(d.snapshots_shape), sp if form is not ar and form is not fo else (ar[0].shape[0],)) if d.snapshots_shape is not None else None
    if True:
        m.same("columns are snapshots in C order", res[1][0].snapshots, args[0]) if rec.name != "LANDO" and res[1][0].snapshots is not None else None
    d = rec.make()
    np.random.seed(5)
    d.fit(*[m.layout(a) if is_data(j, a) else a for j, a in enumerate(sh)])
    if rec.name != "LANDO" and d.snapshots is not None:
        m.same("columns are snapshots in C order, however stored", d.snapshots, args[0])
    C.same_outputs(m, "shaped = flat", res[1][1], res[0][1], tol=1e-7)
    C.same_outputs(m, "list = array", res[2][1], res[3][1], tol=1e-7)


@unit("C06", funcs=["dmd.DMD.fit", "optdmd.OptDMD.fit", "lando.LANDO.fit"], sym=False, cases=300, bounded="random malformed inputs for every model")
def every_model_rejects(m):
    rec = C.model(m, MULTI)
    args = list(rec.data())
    X = args[0]
    d = rec.make()
    what = m.choice("what", ["1d", "one", "shapes", "scalars", "pair"])
    if what == "1d":
        args[0] = X[:, 0]
    elif what == "one":
        args[0] = X[:, :1]
        if rec.name in ("OptDMD", "LANDO", "DMD") and len(args) > 1:
            args[1] = args[1][:, :1]
    elif what == "shapes":
        args[0] = [X[:, 0], X[:-1, 0]] + [X[:, i] for i in range(1, X.shape[1])]
    elif what == "scalars":
        args[0] = [float(abs(x)) for x in X[0]]
    else:
        m.assume(rec.name in ("DMD", "OptDMD", "LANDO"))
        m.assume(len(args) > 1)
        args[1] = args[1][:, :-1] if m.choice("how", [0, 1]) else args[1][:-1]
        m.raises("mismatched pair rejected", ValueError, lambda: d.fit(*args))
        return
    m.assume(not (rec.name == "MrDMD" and what in ("1d",)))
    m.raises(f"{what} rejected", ValueError, lambda: d.fit(*args))
