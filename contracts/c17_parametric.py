"""C17: the parametric model keeps parameter, space and time axes aligned."""
import os
import tempfile

import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
import pydmd
from pydmd import DMD, ParametricDMD

P = "paramdmd.ParametricDMD."
FIT = [P + "fit", P + "_arrange_parametric_snapshots", P + "_compute_training_modal_coefficients", P + "_set_training_parameters", P + "training_modal_coefficients", P + "training_parameters"]
OUT = [P + "_predict_modal_coefficients", P + "_interpolate_missing_modal_coefficients", P + "reconstructed_data", P + "forecasted_modal_coefficients", P + "interpolated_modal_coefficients", P + "parameters", "paramdmd.roll_shape"]


class Basis:
    """a reduction with any linear maps; checks what it is fitted on"""

    def __init__(self, m, W, E):
        self.m, self.W, self.E, self.seen = m, W, E, None

    def fit(self, X):
        self.seen = X
        return self

    def reduce(self, X):
        return self.W @ X

    def expand(self, v):
        return self.E @ v


class Blend:
    """an interpolator with any weights; checks its nodes and its query"""

    def __init__(self, m, G, nodes, query):
        self.m, self.G, self.nodes, self.query = m, G, nodes, query

    def fit(self, p, v):
        self.m.eq("nodes of the interpolation", p, self.nodes)
        self.v = v

    def predict(self, q):
        self.m.eq("query of the interpolation", q, self.query)
        return self.G @ self.v


class Echo:
    """stands for the wrapped model: keeps its data, returns any prediction Y"""

    def __init__(self, Y):
        self.Y, self.dmd_time, self.seen = Y, dict(t0=0, tend=1, dt=1), []

    def fit(self, X, *a, **k):
        self.X, self.args, self.kwargs = X, a, k
        return self

    @property
    def reconstructed_data(self):
        self.seen.append(self.dmd_time)
        return self.Y


def setup(m, p, p_sym=True):
    n, t, r, q, T = m.dim("n", 1, 4), m.dim("t", 1, 5), m.dim("r", 1, 3), m.dim("q", 1, 4), m.dim("T", 1, 5)
    k = m.kind()
    cols = m.dim("cols", 1, 3)
    X = m.array("X", (p, n, t), k)
    W, E, G = m.array("W", (r, n), k), m.array("E", (n, r), k), m.array("G", (q, p), "f")
    one = m.choice("flat", [True, False])
    if one:
        tr, qu = m.array("tr", (p,), "f"), m.array("qu", (q,), "f")
        nodes, query = tr[:, None], qu[:, None]
    else:
        tr, qu = m.array("tr", (p, cols), "f"), m.array("qu", (q, cols), "f")
        nodes, query = tr, qu
    return n, t, r, q, T, k, X, W, E, G, tr, qu, nodes, query


def check_out(m, d, Y, p, n, r, q, T, E, G):
    """Y: (p, r, T)"""
    N = m.np
    rec = d.reconstructed_data
    m.same("output shape", rec.shape, (q, n, T))
    m.same("forecast shape", d.forecasted_modal_coefficients.shape, (p, r, T))
    m.eq("forecast entries", d.forecasted_modal_coefficients, Y)
    inter = d.interpolated_modal_coefficients
    m.same("interpolation shape", inter.shape, (q, r, T))
    a, s, b, tt = C.idx(m, "a", q), C.idx(m, "s", n), C.idx(m, "b", r), C.idx(m, "tt", T)
    # the weights of query a act over the parameters, for each coordinate and instant separately
    m.eq("interpolation entry", inter[a, b, tt], N.sum(G[a, :] * Y[:, b, tt]))
    m.eq("output entry", rec[a, s, tt], N.sum(E[s, :] * (G[a, :] @ Y[:, :, tt])))


@unit("C17", funcs=FIT + OUT, cases=150)
def together(m):
    """one model for all parameters: any sizes, any reduction, any model, any interpolation"""
    quiet(m)
    p = m.dim("p", 1, 4)
    n, t, r, q, T, k, X, W, E, G, tr, qu, nodes, query = setup(m, p)
    Yf = m.array("Y", (p * r, T), k)
    e = Echo(Yf)
    pod = Basis(m, W, E)
    d = ParametricDMD(e, pod, Blend(m, G, nodes, query), dmd_fit_args=(1,), dmd_fit_kwargs=dict(z=2))
    d.fit(X, tr)
    m.holds("arguments of the fit", e.args == (1,) and e.kwargs == dict(z=2))
    m.same("fitted shape", e.X.shape, (p * r, t))
    i, b, tt, s = C.idx(m, "i", p), C.idx(m, "b", r), C.idx(m, "tt", t), C.idx(m, "s", n)
    m.same("basis shape", pod.seen.shape, (n, p * t))
    m.eq("basis data", pod.seen[s, i * t + tt], X[i, s, tt])
    want = m.np.sum(W[b, :] * X[i, :, tt])
    m.eq("fitted entry", e.X[i * r + b, tt], want)
    m.same("training shape", d.training_modal_coefficients.shape, (p, r, t))
    m.eq("training entry", d.training_modal_coefficients[i, b, tt], want)
    m.eq("training parameters", d.training_parameters, nodes)
    d.parameters = qu
    m.eq("query parameters", d.parameters, query)


@unit("C17", funcs=FIT + OUT, cases=150, timeout=400)
def outputs_together(m):
    """predictions of one model for all parameters"""
    quiet(m)
    p = m.dim("p", 1, 4)
    n, t, r, q, T, k, X, W, E, G, tr, qu, nodes, query = setup(m, p)
    Y = m.array("Y", (p, r, T), k)
    e = Echo(Y.reshape((p * r, T)))
    d = ParametricDMD(e, Basis(m, W, E), Blend(m, G, nodes, query))
    d.fit(X, tr)
    d.parameters = qu
    check_out(m, d, Y, p, n, r, q, T, E, G)


@unit("C17", funcs=FIT + OUT, cases=150, split=[("p", 3)])
def partitioned(m):
    """one model per parameter: model i sees the data of parameter i and predicts its block"""
    quiet(m)
    p = m.choice("p", [1, 2, 3])
    n, t, r, q, T, k, X, W, E, G, tr, qu, nodes, query = setup(m, p)
    Y = m.array("Y", (p, r, T), k)
    es = [Echo(Y[i]) for i in range(p)]
    d = ParametricDMD(es, Basis(m, W, E), Blend(m, G, nodes, query), light=m.choice("light", [False, True]), dmd_fit_args=[3], dmd_fit_kwargs=dict(z=2))
    d.fit(X, tr)
    for i, e in enumerate(es):
        m.eq(f"data of model {i}", e.X, W @ X[i])
        m.holds("arguments of the fit", tuple(e.args) == (3,) and e.kwargs == dict(z=2))
    d.parameters = qu
    d.dmd_time = w = dict(t0=2, tend=5, dt=1)
    check_out(m, d, Y, p, n, r, q, T, E, G)
    m.holds("one output window", all(e.seen and all(x == w for x in e.seen) for e in es))


@unit("C17", funcs=FIT, sym=False, cases=60)
def rejected(m):
    """inconsistent requests are refused; light models keep no training coefficients"""
    n, t, p = m.pr.randint(2, 4), m.pr.randint(4, 7), m.pr.randint(2, 4)
    X = m.array("X", (p, n, t), m.kind())
    pr = np.arange(p) * 1.0
    d = ParametricDMD(DMD(), C.Pod(), C.Nodes())
    m.raises("number of parameters", ValueError, lambda: d.fit(X, pr[:-1]))
    m.raises("coefficients before fit", RuntimeError, lambda: d.training_modal_coefficients)
    d2 = ParametricDMD([DMD() for _ in range(p + m.pr.choice([-1, 1]))], C.Pod(), C.Nodes())
    m.raises("number of models", ValueError, lambda: d2.fit(X, pr))
    m.raises("parameters in three axes", ValueError, lambda: d.fit(X, pr.reshape(p, 1, 1)))

    def put():
        d.parameters = pr.reshape(p, 1, 1)

    m.raises("query in three axes", ValueError, put)
    d3 = ParametricDMD(DMD(), C.Pod(), C.Nodes(), light=True)
    d3.fit(X, pr)
    m.raises("light", RuntimeError, lambda: d3.training_modal_coefficients)
    m.raises("no query", ValueError, lambda: d3.reconstructed_data)
    m.raises("args", TypeError, lambda: ParametricDMD(DMD(), C.Pod(), C.Nodes(), dmd_fit_args=3))
    m.raises("kwargs", TypeError, lambda: ParametricDMD(DMD(), C.Pod(), C.Nodes(), dmd_fit_kwargs=3))


class Table:
    """an interpolator that knows its nodes only (any number of coordinates)"""

    def fit(self, p, v):
        self.p, self.v = np.array(p), np.array(v)

    def predict(self, q):
        i = [int(np.argmin(np.linalg.norm(self.p - x, axis=1))) for x in q]
        return self.v[i]


@unit("C17", funcs=FIT + OUT + [P + "dmd_time", P + "save", P + "load"], sym=False, cases=200)
def nodes(m):
    """real models, no truncation: at a training parameter the output is the model's own reconstruction,
    and the future of linear data"""
    n, nt, p = m.pr.randint(2, 5), m.pr.randint(10, 14), m.pr.randint(2, 4)
    kind = m.choice("kind", ["f", "c"])
    part = m.choice("partitioned", [False, True])
    hist = m.choice("refit", [0, 1])
    mk = lambda: DMD(svd_rank=rank, opt=m.opts["opt"], exact=m.opts["exact"])
    m.choice("opt", [False, True])
    m.choice("exact", [True])
    cols = m.pr.randint(1, 3)
    coord = m.rng.standard_normal((p, cols))
    lead = m.choice("extra", [0, 3])
    rank = m.pr.randint(1, n) if part else m.pr.randint(1, min(n * p, 4))
    make = lambda: ParametricDMD([mk() for _ in range(p)] if part else mk(), C.Pod(), Table(), light=m.pr.random() < 0.5)
    d = make()
    dts = []
    for _ in range(hist + 1):
        lins = [C.lin(m, n=n, nt=nt + lead, kind=kind, r=rank) for _ in range(p)] if part else None
        if part:
            Xl = np.stack([np.asarray(l.X) for l in lins])
        else:
            # one system for the stacked coordinates: a common operator
            l = C.lin(m, n=n * p, nt=nt + lead, kind=kind, r=rank)
            Xl = np.asarray(l.X).reshape(p, n, nt + lead)
        Xl = Xl[:, :, : nt + lead]
        X = Xl[:, :, :nt]
        d.fit(X.copy(), coord if cols > 1 or m.pr.random() < 0.5 else coord[:, 0])
    pick = [m.pr.randrange(p) for _ in range(m.pr.randint(1, 4))]
    d.parameters = coord[pick] if cols > 1 or m.pr.random() < 0.5 else list(coord[pick, 0])
    m.same("shape", d.reconstructed_data.shape, (len(pick), n, nt))
    m.eq("own data", d.reconstructed_data, X[pick], tol=1e-4)
    if m.pr.random() < 0.4:
        with tempfile.TemporaryDirectory() as td:
            f = os.path.join(td, "m.pkl")
            d.save(f)
            d = ParametricDMD.load(f)
    d.dmd_time["tend"] += lead
    m.same("shape", d.reconstructed_data.shape, (len(pick), n, nt + lead))
    m.eq("future", d.reconstructed_data, Xl[pick], tol=1e-3)
