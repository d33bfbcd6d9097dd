"""C15: sparsity-promoting amplitudes."""
import contextlib
import io
import re

import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
from pydmd import SpDMD
from pydmd.spdmd import soft_thresholding_operator

S = "spdmd.SpDMD."
STEPS = [S + f for f in ("_update_alpha", "_update_beta", "_update_lagrangian", "_update", "_loop_condition", "_find_zero_amplitudes")]


def shrink(N, v, k):
    """the shipped operator: (1 - k) v / |v| outside the threshold, 0 inside"""
    if N is np:
        a = np.abs(v)
        return np.where(a > k, (1 - k) * v / np.where(a > 0, a, 1), 0)
    return N.where(N.abs(v) > k, (1 - k) / N.abs(v) * v, 0)


@unit("C15", funcs=["spdmd.soft_thresholding_operator"], cases=200)
def threshold(m):
    """entries inside the threshold vanish, the others keep their phase and get the shipped magnitude"""
    N = m.np
    quiet(m)
    n = m.dim("n", 1, 6)
    v = m.array("v", (n,), m.kind())
    k = m.scalar("k", lo=0, hi=None if m.sym else 2)
    if not m.sym and m.choice("zeros", [False, True]):
        v = v.copy()
        v[m.pr.randrange(n)] = 0
    m.eq("operator", soft_thresholding_operator(v, k), shrink(N, v, k))


@unit("C15", funcs=["spdmd.soft_thresholding_operator"], sym=False, cases=20, bounded="demonstration of the known finding on random data")
def documented_threshold(m):
    """the operator of the cited paper, (1 - k/|v|) v: known finding"""
    n = m.dim("n", 1, 6)
    v = m.array("v", (n,), m.kind())
    k = m.pr.uniform(0.1, 2)
    m.eq("proximal step", soft_thresholding_operator(v, k), np.where(np.abs(v) > k, (1 - k / np.abs(v)) * v, 0))


def instance(m, n, **kw):
    rho, gamma = m.scalar("rho", lo=0.1, hi=None if m.sym else 50), m.scalar("gamma", lo=0.0, hi=None if m.sym else 50)
    return SpDMD(rho=rho, gamma=gamma, verbose=False, **kw), rho, gamma


def has(m, d, *names):
    for a in names:
        if not hasattr(d, a):
            m.skip(f"no {a}")


@unit("C15", funcs=STEPS[:4], con=False)
def steps(m):
    """one iteration from any state: quadratic solve, threshold, dual update, in this order"""
    N = m.np
    quiet(m)
    n = m.dim("n", 1, 6)
    d, rho, gamma = instance(m, n)
    has(m, d, "_update", "_Plow", "_q")
    q, beta, lm = m.array("q", (n,), "c"), m.array("beta", (n,), "c"), m.array("lmbd", (n,), "c")
    L = m.array("L", (n, n), "c")
    d._Plow, d._q = L, q
    a, b, l = d._update(beta, lm)
    m.eq("quadratic solve", N.dot(L, N.dot(L.conj().T, a)), q + (beta - lm / rho) * rho / 2, tol=1e-6)
    m.eq("threshold", b, shrink(N, a + lm / rho, gamma / rho))
    m.eq("dual update", l, lm + rho * (a - b))


@unit("C15", funcs=[S + "_loop_condition"], con=False)
def stopping(m):
    """stops exactly when both residuals are below their tolerances"""
    N = m.np
    n = m.dim("n", 1, 6)
    ab, rel = m.scalar("abs", lo=1e-9, hi=None if m.sym else 0.5), m.scalar("rel", lo=1e-9, hi=None if m.sym else 0.5)
    rho = m.scalar("rho", lo=0.1, hi=None if m.sym else 3)
    d = SpDMD(rho=rho, abs_tolerance=ab, rel_tolerance=rel, verbose=False)
    has(m, d, "_loop_condition")
    a, b, l, o = [m.array(x, (n,), "c") for x in "ablo"]
    got = bool(d._loop_condition(a, b, l, o))
    prim, dual = N.linalg.norm(a - b), rho * N.linalg.norm(b - o)
    na, nb = N.linalg.norm(a), N.linalg.norm(b)
    e1 = N.sqrt(n) * ab + rel * (nb if nb > na else na)
    e2 = N.sqrt(n) * ab + rel * N.linalg.norm(l)
    m.holds("condition", bool(prim < e1) and bool(dual < e2) if got else not (bool(prim < e1) and bool(dual < e2)))


class Ghost:
    pass


@unit("C15", funcs=[S + "_find_zero_amplitudes"], con=False)
def iteration(m):
    """any number of iterations: starts from zero, each step starts from the previous one, goes on exactly while the
    residuals are too large and the limit is not reached; the support is read off the iterate before the last"""
    N = m.np
    quiet(m)
    n = m.dim("n", 1, 5)
    lim = m.dim("limit", 0, 50)
    tol = m.scalar("tol", lo=1e-9, hi=1)
    d = SpDMD(verbose=m.choice("verbose", [True, False]), max_iterations=lim, zero_absolute_tolerance=tol)
    has(m, d, "_find_zero_amplitudes", "_update", "_loop_condition")
    g = Ghost()
    zero = N.zeros(n, dtype="complex") + 0 * m.array("o", (n,), "c")
    g.calls, g.state, g.before, g.stop = 0, (None, zero, zero), None, None

    def update(beta, lmbd):
        m.eq("step starts from the previous iterate", beta, g.state[1])
        m.eq("step starts from the previous dual variable", lmbd, g.state[2])
        if g.before is not None:
            m.holds("goes on only while the residuals are too large", g.stop is not None and not bool(g.stop))
            m.holds("goes on only below the limit", g.calls - 1 < lim)
        g.before = g.state[1]
        g.state = tuple(m.array(f"u{x}", (n,), "c") for x in "abl")
        g.calls = g.calls + 1
        g.stop = None
        return g.state

    def cond(alpha, beta, lmbd, old_beta):
        for x, y in zip((alpha, beta, lmbd), g.state):
            m.eq("residuals of the current iterate", x, y)
        m.eq("residuals against the previous iterate", old_beta, g.before)
        g.stop = bool(m.array("stop", (1,), "b")[0])
        return g.stop

    def arbitrary(v):
        g.state = tuple(m.array(f"s{x}", (n,), "c") for x in "abl")
        g.before = m.array("sb", (n,), "c")
        g.calls = m.dim("calls", 1)
        g.stop = None

    m.loop("pydmd.spdmd:SpDMD._find_zero_amplitudes", "while0",
           lambda v: [("alpha is the last one", v.alpha, g.state[0]), ("beta is the last one", v.beta, g.state[1]), ("dual variable is the last one", v.lmbd, g.state[2]), ("previous iterate", v.old_beta, g.before), ("counter", v.i == g.calls - 1), ("within the limit", v.i <= lim)],
           fresh={"*": arbitrary} | dict(alpha=lambda v: g.state[0], beta=lambda v: g.state[1], lmbd=lambda v: g.state[2], old_beta=lambda v: g.before, i=lambda v: g.calls - 1))
    d._update, d._loop_condition = update, cond
    amp = m.array("amp", (n,), "c")
    m.attribute(SpDMD, "amplitudes", property(lambda self: amp))
    z = d._find_zero_amplitudes()
    if g.before is None:
        m.skip("the iteration does not go through _update")
    m.holds("ends when the residuals are small or at the limit", g.stop is True or bool(g.calls - 1 >= lim))
    m.same("support", z, N.abs(g.before) < tol)


@unit("C15", funcs=[S + "fit", S + "_optimal_amplitudes", "dmdbase.DMDBase._optimal_dmd_matrices"], con=False, timeout=400)
def constrained(m):
    """for any set of removed modes: their amplitudes are zero and the others minimise the quadratic cost"""
    N = m.np
    quiet(m)
    n, k, r = m.dim("n", 3, 6), m.dim("k", 6, 9), m.dim("r", 1, 3)
    X = m.array("X", (n, k), m.kind())
    C.any_operator(m, n, r, fixed=True)
    z = m.mask("z", r)
    rho = m.scalar("rho", lo=0.1, hi=None if m.sym else 50)
    rel = m.choice("release", [True, False])

    def fitted(enforce):
        d = SpDMD(svd_rank=r, rho=rho, exact=True, verbose=False, release_memory=rel, enforce_zero=enforce)
        has(m, d, "_find_zero_amplitudes")
        d._find_zero_amplitudes = lambda: z
        return d.fit(X)

    d, e = fitted(False), fitted(True)
    Phi, lam, b = d.modes, d.eigs, d.amplitudes
    V = lam[:, None] ** N.arange(k)[None]
    P = N.dot(Phi.conj().T, Phi) * N.dot(V.conj(), V.T)
    q = (N.dot(Phi.conj().T, X) * V.conj()).sum(axis=1)
    m.eq("removed by the constraint", b[z], 0 * b[z])
    m.eq("stationary in the kept amplitudes", N.dot(P, b)[~z], q[~z], tol=1e-6)
    m.eq("removed exactly", e.amplitudes[z], 0 * b[z])
    m.eq("enforcing the zeros changes nothing else", e.amplitudes[~z], b[~z])
    m.eq("same modes", e.modes, Phi)
    m.eq("same eigenvalues", e.eigs, lam)
    m.eq("reconstruction uses these amplitudes", e.reconstructed_data, N.dot(Phi, V * e.amplitudes[:, None]))


def admm(P, q, rho, gamma, ab, rel, lim, tol):
    """the iteration of the contract, written out: (support, iterations, margin)"""
    n = len(q)
    beta, lm = np.zeros(n, complex), np.zeros(n, complex)
    Pr = P + rho / 2 * np.eye(n)
    old, it, margin = beta, 0, 1.0

    def step(beta, lm):
        a = np.linalg.solve(Pr, q + rho / 2 * (beta - lm / rho))
        v = a + lm / rho
        b = shrink(np, v, gamma / rho)
        return a, b, lm + rho * (a - b), np.abs(np.abs(v) - gamma / rho).min()

    a, b, l, g = step(beta, lm)
    margin = min(margin, g)
    while True:
        pr, du = np.linalg.norm(a - b), rho * np.linalg.norm(b - old)
        e1 = np.sqrt(n) * ab + rel * max(np.linalg.norm(a), np.linalg.norm(b))
        e2 = np.sqrt(n) * ab + rel * np.linalg.norm(l)
        margin = min(margin, abs(pr - e1) / (1 + e1), abs(du - e2) / (1 + e2))
        if (pr < e1 and du < e2) or it >= lim:
            return np.abs(old) < tol, it, margin
        it += 1
        old = b
        a, b, l, g = step(b, l)
        margin = min(margin, g)


def cost_matrices(d, X, exact):
    k = X.shape[1]
    Phi, lam = d.modes, d.eigs.astype(complex)
    V = lam[:, None] ** np.arange(k)[None]
    P = (Phi.conj().T @ Phi) * (V.conj() @ V.T)
    q = k if exact else k - 1
    return P, ((Phi.conj().T @ X[:, :q]) * V[:, :q].conj()).sum(axis=1), V


@unit("C15", funcs=[S + "fit", S + "_optimal_amplitudes", "spdmd.soft_thresholding_operator", "dmd.DMD.fit"] + STEPS, sym=False, cases=600, bounded="random data (2..6 points, 5..9 snapshots), penalties 0 and 0.01..1000, step sizes 0.01..100, tolerances, limits 1..400")
def whole_fit(m):
    """the fitted amplitudes are those of the documented iteration, from the public interface only"""
    quiet(m)
    n, k = m.dim("n", 2, 6), m.dim("k", 5, 9)
    kind = m.choice("kind", ["f", "c"])
    X = C.cplx(m.rng, (n, k), kind) * 10 ** m.pr.uniform(-1, 1)
    exact = m.choice("exact", [True, False])
    gamma = m.choice("gamma", [0, 0.0, None, None, None])
    gamma = 10 ** m.pr.uniform(-2, 3) if gamma is None else gamma
    rho = 10 ** m.pr.uniform(-2, 2)
    ab, rel, lim = 10 ** m.pr.uniform(-8, -1), 10 ** m.pr.uniform(-6, -1), m.choice("limit", [1, 2, 3, 5, 40, 400])
    tol = m.choice("tol", [1e-12, 1e-12, 1e-3, 0.3])
    enforce, release = m.choice("enforce", [True, False]), m.choice("release", [True, False])
    m.opts.update(gamma=gamma, rho=rho, abs=ab, rel=rel)
    d = SpDMD(svd_rank=m.choice("rank", [-1, 2, 3]), exact=exact, rho=rho, gamma=gamma, abs_tolerance=ab, rel_tolerance=rel, max_iterations=lim,
              zero_absolute_tolerance=tol, enforce_zero=enforce, release_memory=release, verbose=True, opt=m.choice("opt", [False, True, 1, -1]))
    X0 = X.copy()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        d.fit(X)
    m.same("data untouched", X, X0)
    P, q, V = cost_matrices(d, X, exact)
    b = d.amplitudes
    m.assume(np.linalg.cond(P) < 1e7 and np.abs(d.eigs).min() > 1e-2)
    z, its, margin = admm(P, q, rho, gamma, ab, rel, lim, tol)
    m.assume(margin > 1e-6)
    said = re.search(r"(\d+) iterations", out.getvalue())
    if said:
        m.same("iterations", int(said.group(1)), its)
    if enforce:
        m.same("removed modes", b == 0, z)
    else:
        m.eq("removed modes", b[z], np.zeros(z.sum()), atol=1e-6 * (1 + np.abs(b).max()))
    ref = np.zeros(len(b), complex)
    ref[~z] = np.linalg.solve(P[np.ix_(~z, ~z)], q[~z]) if (~z).any() else ref[~z]
    m.eq("kept amplitudes", b, ref, tol=1e-5, atol=1e-12)
    if gamma == 0:
        m.holds("no penalty removes nothing", not z.any())
        m.eq("no penalty: optimal amplitudes", b, np.linalg.solve(P, q), tol=1e-5)
    m.eq("reconstruction", d.reconstructed_data, d.modes @ (V * b[:, None]), tol=1e-6)


@unit("C15", funcs=[S + "fit", "spdmd.soft_thresholding_operator"] + STEPS, sym=False, cases=60, bounded="random data with one mode orthogonal to the cost's right-hand side")
def zero_entries(m):
    """an iterate with an exactly zero entry stays finite"""
    quiet(m)
    n = m.dim("n", 2, 4)
    k = n + m.pr.randint(3, 6)
    # decoupled channels: a mode that no snapshot excites at the first instants has zero correlation
    X = np.zeros((n, k))
    lam = m.rng.uniform(0.4, 0.9, n) * np.array([(-1) ** i for i in range(n)])
    for i in range(n):
        X[i] = m.rng.uniform(1, 2) * lam[i] ** np.arange(k)
    d = SpDMD(svd_rank=-1, exact=True, gamma=m.choice("gamma", [0.1, 1.0]), verbose=False, max_iterations=50)
    v = m.array("v", (n,), m.choice("kind", ["f", "c"]))
    v[m.pr.randrange(n)] = 0
    kk = m.choice("k", [0, 0.0, 0.3, 1, 2.0])
    m.eq("zero entries stay zero", soft_thresholding_operator(v, kk), shrink(np, v, kk))
    d.fit(X)
    m.holds("finite amplitudes", np.isfinite(d.amplitudes).all())
