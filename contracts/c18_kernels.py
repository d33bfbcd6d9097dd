"""C18: kernel models satisfy their fitted equations."""
import warnings

import numpy as np

from contracts import common as C
from contracts.common import idx, quiet
from engine.contract import unit
import pydmd
from pydmd import EDMD, LANDO

L, O = "lando.LANDO.", "lando.LANDOOperator."
EVAL = [L + "f", L + "kernel_function", L + "kernel_gradient", L + "analyze_fixed_point", L + "bias", L + "linear", L + "nonlinear", L + "sparse_dictionary", L + "_rescale", L + "_check_x_rescale", O + "compute_linear_operator"]


def pick_kernel(m, n=None, d=None, any_=False):
    """options, kernel and its derivative in the second argument (columns are points)"""
    N = m.np
    k = "any" if any_ and m.sym else m.choice("kernel", ["linear", "poly", "rbf", "custom"])
    if k == "linear":
        return dict(kernel_metric="linear"), lambda X, Y: X.T @ Y, lambda X, c: X.T
    if k == "any":
        g = m.array("grad", (d, n), "f")

        def kf(X, Y):
            if type(X) is np.ndarray:  # the dry run of the constructor
                return np.zeros((X.shape[1], Y.shape[1]))
            return m.array("K", (X.shape[1], Y.shape[1]), "f")

        def kg(X, c):
            return np.zeros((X.shape[1], X.shape[0])) if type(X) is np.ndarray else g

        return dict(kernel_function=kf, kernel_gradient=kg), kf, kg
    if k == "custom":
        # any bilinear form plus a constant
        a, b = m.scalar("a", lo=0.1, hi=2), m.scalar("b", lo=0.0, hi=2)

        def kf(X, Y):
            if m.sym and type(X) is np.ndarray:  # the dry run of the constructor
                return np.zeros((X.shape[1], Y.shape[1]))
            return a * (X.T @ Y) ** 2 + b * (X.T @ Y)

        def kg(X, c):
            if m.sym and type(X) is np.ndarray:
                return np.zeros((X.shape[1], X.shape[0]))
            return (2 * a * (X.T @ c) + b)[:, None] * X.T

        return dict(kernel_function=kf, kernel_gradient=kg), kf, kg
    given = m.choice("given", [True, False])
    g = m.scalar("gamma", lo=0.05, hi=0.7) if given else None
    gam = lambda X: g if given else 1.0 / X.shape[0]
    if k == "poly":
        p = m.choice("degree", [2, 3, 1])
        c0 = m.scalar("coef0", lo=0.0, hi=2)
        kw = dict(kernel_metric="poly", kernel_params=dict(gamma=g, degree=p, coef0=c0) if given else dict(degree=p, coef0=c0))
        if p == 3 and not given:
            kw, c0 = dict(kernel_metric="poly"), 1
        return kw, lambda X, Y: (gam(X) * (X.T @ Y) + c0) ** p, lambda X, c: (gam(X) * p * (gam(X) * (X.T @ c) + c0) ** (p - 1))[:, None] * X.T

    def rbf(X, Y):
        return N.exp(-gam(X) * N.sum((X[:, :, None] - Y[:, None, :]) ** 2, axis=0))

    def grad(X, c):
        D = X - c[:, None]
        return (2 * gam(X) * N.exp(-gam(X) * N.sum(D**2, axis=0)))[:, None] * D.T

    return dict(kernel_metric="rbf", kernel_params=dict(gamma=g) if given else {}), rbf, grad


def pick_scale(m, n):
    how = m.choice("scale", ["none", "number", "array"])
    if how == "none":
        return {}, 1.0
    if how == "number":
        s = m.scalar("scale", lo=0.3, hi=2)
        return dict(x_rescale=s), s
    s = m.array("scales", (n,), "f", pos=True)
    return dict(x_rescale=s), s


def training(m, n, k, d):
    X, Y = m.array("X", (n, k), "f"), m.array("Y", (n, k), "f")
    if m.sym:
        D, W = m.array("D", (n, d), "f"), m.array("W", (n, d), "f")

        def learned(op, *a, **kw):
            op._sparse_dictionary, op._weights = D, W

        m.stub("pydmd.lando:LANDOOperator.compute_operator", learned, "any dictionary, any weights")
    return X, Y


def col(s):
    return s[:, None] if hasattr(s, "shape") and len(s.shape) else s


@unit("C18", funcs=EVAL, cases=200, split=[("kernel", 4)])
def expansion(m):
    """f = weights kernel(dictionary, x); at any base point f(c+x) = bias + linear x + nonlinear(x)"""
    quiet(m)
    N = m.np
    n, k, d, q = m.dim("n", 1, 4), m.dim("k", 2, 7), m.dim("d", 1, 4), m.dim("q", 1, 4)
    kw, K, G = pick_kernel(m)
    skw, s = pick_scale(m, n)
    X, Y = training(m, n, k, d)
    A = LANDO(svd_rank=-1, permute=False, **kw, **skw)
    A.fit(X, Y)
    D, W = A.operator.sparse_dictionary, A.operator.weights
    z = m.array("z", (n, q), "f")
    tol = {}
    if not m.sym:  # weights of either sign cancel
        tol = dict(atol=1e-9 * (1 + np.abs(W).max()) * (1 + np.abs(K(D, D)).max()) * (1 + np.abs(D).max()))
    m.eq("dictionary in the units of the data", A.sparse_dictionary * col(s), D)
    m.eq("model", A.f(z), W @ K(D, col(s) * z), **tol)
    c = m.array("c", (n,), "f")
    A.analyze_fixed_point(c, compute_A=True)
    m.eq("base point", A.fixed_point, c)
    m.eq("bias", A.bias, A.f(c[:, None]), **tol)
    lin = W @ (G(D, s * c) * s)
    m.eq("linear part", A.linear, lin, **tol)
    m.eq("expansion", A.f(c[:, None] + z), A.bias + A.linear @ z + A.nonlinear(z), **tol)
    # a second base point replaces the first
    c2 = m.array("c2", (n,), "f")
    A.analyze_fixed_point(c2, compute_A=True)
    m.eq("second linear part", A.linear, W @ (G(D, s * c2) * s), **tol)
    m.eq("second expansion", A.f(c2[:, None] + z), A.bias + A.linear @ z + A.nonlinear(z), **tol)


@unit("C18", funcs=EVAL, cases=60)
def other_point(m):
    """an analysis without the full operator never reports the operator of another point"""
    quiet(m)
    n, k, d = m.dim("n", 1, 4), m.dim("k", 2, 7), m.dim("d", 1, 4)
    X, Y = training(m, n, k, d)
    A = LANDO(svd_rank=-1, permute=False, kernel_metric="poly", kernel_params=dict(gamma=0.5, coef0=1.0, degree=2))
    A.fit(X, Y)
    D, W = A.operator.sparse_dictionary, A.operator.weights
    c, c2 = m.array("c", (n,), "f"), m.array("c2", (n,), "f")
    A.analyze_fixed_point(c, compute_A=True)
    A.analyze_fixed_point(c2)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = A.linear
    if got is None:
        m.holds("no operator reported", True)
    else:
        m.eq("operator of the last point", got, W @ A.kernel_gradient(D, c2))


@unit("C18", funcs=EVAL, cases=200)
def spectrum(m):
    """the modes are eigenvectors of the linear part"""
    quiet(m)
    n, k, d = m.dim("n", 1, 4), m.dim("k", 2, 7), m.dim("d", 1, 4)
    kw, K, G = pick_kernel(m, n, d, any_=True)
    skw, s = pick_scale(m, n)
    X, Y = training(m, n, k, d)
    A = LANDO(svd_rank=-1, permute=False, **kw, **skw)
    A.fit(X, Y)
    c = m.array("c", (n,), "f")
    A.analyze_fixed_point(c, compute_A=m.choice("full", [True, False]))
    D, W = A.operator.sparse_dictionary, A.operator.weights
    lin = W @ (G(D, s * c) * s)
    modes, eigs = A.modes, A.eigs
    if not m.sym:  # eigenvalues zero to rounding have no usable mode
        keep = np.abs(eigs) > 1e-6 * (1 + np.abs(lin).max())
        modes, eigs = modes[:, keep], eigs[keep]
    m.eq("eigenvectors", lin @ modes, modes * eigs[None, :], tol=1e-5)


# -- learning the dictionary and the weights ----------------------------------
LEARN = [L + "fit", O + "compute_operator", O + "_cholesky_step", O + "_update_cholesky"]


class Ghost:
    pass


@unit("C18", funcs=LEARN, con=False, timeout=400, split=[("permute", 2), ("lstsq", 2)])
def learning(m):
    """batch learning for any number of snapshots (loop invariant): the dictionary grows by the current snapshot
    exactly when it is further than the tolerance from the span of the dictionary, its Cholesky factor stays
    exact, and the weights solve the least-squares problem on the kernel matrix.  Linear kernel: the snapshots
    stand for their images in any feature space."""
    from engine import models as M, term as S

    quiet(m)
    N = m.np
    n, k = m.dim("n", 1), m.dim("k", 2)
    X, Y = m.array("X", (n, k), "f"), m.array("Y", (n, k), "f")
    tol = m.scalar("tol", lo=0.0)
    perm = m.choice("permute", [False, True])
    A = LANDO(svd_rank=-1, permute=perm, lstsq=m.choice("lstsq", [True, False]), dict_tol=tol)
    memo = M.ctx().memo
    g = Ghost()
    g.D = None

    def at(i):
        """the i-th snapshot in parsing order"""
        return X[:, N.arange(k)[i]] if not perm else X[:, M.mkint(memo["shuffled"][-1].f(M.ix(i)))]

    def arbitrary(v):
        g.d = m.dim("d", 1)
        g.D, g.C = m.array("D", (n, g.d), "f"), m.array("C", (g.d, g.d), "f")
        memo.setdefault("invertible", set()).add(M.arrkey(g.C))
        g.more = bool(v.index < v.count)
        if g.more:
            g.x = at(v.index + 1)[:, None]
            s = N.linalg.inv(g.C) @ (g.D.T @ g.x)
            e = (g.x.T @ g.x - s.T @ s)[0, 0]
            memo.setdefault("nonneg", set()).add(S.nf(e.term if hasattr(e, "term") else S.lift(e)).key)
            g.gap = e

    def inv(v):
        D, Cf = v._sparse_dictionary, v.C
        out = []
        if g.D is None:
            out += [("starts with one snapshot", D.shape[1] == 1), ("starts with the first snapshot", D, at(0)[:, None])]
        elif not (D is g.D):
            if D.shape[1] == g.d:
                m.holds("dropped snapshots are within the tolerance", g.gap <= tol)
                out += [("dictionary kept", D, g.D)]
            else:
                m.holds("added snapshots are further than the tolerance", g.gap > tol)
                out += [("one snapshot added", D.shape[1] == g.d + 1), ("dictionary extended", D, N.hstack([g.D, g.x]))]
        out += [("Cholesky factor of the dictionary", Cf @ Cf.T, D.T @ D)]
        return out

    m.loop("pydmd.lando:LANDOOperator.compute_operator", "for0", inv, fresh={"*": arbitrary} | {"_sparse_dictionary": lambda v: g.D, "C": lambda v: g.C})
    A.fit(X, Y)
    D, W = A.operator.sparse_dictionary, A.operator.weights
    K = D.T @ X
    m.eq("weights solve the least-squares problem", W @ K @ K.T, Y @ K.T)


@unit("C18", funcs=[L + "fit", O + "compute_operator", O + "_update_online", O + "_cholesky_step", O + "_update_cholesky"], con=False, timeout=400)
def online_learning(m):
    """online learning for any number of snapshots (loop invariant): with A the coefficients of all snapshots seen
    in the dictionary, P = (A^T A)^-1 and the weights satisfy W K (A^T A) = Y A"""
    from engine import models as M, term as S

    quiet(m)
    N = m.np
    n, k = m.dim("n", 1), m.dim("k", 2)
    X, Y = m.array("X", (n, k), "f"), m.array("Y", (n, k), "f")
    tol = m.scalar("tol", lo=0.0)
    A = LANDO(svd_rank=-1, permute=False, online=True, dict_tol=tol)
    memo = M.ctx().memo
    g = Ghost()
    g.D = None

    def arbitrary(v):
        g.d = d = m.dim("d", 1)
        g.D, g.C = m.array("D", (n, d), "f"), m.array("C", (d, d), "f")
        g.G, g.B, g.P = m.array("G", (d, d), "f"), m.array("B", (n, d), "f"), None
        memo.setdefault("invertible", set()).update([M.arrkey(g.C), M.arrkey(g.C @ g.C.T)])
        g.P = N.linalg.inv(g.G)
        # symmetric information matrix
        g.W = g.B @ g.P @ N.linalg.inv(g.C).T @ N.linalg.inv(g.C)
        if v.index < v.count:
            g.x, g.y = X[:, v.index + 1][:, None], Y[:, v.index + 1][:, None]
            s = N.linalg.inv(g.C) @ (g.D.T @ g.x)
            g.pi = N.linalg.inv(g.C).T @ s
            e = (g.x.T @ g.x - s.T @ s)[0, 0]
            memo.setdefault("nonneg", set()).add(S.nf(e.term).key)

    def inv(v):
        D, Cf, P, W = v._sparse_dictionary, v._cholesky, v._P, v._weights
        if g.D is None:
            x, y = X[:, :1], Y[:, :1]
            return [("one snapshot", D, x), ("factor", D.T @ D, Cf @ Cf.T), ("information", P, N.ones((1, 1))), ("weights", W @ (D.T @ D), y)]
        if D is g.D:
            return [("factor", D.T @ D, Cf @ Cf.T)]
        if D.shape[1] == g.d:
            G, B = g.G + g.pi @ g.pi.T, g.B + g.y @ g.pi.T
        else:
            z = N.zeros((g.d, 1))
            G, B = N.vstack([N.hstack([g.G, z]), N.hstack([z.T, N.ones((1, 1))])]), N.hstack([g.B, g.y])
        return [("factor", D.T @ D, Cf @ Cf.T), ("information", P @ G, N.eye(P.shape[0])), ("weights", W @ Cf @ Cf.T, B @ P)]

    m.loop("pydmd.lando:LANDOOperator.compute_operator", "for0", inv, fresh={"*": arbitrary} | {"self._sparse_dictionary": lambda v: g.D, "self._cholesky": lambda v: g.C, "self._P": lambda v: g.P, "self._weights": lambda v: g.W})
    A.fit(X, Y)
    D, W = A.operator.sparse_dictionary, A.operator.weights
    m.eq("weights", W @ (D.T @ D) @ g.G, g.B)


# -- extended model -----------------------------------------------------------
E = ["edmd.EDMDOperator.compute_operator", "edmd.EDMDOperator._compute_feature_matrix_svd", "edmd.EDMDOperator._compute_rank_from_svals", "edmd.EDMD.eigenfunctions", "dmd.DMD.fit"]


@unit("C18", funcs=E, con=False, timeout=400, split=[("rank", 2), ("both", 2)])
def koopman(m):
    """any positive kernel: the values of the eigenfunctions at the samples satisfy the least-squares Koopman
    equation PhiX^H (PhiY - PhiX diag(eigs)) = 0"""
    from engine import models as M

    quiet(m)
    N = m.np
    n, k = m.dim("n", 1), m.dim("k", 2)
    rank = m.choice("rank", ["all", "some"])
    r = -1
    if rank == "some":
        r = m.dim("r", 1)
    both = m.choice("both", [True, False])
    X = m.array("X", (n, k), "f")
    Y = m.array("Y", (n, k), "f")
    A, B = (X, Y) if both else (X[:, :-1], X[:, 1:])
    q = A.shape[1]
    G, K = m.array("G", (q, q), "f"), m.array("K", (q, q), "f")
    M.ctx().memo.setdefault("psd", set()).add(M.arrkey(G))
    ka, kb = M.arrkey(A.T), M.arrkey(B.T)
    row = []

    def kernel(P, Q, metric="linear", **kw):
        if type(P) is np.ndarray:
            return np.eye(len(P))
        m.holds("kernel against the inputs of the fit", M.arrkey(Q) == ka)
        if row:
            return row[0]
        p = M.arrkey(P)
        m.holds("kernel of the samples", p in (ka, kb))
        return G if p == ka else K

    m.stub("pydmd.edmd:pairwise_kernels", kernel, "any positive definite kernel")
    d = EDMD(svd_rank=r)
    d.fit(X, Y) if both else d.fit(X)

    def at(Z, R):
        def one(j):
            i = j[0]
            row[:] = [R[i : i + 1, :]]
            return d.eigenfunctions(Z[:, i])[0]

        return N.apply_along_axis(one, 0, N.arange(q)[None, :]).T

    FX, FY = at(A, G), at(B, K)
    m.eq("Koopman equation", FX.conj().T @ FY, FX.conj().T @ (FX * d.eigs[None, :]))


@unit("C18", funcs=E, sym=False, cases=40, bounded="3-5 vanishing states next to 1-3 decaying ones, linear kernel")
def zero_eigenvalues(m):
    """eigenvalues that are exactly zero are dropped together with their eigenfunctions and modes"""
    q, p = m.dim("q", 3, 5), m.dim("p", 1, 3)
    # states that vanish at once, and decaying states in other coordinates
    S = np.vstack([np.eye(q), np.zeros((p, q))])
    T = np.zeros((q + p, q))
    lam = 0.5 ** np.arange(1, p + 1)
    D = np.vstack([np.zeros((q, p)), np.eye(p)])
    X, Y = np.hstack([S, D]), np.hstack([T, D * lam])
    d = EDMD(svd_rank=-1).fit(X, Y)
    keep = np.abs(d.eigs) > 1e-16
    m.holds("no zero eigenvalue", keep.all())
    m.same("one mode per eigenvalue", d.modes.shape[1], len(d.eigs))
    for x in (X[:, -1], m.rng.standard_normal(q + p)):
        m.same("one eigenfunction per eigenvalue", np.ravel(d.eigenfunctions(x)).shape[0], len(d.eigs))


def concrete_lando(m, **kw):
    n, k = m.pr.randint(1, 4), m.pr.randint(3, 14)
    ko, K, G = pick_kernel(m)
    so, s = pick_scale(m, n)
    X = m.rng.standard_normal((n, k)) * m.pr.choice([0.3, 1.0, 2.0])
    if m.pr.random() < 0.4:  # repeated or dependent snapshots
        X[:, k // 2 :] = X[:, : k - k // 2] * m.pr.choice([1.0, 0.5])
    Y = np.tanh(m.rng.standard_normal((n, n)) @ X) + 0.3 * X**2
    return n, k, K, G, s, X, Y, dict(svd_rank=-1, **ko, **so, **kw)


def span_gap(K, D, x):
    """squared distance of x from the span of D in feature space"""
    k = K(D, x)
    return float((K(x, x) - k.T @ np.linalg.pinv(K(D, D), rcond=1e-13) @ k)[0, 0])


@unit("C18", funcs=LEARN + [O + "_update_online", L + "update"], sym=False, cases=300, bounded="random data up to 4 x 14, all kernels, online and batch, up to two updates")
def learned(m):
    """dictionary from the snapshots, every snapshot within the tolerance of its span, weights least squares"""
    on = m.choice("online", [False, True])
    tol = m.pr.choice([1e-6, 1e-3, 0.1, 1.0])
    lst = m.choice("lstsq", [True, False])
    n, k, K, G, s, X, Y, kw = concrete_lando(m, dict_tol=tol, online=on, lstsq=lst, permute=m.choice("permute", [True, False]))
    A = LANDO(**kw)
    if m.pr.random() < 0.4:
        A.fit(m.rng.standard_normal((n, k + 1)))
    shape = (n,)
    pair = m.choice("pair", [True, False])
    if pair:
        A.fit(X, Y)
    else:
        A.fit(X)
        X, Y = X[:, :-1], X[:, 1:]
    seen, seeny = X, Y
    if on:
        for _ in range(m.pr.choice([0, 1, 2])):
            X2 = m.rng.standard_normal((n, m.pr.randint(2, 5)))
            Y2 = X2**2 - 0.1
            A.update(X2, Y2)
            seen, seeny = np.hstack([seen, X2]), np.hstack([seeny, Y2])
    S = col(s) * seen
    D = A.operator.sparse_dictionary
    m.eq("units", A.sparse_dictionary * col(s), D)
    where = [int(np.argmin(np.linalg.norm(S - D[:, [j]], axis=0))) for j in range(D.shape[1])]
    m.eq("dictionary from the snapshots", D, S[:, where])
    scale = max(1.0, float(np.max(np.diag(K(S, S)))))
    cond = np.linalg.cond(K(D, D))
    m.assume(cond < 1e8)
    for j in range(S.shape[1]):
        m.holds("span", span_gap(K, D, S[:, [j]]) <= tol + 1e-6 * scale, f"snapshot {j}")
    for j in range(1, D.shape[1]):
        m.holds("no redundant entry", span_gap(K, D[:, :j], D[:, [j]]) >= tol - 1e-6 * scale, f"entry {j}")
    W = A.operator.weights
    Km = K(D, S)
    if not on:
        m.eq("least squares", (W @ Km - seeny) @ Km.T, np.zeros((n, D.shape[1])), atol=1e-6 * (1 + np.abs(Km).max() ** 2) * (1 + np.abs(W).max()))
    else:
        # coefficients of every snapshot in the dictionary as it was when the snapshot arrived
        order = np.arange(seen.shape[1])
        if m.opts["permute"] is False:
            co = np.zeros((D.shape[1], S.shape[1]))
            d = 0
            for j in order:
                if d < D.shape[1] and np.array_equal(S[:, j], D[:, d]) and span_gap(K, D[:, :d], S[:, [j]]) > tol if d else True:
                    d += 1
                    co[d - 1, j] = 1
                else:
                    co[:d, j] = np.linalg.lstsq(K(D[:, :d], D[:, :d]), K(D[:, :d], S[:, [j]])[:, 0], rcond=None)[0]
            m.assume(d == D.shape[1])
            m.eq("online weights", W @ K(D, D) @ co @ co.T, seeny @ co.T, tol=1e-5, atol=1e-6 * (1 + np.abs(seeny).max()))


@unit("C18", funcs=EVAL + [L + "predict", L + "update"], sym=False, cases=250, bounded="random data up to 4 x 14, all kernels, repeated analyses and updates")
def analysed(m):
    """f at any point, derivative at any base point by finite differences, after any history"""
    on = m.choice("online", [False, True])
    n, k, K, G, s, X, Y, kw = concrete_lando(m, dict_tol=m.pr.choice([1e-3, 0.1]), online=on)
    A = LANDO(**kw)
    A.fit(X, Y)
    for step in range(m.pr.randint(1, 3)):
        if on and m.pr.random() < 0.5:
            X2 = m.rng.standard_normal((n, 3))
            A.update(X2, np.tanh(X2))
            if step == 0:
                c = None
        else:
            c = m.rng.standard_normal(n)
            A.analyze_fixed_point(c, compute_A=True)
            if m.pr.random() < 0.7:
                A.modes, A.eigs, A.amplitudes
        if c is None:
            continue
        D, W = A.operator.sparse_dictionary, A.operator.weights
        z = m.rng.standard_normal((n, 3)) * 0.5
        big = 1 + np.abs(W).max() * (1 + np.abs(K(D, D)).max())
        m.eq("model", A.f(z), W @ K(D, col(s) * z), atol=1e-9 * big)
        m.eq("bias", A.bias, A.f(c[:, None]), atol=1e-9 * big)
        m.eq("expansion", A.f(c[:, None] + z), A.bias + A.linear @ z + A.nonlinear(z), atol=1e-9 * big)
        h = 1e-5
        J = np.stack([(A.f((c + h * e)[:, None]) - A.f((c - h * e)[:, None]))[:, 0] / (2 * h) for e in np.eye(n)], axis=1)
        m.eq("derivative", A.linear, J, tol=1e-4, atol=1e-4 * big)
        lam = np.linalg.eigvals(A.linear)
        keep = [x for x in lam if abs(x) > 1e-6 * (1 + np.abs(lam).max())]
        C.match(m, "eigenvalues", A.eigs, keep, tol=1e-4 * (1 + np.abs(lam).max()))
        ok = np.abs(A.eigs) > 1e-5 * big
        md, eg = A.modes[:, ok], A.eigs[ok]
        m.eq("eigenvectors", A.linear @ md, md * eg, tol=1e-5, atol=1e-6 * big * (1 + (np.abs(md).max() if md.size else 0)))
        m.same("amplitudes", A.amplitudes.shape, A.eigs.shape)
    x0 = 0.1 * m.rng.standard_normal(n)
    t = m.pr.randint(1, 5)
    P = A.predict(x0, t, continuous=False)
    m.same("points", P.shape, (n, t))
    m.assume(np.isfinite(P).all() and np.abs(P).max() < 1e6)
    m.eq("starts at the initial state", P[:, 0], x0)
    for j in range(t - 1):
        m.eq("iterates the model", P[:, j + 1], A.f(P[:, [j]])[:, 0])


@unit("C18", funcs=E, sym=False, cases=300, bounded="random real data up to 5 x 12, kernels linear, poly, rbf")
def extended(m):
    """eigenfunctions at the samples satisfy the least-squares Koopman equation, the modes expand the state"""
    how = m.choice("kernel", ["linear", "poly", "rbf"])
    n, k = m.pr.randint(1, 5), m.pr.randint(5, 12)
    kw = {}
    if how != "linear":
        kw = dict(kernel_params=dict(gamma=m.pr.uniform(0.1, 0.6)))
        if how == "poly":
            kw["kernel_params"].update(degree=m.pr.choice([2, 3]), coef0=m.pr.choice([0.5, 1.0]))
    X = m.rng.standard_normal((n, k)) * m.pr.choice([0.5, 1.5])
    if m.pr.random() < 0.3 and n >= 2:  # repeated eigenvalues of the Gramian
        t = 2 * np.pi * np.arange(k) / k
        X = np.vstack([np.cos(t), np.sin(t)])
        n = 2
    Y = m.rng.standard_normal((n, n)) @ X + (0.2 * X**2 if how != "linear" else 0)
    both = m.choice("both", [True, False])
    tl = m.pr.choice([0, 0, n + 1])
    d0 = EDMD(kernel_metric=how, svd_rank=-1, **kw)
    A, B = (X, Y) if both else (X[:, :-1], X[:, 1:])
    from sklearn.metrics.pairwise import pairwise_kernels

    from pydmd.utils import compute_tlsq

    A, B = compute_tlsq(A, B, tl)
    s = np.linalg.eigvalsh(pairwise_kernels(A.T, A.T, metric=how, **kw.get("kernel_params", {})))[::-1]
    top = int(np.sum(s > 1e-5 * s[0]))
    r = m.pr.randint(1, top)
    m.assume(r == len(s) or s[r - 1] > 1.0001 * s[r] or r == top)
    m.assume(s[r - 1] > 1e-5 * s[0])
    d = EDMD(kernel_metric=how, svd_rank=r, tlsq_rank=tl, **kw)
    if m.pr.random() < 0.4:
        d.fit(m.rng.standard_normal((n, k)))
    d.fit(X, Y) if both else d.fit(X)
    m.assume(np.linalg.cond(d.operator.eigenvectors) < 1e3 if d.operator.eigenvectors.shape[0] == d.operator.eigenvectors.shape[1] else False)
    F = lambda Z: np.stack([d.eigenfunctions(z)[0] for z in Z.T])
    FX, FY = F(A), F(B)
    m.same("one eigenfunction per eigenvalue", FX.shape[1], len(d.eigs))
    sc = np.abs(FX).max() * (1 + np.abs(FY).max()) * (1 + np.abs(d.eigs).max()) * k
    m.eq("Koopman equation", FX.conj().T @ FY, FX.conj().T @ (FX * d.eigs[None]), atol=1e-6 * sc)
    m.eq("modes expand the state", A @ FX.conj(), d.modes @ FX.T @ FX.conj(), atol=1e-6 * sc)
