"""C19: optimised DMD fits sums of exponentials and obeys its constraints."""
import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
import pydmd
from pydmd import BOPDMD, VarProDMD

B_, O = "bopdmd.BOPDMD.", "bopdmd.BOPDMDOperator."


# -- constraints --------------------------------------------------------------
@unit("C19", funcs=[O + "_push_eigenvalues"], con=False, split=[("constraint", 4)])
def half_planes(m):
    """stable: real parts clipped at zero, imaginary parts kept; imag: real parts removed; none: unchanged"""
    N = m.np
    c = m.choice("constraint", [set(), {"stable"}, {"imag"}, "function"])
    lam = m.array("lam", (m.dim("r", 1, 5),), m.kind())
    scale = m.scalar("w")
    op = C.bop_operator(eig_constraints=(lambda x: scale * x) if c == "function" else c)
    got = op._push_eigenvalues(lam)
    if c == "function":
        return m.eq("custom", got, scale * lam)
    if not c:
        return m.eq("unchanged", got, lam)
    m.eq("imaginary parts kept", N.imag(got), N.imag(lam))
    if c == {"imag"}:
        m.eq("on the imaginary axis", N.real(got), 0 * N.real(lam))
    else:
        m.eq("clipped", N.real(got), N.where(N.real(lam) > 0, 0 * N.real(lam), N.real(lam)))


@unit("C19", funcs=[B_ + "__init__", B_ + "_check_eig_constraints"], cases=60)
def rejected(m):
    """contradictory or unknown constraints are refused"""
    quiet(m)
    bad = m.choice("bad", [{"stable", "imag"}, {"stable", "imag", "conjugate_pairs"}, {"stables"}, {"conjugate_pairs", "real"}])
    m.raises("refused", ValueError, lambda: BOPDMD(svd_rank=2, eig_constraints=bad))
    m.raises("refused type", TypeError, lambda: BOPDMD(svd_rank=2, eig_constraints=m.choice("type", ["stable", ["stable"]])))
    ok = m.choice("ok", [None, set(), {"stable"}, {"imag"}, {"conjugate_pairs"}, {"stable", "conjugate_pairs"}, {"imag", "conjugate_pairs"}])
    m.same("kept", BOPDMD(svd_rank=2, eig_constraints=ok).eig_constraints, ok or set())


# -- modes, amplitudes, reconstruction ----------------------------------------
FIT = [B_ + "fit", B_ + "forecast", B_ + "dynamics", O + "compute_operator", O + "_single_trial_compute_operator", "dmdbase.DMDBase.reconstructed_data"]


@unit("C19", funcs=FIT, con=False)
def expansion(m):
    """modes times amplitudes are the fitted coefficients; reconstruction and forecast are that sum of exponentials"""
    quiet(m)
    N = m.np
    n, nt, r, q = m.dim("n"), m.dim("nt", 2), m.dim("r"), m.dim("q")
    m.assume(r <= n)
    m.assume(r <= nt)
    proj = m.choice("proj", [True, False])
    X = m.array("X", (n, nt), m.kind())
    t = m.array("t", (nt,), "f")
    P = m.array("P", (n, r), "c")
    a0 = m.array("a0", (r,), "c")
    B = m.array("B", (r, r if proj else n), "c")
    lam = m.array("lam", (r,), "c")
    seen = {}

    def varpro(op, H, times, init, *a):
        seen.update(H=H, t=times, init=init)
        return B, lam, m.choice("converged", [True, False])

    m.stub("pydmd.bopdmd:BOPDMDOperator._variable_projection", varpro, "any coefficients and exponents")
    m.stub("pydmd.bopdmd:compute_rank", lambda *a: r, "rank query, C01")
    d = BOPDMD(svd_rank=r, use_proj=proj, proj_basis=P, init_alpha=a0, compute_A=m.choice("A", [False, True])).fit(X, t)
    m.eq("data of the optimisation", seen["H"], (P.conj().T @ X).T if proj else X.T)
    m.eq("times of the optimisation", seen["t"], t)
    m.eq("starting guess", seen["init"], a0)
    m.eq("exponents", d.eigs, lam)
    big = N.sqrt(N.sum(N.abs(B) ** 2, axis=1))
    small = big < 10 * np.finfo(float).eps * N.max(big)
    W = P @ B.T if proj else B.T
    m.eq("amplitudes", d.amplitudes, N.where(small, 0 * big, big))
    m.eq("coefficients", d.modes * d.amplitudes[None, :], N.where(small[None, :], 0 * W, W))
    if not proj:
        i = C.idx(m, "col", r)
        nrm = N.sum(N.abs(d.modes) ** 2, axis=0)
        m.eq("unit norm", nrm, N.where(small, 0 * big, 0 * big + 1))
    s = m.array("s", (q,), "f")
    m.eq("forecast", d.forecast(s), (d.modes * d.amplitudes[None, :]) @ N.exp(lam[:, None] * s[None, :]))
    m.eq("dynamics", d.dynamics, d.amplitudes[:, None] * N.exp(lam[:, None] * t[None, :]))
    m.eq("reconstruction", d.reconstructed_data, d.forecast(t))


# -- variable projection -------------------------------------------------------
@unit("C19", funcs=[O + "_variable_projection", O + "_push_eigenvalues", O + "_compute_irank_svd"], con=False, split=[("constraint", 3), ("full", 2)])
def descent(m):
    """whatever the search directions: the returned coefficients are the least-squares ones of the returned
    exponents, those satisfy the constraints, and their residual is not larger than that of the starting guess"""
    N = m.np
    M, S, r = m.dim("M"), m.dim("S"), m.dim("r")
    m.assume(r <= M)
    H = m.array("H", (M, S), "c")
    t = m.array("t", (M,), "f")
    a0 = m.array("a0", (r,), "c")
    cons = m.choice("constraint", [set(), {"stable"}, {"imag"}])
    op = C.bop_operator(eig_constraints=cons, init_alpha=a0)
    opts = op._varpro_opts
    opts[1], opts[4] = m.dim("maxlam", 0), m.dim("maxiter", 0)
    opts[3] = opts[7] = m.choice("full", [True, False])
    opts[0], opts[2], opts[5], opts[6] = m.scalar("lambda"), m.scalar("up"), m.scalar("tol"), m.scalar("stall")
    phi = lambda a, s: N.exp(N.outer(s, a))
    best = lambda a: N.linalg.lstsq(phi(a, t), H, rcond=None)[0]
    err = lambda a, b: N.linalg.norm(H - phi(a, t) @ b, "fro") / N.linalg.norm(H, "fro")
    feasible = lambda tag: op._push_eigenvalues(m.array(tag, (r,), "c"))
    path = "pydmd.bopdmd:BOPDMDOperator._variable_projection"
    m.uninterpreted("pinv", "qr", "ravel")
    q = m.dim("q")
    m.stub("pydmd.bopdmd:BOPDMDOperator._compute_irank_svd", lambda *a: (m.array("U", (M, q), "c"), m.array("Sg", (q, q), "f"), m.array("Vh", (q, r), "c")), "directions from any matrices")

    def inv(v):
        return [("constraints", op._push_eigenvalues(v.alpha), v.alpha), ("coefficients", v.B, best(v.alpha)), ("error", v.error, err(v.alpha, v.B)), ("not worse than the start", v.error <= v.entry.error)]

    m.loop(path, "for0", inv, fresh=dict(alpha=lambda v: feasible("alpha"), B=lambda v: best(v.alpha), error=lambda v: err(v.alpha, v.B), _lambda=lambda v: m.scalar("damping")))
    m.loop(path, "for1")

    def trial(v):
        return [("constraints", op._push_eigenvalues(v.alpha_0), v.alpha_0), ("coefficients", v.B_0, best(v.alpha_0)), ("error", v.error_0, err(v.alpha_0, v.B_0))]

    m.loop(path, "for2", trial, fresh=dict(alpha_0=lambda v: feasible("alpha_0"), B_0=lambda v: best(v.alpha_0), error_0=lambda v: err(v.alpha_0, v.B_0)) | {"+rjac": None})
    B, alpha, done = op._variable_projection(H, t, a0, phi, lambda a, s, i: m.sparse(m.array("dphi", (M, r), "c")))
    start = op._push_eigenvalues(a0)
    m.eq("constraints", op._push_eigenvalues(alpha), alpha)
    m.eq("coefficients", B, best(alpha))
    m.holds("descent", err(alpha, B) <= err(start, best(start)))


@unit("C19", funcs=[O + "_exp_function", O + "_exp_function_deriv"], con=False)
def exponentials(m):
    """the columns of the model are exp(alpha_j t); its derivative in alpha_i lives in column i only"""
    N = m.np
    n, r = m.dim("n"), m.dim("r")
    t, a = m.array("t", (n,), "f"), m.array("a", (r,), "c")
    op = C.bop_operator()
    E = N.exp(t[:, None] * a[None, :])
    m.eq("model", op._exp_function(a, t), E)
    i = C.idx(m, "i", r)
    col = N.arange(r)[None, :] == i
    m.eq("derivative", op._exp_function_deriv(a, t, i).toarray(), N.where(col, t[:, None] * E, 0 * E))


@unit("C19", funcs=[O + "compute_operator"], con=False, split=[("remove", 2), ("A", 2)])
def statistics(m):
    """bagging: eigenvalues, modes and amplitudes are the mean over the accepted trials of the sorted trial
    results, and the reported deviations are their standard deviations, for any number of trials"""
    from engine import models as M

    quiet(m)
    N = m.np
    n, r, K, nt = m.dim("n"), m.dim("r"), m.dim("K"), m.dim("nt", 2)
    P = m.array("P", (n, r), "c")
    W, E, A = m.array("W", (K, n, r), "c"), m.array("E", (K, r), "c"), m.array("A", (K, r), "f")
    op = C.bop_operator(num_trials=K, proj_basis=P, remove_bad_bags=m.choice("remove", [True, False]), bag_warning=-1, bag_maxfail=-1, compute_A=m.choice("A", [True, False]))
    H, t = m.array("H", (nt, r), "c"), m.array("t", (nt,), "f")
    op._init_alpha = m.array("a0", (r,), "c")
    first = (m.array("w0", (n, r), "c"), m.array("e0", (r,), "c"), m.array("b0", (r,), "f"), None, None, True)

    class g:
        k = None
        order = None

    def trial(self, H_, t_, init):
        if g.k is None:
            return first
        m.eq("trials start at the full fit", init, first[1])
        g.order = M.Perm(M.ix(r))
        inv = M.new((M.ix(r),), "i", lambda i: M.T.TInt(g.order.inv(i)))
        ok = M.I.SymBool(M.I.Cond("b", (f"converged{next(M._id)}", ())))
        return W[g.k][:, inv], E[g.k][inv], A[g.k][inv], None, None, ok

    def order(self, e):
        m.eq("sorts the trial", e, E[g.k][M.new((M.ix(r),), "i", lambda i: M.T.TInt(g.order.inv(i)))])
        return M.new((M.ix(r),), "i", lambda i: M.T.TInt(g.order.f(i)))

    q = m.dim("q")
    m.assume(q <= nt)
    m.stub("pydmd.bopdmd:BOPDMDOperator._single_trial_compute_operator", trial, "any trial results")
    m.stub("pydmd.bopdmd:BOPDMDOperator._argsort_eigenvalues", order, "any order (C03)")
    m.stub("pydmd.bopdmd:BOPDMDOperator._bag", lambda self, H_, s: (m.array("Hi", (q, r), "c"), N.arange(q)), "any bag")
    path = "pydmd.bopdmd:BOPDMDOperator.compute_operator"
    tot = lambda X, k: N.sum(N.where((N.arange(K) < k).reshape((K,) + (1,) * (X.ndim - 1)), X, 0 * X), axis=0)

    def inv(v):
        k = v.num_successful_trials
        return [("trials counted", k >= 0), ("not too many", k <= K), ("fails counted", v.num_consecutive_fails >= 0), ("modes", v.w_sum, tot(W, k)), ("eigenvalues", v.e_sum, tot(E, k)), ("amplitudes", v.b_sum, tot(A, k)), ("squared modes", v.w_sum2, tot(N.abs(W) ** 2, k)), ("squared eigenvalues", v.e_sum2, tot(N.abs(E) ** 2, k)), ("squared amplitudes", v.b_sum2, tot(N.abs(A) ** 2, k))]

    def ghost(v):
        g.k = m.dim("k", 0)
        m.assume(g.k <= K)

    m.loop(path, "while0", inv, fresh={"*": ghost, "_varpro_opts": lambda v: v._varpro_opts, "verbose": False, "num_successful_trials": lambda v: g.k, "w_sum": lambda v: tot(W, g.k), "e_sum": lambda v: tot(E, g.k), "b_sum": lambda v: tot(A, g.k), "w_sum2": lambda v: tot(N.abs(W) ** 2, g.k), "e_sum2": lambda v: tot(N.abs(E) ** 2, g.k), "b_sum2": lambda v: tot(N.abs(A) ** 2, g.k)})
    b = op.compute_operator(H, t)
    for name, X, mean, std in (("modes", W, op.modes, op.modes_std), ("eigenvalues", E, op.eigenvalues, op.eigenvalues_std), ("amplitudes", A, b, op.amplitudes_std)):
        mu = N.mean(X, axis=0)
        m.eq(f"mean of the {name}", mean, mu)
        V = N.mean(N.abs(X) ** 2, axis=0) - N.abs(mu) ** 2
        m.eq(f"deviation of the {name}", std**2, N.abs(V))
        m.eq(f"variance of the {name}", N.mean(N.abs(X - mu[None]) ** 2, axis=0), V)


V = "varprodmd."


@unit("C19", funcs=[V + "compute_varprodmd_any", V + "_compute_dmd_rho", V + "_varpro_preprocessing", V + "VarProOperator.compute_operator", V + "VarProDMD.fit", V + "VarProDMD.forecast", V + "varprodmd_predict", V + "VarProDMD.dynamics"], con=False, split=[("exact", 2)])
def varpro_expansion(m):
    """whatever exponents the optimiser returns: modes times amplitudes are the least-squares coefficients of
    those exponentials, modes have unit norm, reconstruction and forecast are that sum of exponentials"""
    quiet(m)
    N = m.np
    n, nt, r, q = m.dim("n"), m.dim("nt", 2), m.dim("r"), m.dim("q")
    m.assume(r <= n)
    m.assume(r < nt)
    X = m.array("X", (n, nt), m.kind())
    t = m.array("t", (nt,), "f")
    x = m.array("x", (2 * r,), "f")
    exact = m.choice("exact", [False, True])
    seen = {}

    class Result:
        pass

    def optimise(fun, x0, jac, args=(), **kw):
        fun(x0, *args)
        seen.update(t=args[0], data=args[1])
        out = Result()
        out.x = x
        return out

    m.stub("pydmd.varprodmd:least_squares", optimise, "any exponents")
    m.stub("pydmd.varprodmd:_compute_dmd_ev", lambda *a: m.array("guess", (r,), "c"), "any starting guess")
    d = VarProDMD(svd_rank=r, exact=exact).fit(X, t)
    lam = x[:r] + 1j * x[r:]
    m.eq("exponents", d.eigs, lam)
    m.eq("times of the optimisation", seen["t"], t)
    U = N.linalg.svd(X, full_matrices=False)[0][:, :r]
    m.eq("data of the optimisation", seen["data"].T if exact else U @ seen["data"].T, X if exact else U @ U.conj().T @ X)
    E = N.exp(t[:, None] * lam[None, :])
    Bt = (d.modes * d.amplitudes[None, :]).T
    Z = (X if exact else U @ U.conj().T @ X).T
    u, sg, vh = N.linalg.svd(N.exp(N.outer(t, lam)), full_matrices=False)
    m.eq("least squares", Bt, (vh.conj().T * N.where(sg != 0, 1 / sg, 0 * sg)[None, :]) @ u.conj().T @ Z)
    m.eq("norms", d.amplitudes**2, N.sum(N.abs(Bt) ** 2, axis=1))
    s = m.array("s", (q,), "f")
    m.eq("forecast", d.forecast(s), Bt.T @ N.exp(lam[:, None] * s[None, :]))
    m.eq("dynamics", d.dynamics, d.amplitudes[:, None] * N.exp(lam[:, None] * t[None, :]))
    m.eq("reconstruction", d.reconstructed_data, d.forecast(t))


# -- the public interface on generated signals ---------------------------------
def signal(m, kind=None, damp=None, nt=None, pairs=False, r=None):
    """sum of well separated exponentials sampled (unevenly) much faster than they vary"""
    pr, rng = m.pr, m.rng
    kind = kind or m.choice("kind", ["f", "c"])
    r = r or m.dim("r", 1, 3)
    freq = [0.6, 1.7, 2.9][:r]
    lam = []
    for f in freq:
        z = complex(pr.uniform(-0.3, 0.1) if damp is None else pr.uniform(*damp), f * pr.uniform(0.85, 1.15))
        lam += [z, z.conjugate()] if kind == "f" or pairs else [z * 1]
    lam = np.array(lam)
    q = len(lam)
    n = m.dim("n", q, q + 4)
    nt = nt or m.dim("nt", 50, 70)
    t = np.cumsum(np.concatenate([[pr.choice([0.0, 0.7])], 0.12 * (1 + m.choice("uneven", [0.0, 0.6]) * (rng.random(nt - 1) - 0.5))]))
    W = C.unitary(rng, n, "c")[:, :q] + 0.2 * C.cplx(rng, (n, q), "c")
    if kind == "f":
        W[:, 1::2] = W[:, ::2].conj()
        W += 0
        for _ in range(20):
            if np.linalg.cond(W) < 20:
                break
            W[:, ::2] = C.cplx(rng, (n, q // 2), "c")
            W[:, 1::2] = W[:, ::2].conj()
        else:
            m.skip("modes nearly dependent")
    W = W / np.linalg.norm(W, axis=0)
    a = 0.7 + rng.random(q)
    if kind == "f":
        a[1::2] = a[::2]
    X = (W * a) @ np.exp(np.outer(lam, t))
    return (X.real if kind == "f" else X), t, lam, W, a


def formula(d, s):
    return (d.modes * d.amplitudes) @ np.exp(np.outer(d.eigs, s))


@unit("C19", name="recovers", funcs=[B_ + "fit", B_ + "_initialize_alpha", O + "_variable_projection", B_ + "fit_econ"], sym=False, cases=60, bounded="signals of at most 6 exponentials, 50-70 samples")
def recovers(m):
    """noise-free sums of exponentials are recovered from uneven samples; forecast continues them"""
    X, t, lam, W, a = signal(m)
    q = len(lam)
    how = m.choice("how", ["proj", "full", "basis", "guess", "econ"])
    kw = dict(svd_rank=q)
    if how == "full":
        kw["use_proj"] = False
    if how in ("basis", "econ"):
        U, s, Vh = np.linalg.svd(X, full_matrices=False)
        kw["proj_basis"] = U[:, :q]
    if how == "guess":
        kw["init_alpha"] = lam + 0.05 * C.cplx(m.rng, (q,), "c")
    d = BOPDMD(varpro_opts_dict=dict(tol=1e-10, maxiter=60), **kw)
    d.fit_econ(s[:q], Vh[:q], t) if how == "econ" else d.fit(X, t)
    C.match(m, "exponents", d.eigs, lam, 1e-4)
    m.eq("unit norm", np.linalg.norm(d.modes, axis=0), np.ones(q))
    m.holds("nonnegative", np.all(np.isreal(d.amplitudes)) and np.all(np.real(d.amplitudes) >= 0))
    s = t[-1] + np.linspace(0, 1, m.dim("q", 1, 6))
    want = (W * a) @ np.exp(np.outer(lam, s))
    got = d.forecast(s.reshape(1, -1) if m.choice("row", [True, False]) else s)
    m.eq("forecast", got, want, 1e-3)
    if how != "econ":
        m.eq("reconstruction", d.reconstructed_data, X.astype(complex), 1e-4)
        m.eq("reconstruction is the forecast", d.reconstructed_data, d.forecast(t))


@unit("C19", name="obeys", funcs=[B_ + "fit", O + "_push_eigenvalues", O + "_variable_projection"], sym=False, cases=100, bounded="signals of at most 6 exponentials plus noise")
def obeys(m):
    """constraints hold for the returned exponents, the residual is not larger than that of the starting guess,
    modes have unit norm, amplitudes are not negative, reconstruction and forecast are the sum of exponentials"""
    c = m.choice("constraint", [None, {"stable"}, {"imag"}, {"conjugate_pairs"}, {"stable", "conjugate_pairs"}, {"imag", "conjugate_pairs"}, "function"])
    pairs = c not in (None, "function") and "conjugate_pairs" in c
    X, t, lam, W, a = signal(m, pairs=pairs, damp=m.choice("damp", [(-0.3, -0.05), (-0.1, 0.15)]))
    X = X + m.choice("noise", [0.0, 0.01, 0.1]) * C.cplx(m.rng, X.shape, "f" if np.isrealobj(X) else "c")
    q = len(lam) + (m.choice("extra", [0, 1]) if pairs else 0)
    if q > min(X.shape):
        q = len(lam)
    proj = m.choice("proj", [True, False])
    fixed = lambda x: np.asarray(x).real.clip(-0.2, -0.1) + 1j * np.asarray(x).imag
    cons = fixed if c == "function" else (None if c is None else set(c))
    start = m.choice("start", [None, "given"])
    if start:
        start = np.append(lam, -0.1)[:q] + 0.1 * C.cplx(m.rng, (q,), "c")
    d = BOPDMD(svd_rank=q, eig_constraints=cons, use_proj=proj, init_alpha=start, varpro_opts_dict=dict(maxiter=m.choice("iterations", [0, 1, 3, 30]), use_levmarq=m.choice("lm", [1, 0]), init_lambda=m.choice("lambda", [1.0, 1e-3, 50.0])))
    try:
        d.fit(X, t)
    except ValueError as e:
        if pairs and "conjugate pairs" in str(e):
            m.skip("no conjugate pairs among the eigenvalues")
        raise
    e = d.eigs
    re = e.real
    if c == "function":
        m.holds("custom", np.all(re >= -0.2 - 1e-9) and np.all(re <= -0.1 + 1e-9), f"{e}")
    elif c is not None:
        if "stable" in c:
            m.holds("stable", np.all(re <= 0), f"{e}")
        if "imag" in c:
            m.holds("imaginary axis", np.all(re == 0), f"{e}")
        if pairs:
            m.holds("conjugate pairs", np.allclose(np.sort_complex(e), np.sort_complex(e.conj()), rtol=1e-10, atol=1e-12), f"{e}")
    H = (d.proj_basis.conj().T @ X if proj else X).T
    res = lambda lam_: np.linalg.norm(H - np.exp(np.outer(t, lam_)) @ np.linalg.lstsq(np.exp(np.outer(t, lam_)), H, rcond=None)[0])
    C_ = (d.modes * d.amplitudes).T
    mine = np.linalg.norm(H - np.exp(np.outer(t, e)) @ (C_ @ d.proj_basis.conj() if proj else C_))
    init = d.init_alpha
    if start is not None:
        m.eq("starting guess kept", init, start)
    first = init
    if c == "function":
        first = fixed(init)
    elif c is not None and not pairs:
        first = init.imag * 1j + (0 if "imag" in c else np.minimum(init.real, 0))
    if not pairs:
        m.holds("not worse than the start", mine <= res(first) * (1 + 1e-8) + 1e-9 * np.linalg.norm(H), f"{mine} > {res(first)}")
    m.holds("best coefficients", mine <= res(e) * (1 + 1e-7) + 1e-9 * np.linalg.norm(H), f"{mine} > {res(e)}")
    m.eq("unit norm", np.linalg.norm(d.modes, axis=0), np.ones(q))
    m.holds("nonnegative", np.all(np.real(d.amplitudes) >= 0) and np.all(np.imag(d.amplitudes) == 0))
    s = m.rng.random(m.dim("q", 2, 5)) * 3
    m.eq("forecast", d.forecast(s), formula(d, s))
    m.eq("reconstruction", d.reconstructed_data, formula(d, t))
    m.eq("dynamics", d.dynamics, d.amplitudes[:, None] * np.exp(np.outer(e, t)))


def C_sort(how, e):
    return dict(real=lambda: np.argsort(e), imag=lambda: np.argsort(e.imag + 1j * e.real), abs=lambda: np.argsort(np.abs(e)))[how]()


@unit("C19", name="bagging", funcs=[O + "compute_operator", O + "_bag", O + "_argsort_eigenvalues"], sym=False, cases=25, bounded="signals of at most 6 exponentials, at most 5 trials")
def bagging(m):
    """bagging statistics are mean and deviation of the trials, each fitted to its own random subset"""
    c = m.choice("constraint", [None, {"stable"}, {"imag"}])
    X, t, lam, W, a = signal(m)
    noise = m.choice("noise", [0.02, 0.0])
    X = X + noise * C.cplx(m.rng, X.shape, "f" if np.isrealobj(X) else "c")
    q, K, seed = len(lam), m.dim("K", 1, 5), m.dim("seed", 0, 10**6)
    kw = dict(svd_rank=q, eig_constraints=c, eig_sort=m.choice("sort", ["real", "imag", "abs"]), trial_size=m.choice("size", [0.6, 0.8, 30]), use_proj=m.choice("proj", [True, False]), compute_A=m.choice("A", [False, True]))
    one = BOPDMD(**kw)
    one.fit(X, t)
    whole = one.eigs
    np.random.seed(seed)
    d = BOPDMD(num_trials=K, **kw).fit(X, t)
    np.random.seed(seed)
    each = []
    for _ in range(K):
        o = BOPDMD(num_trials=1, **kw).fit(X, t)
        each.append((o.modes, o.eigs, o.amplitudes))
    tol = 1e-7
    for name, k, mean, std in (("modes", 0, d.modes, d.modes_std), ("eigenvalues", 1, d.eigs, d.eigenvalues_std), ("amplitudes", 2, d.amplitudes, d.amplitudes_std)):
        A = np.array([z[k] for z in each])
        m.eq(f"mean of the {name}", mean, A.mean(axis=0).astype(complex), tol)
        m.eq(f"deviation of the {name}", std, A.std(axis=0), 1e-5, 1e-6)
    if noise == 0 and c is None and (np.iscomplexobj(X) or kw["eig_sort"] == "imag"):  # no ties in the order
        m.eq("subsets of a noise-free signal agree", d.eigs, np.array(whole)[C_sort(kw["eig_sort"], whole)], 1e-5)
        m.eq("no deviation", d.eigenvalues_std, np.zeros(q), 1e-4, 1e-4)
        s = t[-1] * m.rng.random(m.dim("q", 1, 4))
        mean, var = d.forecast(s)
        m.eq("forecast", mean, formula(d, s), 1e-3, 1e-3)
        m.eq("forecast variance", var, np.zeros(var.shape), 1e-3, 1e-3)
    if c == {"stable"}:
        m.holds("stable", np.all(d.eigs.real <= 0), f"{d.eigs}")
    if c == {"imag"}:
        m.holds("imaginary axis", np.all(d.eigs.real == 0), f"{d.eigs}")
    if kw["compute_A"]:
        m.eq("operator", d.A, d.modes @ np.diag(d.eigs) @ np.linalg.pinv(d.modes), 1e-6)


@unit("C19", name="varpro", funcs=[V + "_compute_dmd_rho", V + "_compute_dmd_jac", V + "_varpro_preprocessing", V + "_compute_dmd_ev", V + "select_best_samples_fast", V + "VarProDMD.fit", V + "VarProDMD.forecast", V + "VarProDMD.ssr"], sym=False, cases=50, bounded="signals of at most 6 exponentials, 50-70 samples")
def varpro(m):
    """the least-squares coefficients of the returned exponents on the selected samples, never worse than the starting
    guess; noise-free signals recovered"""
    X, t, lam, W, a = signal(m)
    noise = m.choice("noise", [0.0, 0.02, 0.1])
    X = X + noise * C.cplx(m.rng, X.shape, "f" if np.isrealobj(X) else "c")
    q = len(lam)
    exact, comp = m.choice("exact", [False, True]), m.choice("compression", [0, 0, 0.3])
    d = VarProDMD(svd_rank=q, exact=exact, compression=comp, sorted_eigs=m.choice("sort", [False, "real", "imag", "abs", True])).fit(X, t)
    i = d.selected_samples
    m.holds("selection", len(set(i)) == len(i) and len(i) == (int(len(t) * (1 - comp)) if comp else len(t)), f"{i}")
    U, s, Vh = np.linalg.svd(X.astype(complex), full_matrices=False)
    U = U[:, :q]
    H = (X if exact else U.conj().T @ X).T
    fit = lambda e: np.linalg.lstsq(np.exp(np.outer(t[i], e)), H[i], rcond=None)[0]
    res = lambda e: np.linalg.norm(H[i] - np.exp(np.outer(t[i], e)) @ fit(e))
    B = fit(d.eigs).T
    m.eq("coefficients", d.modes * d.amplitudes, B if exact else U @ B, 1e-6)
    m.eq("unit norm", np.linalg.norm(d.modes, axis=0), np.ones(q))
    m.holds("nonnegative", np.all(d.amplitudes >= 0))
    Hs = H.T
    Y, Z = (Hs[:, 1:] + Hs[:, :-1]) / 2, (Hs[:, 1:] - Hs[:, :-1]) / np.diff(t)
    u, sg, vh = np.linalg.svd(Y, full_matrices=False)
    u, sg, vh = u[:, :q], sg[:q], vh[:q]
    start = np.linalg.eigvals(u.conj().T @ Z @ vh.conj().T @ np.diag(1 / sg))
    m.holds("not worse than the start", res(d.eigs) <= res(start) * (1 + 1e-6) + 1e-8, f"{res(d.eigs)} > {res(start)}")
    w = m.rng.random(m.dim("q", 1, 5)) * 3
    m.eq("forecast", d.forecast(w), formula(d, w))
    m.eq("reconstruction", d.reconstructed_data, formula(d, t))
    if noise == 0:
        C.match(m, "exponents", d.eigs, lam, 1e-4)
        m.eq("recovered", d.reconstructed_data, X, 1e-4)
