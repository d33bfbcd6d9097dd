"""C12: physics-informed operators lie on the requested matrix manifold."""
import numpy as np

from contracts import common as C
from contracts.common import quiet
from engine.contract import unit
import pydmd
from pydmd import PiDMD

PM = "pidmd_utils."
BLOCK = ["BC", "BCTB", "BCCB", "BCCBunitary", "BCCBsymmetric", "BCCBskewsymmetric"]
PLAIN = ["unitary", "uppertriangular", "lowertriangular", "diagonal", "symmetric", "skewsymmetric", "toeplitz", "hankel", "circulant", "circulant_unitary", "circulant_symmetric", "circulant_skewsymmetric", "symmetric_tridiagonal"]
NEEDS_A = ["uppertriangular", "lowertriangular", "toeplitz", "hankel"] + BLOCK


def bands(opt, n):
    if opt is None:
        return np.ones((n, 2), int)
    if isinstance(opt, int):
        return opt * np.ones((n, 2), int)
    if isinstance(opt, tuple):
        return np.ones((n, 2), int) * np.array(opt)
    return opt


def blockify(A, p, q):
    """A[a + p b, a' + p b'] as B[a, b, a', b']"""
    return A.reshape(q, p, q, p).transpose(1, 0, 3, 2)


def cyc(n):
    i = np.arange(n)
    return (i[:, None] - i[None]) % n


def member(m, name, A, opt, tol=1e-6):
    """A belongs to the manifold"""
    n = len(A)
    i, j = np.indices((n, n))
    s = max(np.abs(A).max(), 1e-12)
    zero = lambda w, B: m.eq(f"{name}: {w}", B, 0 * B, tol=0, atol=tol * s)
    if name == "unitary":
        pass
    if name == "uppertriangular":
        zero("upper triangular", A[i > j])
    if name == "lowertriangular":
        zero("lower triangular", A[i < j])
    if name == "diagonal":
        b = bands(opt, n)
        zero("bandwidth", A[(j < i - b[:, 0][i] + 1) | (j > i + b[:, 1][i] - 1)])
    if name in ("symmetric", "symmetric_tridiagonal") or name.endswith("_symmetric") or name == "BCCBsymmetric":
        zero("symmetric", A - A.conj().T)
    if name == "symmetric_tridiagonal":
        zero("tridiagonal", A[np.abs(i - j) > 1])
    if name == "skewsymmetric" or name.endswith("skewsymmetric"):
        zero("skew-symmetric", A + A.conj().T)
    if name == "toeplitz":
        zero("constant diagonals", A[1:, 1:] - A[:-1, :-1])
    if name == "hankel":
        zero("constant anti-diagonals", A[1:, :-1] - A[:-1, 1:])
    if name.startswith("circulant"):
        zero("circulant", A - np.roll(np.roll(A, 1, 0), 1, 1))
    if name in BLOCK:
        p, q = opt
        B = blockify(A, p, q)
        zero("block circulant", B - np.roll(np.roll(B, 1, 1), 1, 3))
        if name == "BCTB":
            a, c = np.indices((p, p))
            zero("tridiagonal blocks", B.transpose(0, 2, 1, 3)[np.abs(a - c) > 1])
        if name.startswith("BCCB"):
            zero("circulant blocks", B - np.roll(np.roll(B, 1, 0), 1, 2))
    if name in ("circulant_unitary", "BCCBunitary"):
        m.eq(f"{name}: unitary", A @ A.conj().T, np.eye(n), tol=1e-6)


def sample(m, name, n, opt, kind):
    """a random well conditioned member"""
    rng = m.rng
    M = C.cplx(rng, (n, n), kind)
    i, j = np.indices((n, n))
    if name == "unitary":
        return C.unitary(rng, n, kind)
    if name == "uppertriangular":
        return np.triu(M) + 2 * np.eye(n)
    if name == "lowertriangular":
        return np.tril(M) + 2 * np.eye(n)
    if name == "diagonal":
        b = bands(opt, n)
        M[(j < i - b[:, 0][i] + 1) | (j > i + b[:, 1][i] - 1)] = 0
        return M
    if name == "symmetric":
        return M + M.conj().T
    if name == "skewsymmetric":
        return M - M.conj().T
    if name == "toeplitz":
        return C.cplx(rng, 2 * n - 1, kind)[i - j + n - 1]
    if name == "hankel":
        return C.cplx(rng, 2 * n - 1, kind)[i + j]
    if name.startswith("circulant"):
        c = C.cplx(rng, n, kind)
        A = c[cyc(n)]
        if name.endswith("_unitary"):
            U, _, V = np.linalg.svd(A)
            return U @ V
        if name.endswith("_symmetric"):
            return A + A.conj().T
        if name.endswith("_skewsymmetric"):
            return A - A.conj().T
        return A
    if name == "symmetric_tridiagonal":
        M = (M + M.T).real
        M[np.abs(i - j) > 1] = 0
        return M
    p, q = opt
    if name in ("BC", "BCTB"):
        bl = C.cplx(rng, (q, p, p), kind)
        if name == "BCTB":
            a, c = np.indices((p, p))
            bl[:, np.abs(a - c) > 1] = 0
        A = np.zeros((n, n), bl.dtype)
        for b in range(q):
            for c in range(q):
                A[b * p : (b + 1) * p, c * p : (c + 1) * p] = bl[(b - c) % q]
        return A
    c = C.cplx(rng, (p, q), kind)
    A = c[cyc(p)][:, :, cyc(q)].transpose(2, 0, 3, 1).reshape(n, n)
    if name == "BCCBunitary":
        U, _, V = np.linalg.svd(A)
        return U @ V
    if name == "BCCBsymmetric":
        return A + A.conj().T
    if name == "BCCBskewsymmetric":
        return A - A.conj().T
    return A


def setting(m):
    name = m.choice("manifold", PLAIN + BLOCK)
    opt = None
    if name in BLOCK:
        p, q = m.dim("p", 2, 4), m.dim("q", 2, 4)
        opt, n = (p, q), p * q
    else:
        n = m.dim("n", 3, 7)
    if name == "diagonal":
        c = m.choice("opt", ["none", "int", "tuple", "array"])
        opt = {"none": None, "int": m.pr.randint(1, n), "tuple": (m.pr.randint(1, n), m.pr.randint(1, n)), "array": m.rng.integers(1, n, (n, 2))}[c]
        m.opts["opt value"] = opt
    return name, opt, n


def full(d):
    """the operator on the space the model works on"""
    return d.modes @ np.diag(d.eigs) @ np.linalg.pinv(d.modes)


@unit("C12", funcs=[PM + f for f in ("compute_unitary", "compute_uppertriangular", "compute_diagonal", "compute_symmetric", "compute_toeplitz", "compute_circulant", "compute_symtridiagonal", "compute_BCCB", "compute_BC")] + ["pidmd.PiDMDOperator._compute_procrustes", "pidmd.PiDMDOperator.compute_operator"], sym=False, cases=1200, weight=2, bounded="random data (also noisy and unrelated pairs), all manifolds and options, 3-16 space points")
def membership(m):
    """the fitted operator is on the manifold and modes/eigenvalues are its eigenpairs"""
    name, opt, n = setting(m)
    kind = "c" if name not in ("symmetric_tridiagonal",) and m.choice("kind", ["f", "c"]) == "c" else "f"
    nt = m.pr.randint(n + 1, n + 8)
    X, Y = C.cplx(m.rng, (n, nt), kind), C.cplx(m.rng, (n, nt), kind)
    rank = -1 if name in BLOCK or m.pr.random() < 0.5 else m.pr.randint(1, n)
    m.opts["svd_rank"] = rank
    d = PiDMD(manifold=name, manifold_opt=opt, compute_A=True, svd_rank=rank)
    if m.choice("pair", [True, False]):
        d.fit(X, Y)
    else:
        X = np.hstack([X, Y[:, :1]])
        d.fit(X)
        X, Y = X[:, :-1], X[:, 1:]
    A, lam, Phi = d.A, d.eigs, d.modes
    m.same("shape", A.shape, (n, n))
    if name in ("unitary", "symmetric", "skewsymmetric"):
        r = n if rank == -1 else min(rank, n)
        m.same("number of modes", Phi.shape, (n, r))
        U = np.linalg.svd(X, full_matrices=False)[0][:, :r]
        At = U.conj().T @ A @ U
        m.eq("acts on the retained subspace", U @ At @ U.conj().T, A, tol=1e-6)
        if name == "unitary":
            m.eq("unitary", At @ At.conj().T, np.eye(r), tol=1e-6)
        else:
            member(m, name, At, opt)
        # best fit within the family
        Xp, Yp = U.conj().T @ X, U.conj().T @ Y
        base = np.linalg.norm(At @ Xp - Yp)
        for _ in range(3):
            if name == "unitary":
                S = C.cplx(m.rng, (r, r), kind)
                E = np.linalg.qr(np.eye(r) + 0.05 * (S - S.conj().T))[0]
                E = E * np.sign(np.diag(E).real)
                B = E @ At
            else:
                S = 0.05 * C.cplx(m.rng, (r, r), kind)
                B = At + S + (S.conj().T if name == "symmetric" else -S.conj().T)
            m.holds("no member fits better", base <= np.linalg.norm(B @ Xp - Yp) * (1 + 1e-9), "a nearby member of the family fits better")
    elif name in ("circulant_unitary", "BCCBunitary") and rank != -1 and rank < n:
        w = np.abs(np.linalg.eigvals(A))
        m.holds("unitary on the retained frequencies", np.all((np.abs(w - 1) < 1e-6) | (w < 1e-6)), f"{w}")
        member(m, "circulant" if name[0] == "c" else "BCCB", A, opt)
    else:
        member(m, name, A, opt)
    if kind == "f" and name not in ("circulant_unitary", "BCCBunitary"):
        if not (rank != -1 and name.startswith("circulant")):
            m.eq("real data give a real operator", np.imag(A), 0 * np.imag(A), tol=0, atol=1e-6 * np.abs(A).max())
    m.eq("eigenpairs", A @ Phi, Phi * lam, tol=1e-6, atol=1e-8)
    m.eq("operator available from the model", d.operator.A, A)


@unit("C12", funcs=["pidmd.PiDMD.A", "pidmd.PiDMDOperator.compute_operator"], sym=False, cases=900, weight=2, bounded="random members of every family, 3-16 space points")
def reproduced(m):
    """data generated by a member of the family is reproduced and forecast"""
    name, opt, n = setting(m)
    kind = "c" if name not in ("symmetric_tridiagonal",) and m.choice("kind", ["f", "c"]) == "c" else "f"
    A = sample(m, name, n, opt, kind)
    m.assume(np.abs(np.linalg.eigvals(A)).max() > 1e-2)
    A = A / np.abs(np.linalg.eigvals(A)).max() if "unitary" not in name else A
    X = C.cplx(m.rng, (n, 2 * n + m.pr.randint(3, 9)), kind)
    m.assume(np.linalg.cond(X) < 30)
    compA = name in NEEDS_A or m.choice("compute_A", [True, False])
    if name in ("diagonal", "symmetric_tridiagonal") and not compA:
        m.assume(False)  # iterative sparse eigensolver: covered by sparse_route
    d = PiDMD(manifold=name, manifold_opt=opt, compute_A=compA, svd_rank=-1)
    d.fit(X, A @ X)
    W, V = np.linalg.eig(A)
    m.assume(np.linalg.cond(V) < 100)
    if compA:
        m.eq("operator", d.A, A, tol=1e-5)
    C.match(m, "eigenvalues", d.eigs, W, tol=1e-5)
    m.eq("operator rebuilt from modes", full(d), A, tol=1e-4)
    m.eq("prediction", d.predict(X[:, :3]), A @ X[:, :3], tol=1e-4)


@unit("C12", funcs=[PM + "compute_diagonal", PM + "compute_symtridiagonal"], sym=False, cases=300, bounded="random banded and symmetric tridiagonal systems, 5-8 space points")
def sparse_route(m):
    """without the full operator the banded families return its leading eigenpairs"""
    name = m.choice("manifold", ["diagonal", "symmetric_tridiagonal"])
    n = m.dim("n", 5, 8)
    opt = m.choice("opt", [None, 2, (2, 1)]) if name == "diagonal" else None
    X, Y = m.rng.standard_normal((n, 20)), m.rng.standard_normal((n, 20))
    r = m.dim("r", 1, n - 2)
    full_ = PiDMD(manifold=name, manifold_opt=opt, compute_A=True).fit(X, Y)
    d = PiDMD(manifold=name, manifold_opt=opt, svd_rank=r).fit(X, Y)
    w = np.linalg.eigvals(full_.A)
    gap = np.sort(np.abs(w))[::-1]
    m.assume(gap[r - 1] - gap[r] > 1e-3)
    m.same("number of modes", d.modes.shape, (n, r))
    C.match(m, "leading eigenvalues", d.eigs, w[np.argsort(np.abs(w))[::-1][:r]], tol=1e-5)
    m.eq("eigenpairs", full_.A @ d.modes, d.modes * d.eigs, tol=1e-5)


@unit("C12", funcs=["pidmd.PiDMDOperator._compute_procrustes", "pidmd.PiDMDOperator._check_compute_A", "pidmd.PiDMDOperator.A", PM + "compute_diagonal"], sym=False, cases=300, bounded="all manifolds; malformed options from a list")
def rejected(m):
    n, nt = m.dim("n", 3, 6), m.dim("nt", 8, 12)
    X = m.rng.standard_normal((n, nt))
    m.raises("unknown manifold", ValueError, PiDMD(manifold=m.choice("bad", ["foo", "", "Unitary", "bccb", "circulant_foo", "tridiagonal"]), compute_A=True).fit, X)
    bad = m.choice("band", [0, -1, (1,), (1, 2, 3), (0, 1), (1, 0), (-1, 2), "x", 1.5, [1, 2], np.ones((n, 3), int), np.ones((n + 1, 2), int), np.zeros((n, 2), int), np.ones(n, int)])
    m.raises("malformed bandwidth", ValueError, PiDMD(manifold="diagonal", manifold_opt=bad, compute_A=True).fit, X)
    name = m.choice("manifold", BLOCK)
    bad = m.choice("block", [None, 3, (2,), (1, 2, 3), [2, 3], np.array([2, 3])])
    m.raises("malformed block shape", ValueError, PiDMD(manifold=name, manifold_opt=bad, compute_A=True).fit, X)
    name = m.choice("needs", NEEDS_A)
    m.raises("operator needed", ValueError, PiDMD(manifold=name, manifold_opt=(n, 1) if name in BLOCK else None).fit, X)
    d = PiDMD(manifold="unitary")
    m.raises("operator not computed", ValueError, lambda: d.A)
    d.fit(X)
    m.raises("operator not computed", ValueError, lambda: d.A)
    m.raises("not fitted", ValueError, lambda: PiDMD(manifold="unitary", compute_A=True).A)


# -- deductive ---------------------------------------------------------------
@unit("C12", funcs=[PM + "compute_unitary", "utils.compute_svd"], cases=200)
def unitary_operator(m):
    """the orthogonal Procrustes solution is unitary"""
    from pydmd.pidmd_utils import compute_unitary

    N = m.np
    n, k = m.dim("n", 2, 6), m.dim("k", 2, 9)
    X, Y = m.array("X", (n, k), m.kind()), m.array("Y", (n, k), m.kind())
    r = m.dim("r", 1, 5) if m.choice("rank", ["r", "all"]) == "r" else -1
    if not m.sym:
        m.assume(k > n)
    A = compute_unitary(X, Y, r)["atilde"]
    p = A.shape[0]
    m.eq("A^H A = I", N.dot(A.conj().T, A), N.eye(p))
    m.eq("A A^H = I", N.dot(A, A.conj().T), N.eye(p))


@unit("C12", funcs=[PM + "compute_symmetric", "utils.compute_svd"], cases=200)
def symmetric_operator(m):
    """(skew-)Hermitian, entry by entry the documented closed form"""
    from pydmd.pidmd_utils import compute_symmetric

    N = m.np
    n, k = m.dim("n", 2, 6), m.dim("k", 2, 9)
    X, Y = m.array("X", (n, k), m.kind()), m.array("Y", (n, k), m.kind())
    skew = m.choice("skew", [False, True])
    r = m.dim("r", 1, 5) if m.choice("rank", ["r", "all"]) == "r" else -1
    if not m.sym:
        m.assume(k > n)
    A = compute_symmetric(X, Y, r, skew_symmetric=True)["atilde"] if skew else compute_symmetric(X, Y, r)["atilde"]
    m.eq("symmetry", A, -A.conj().T if skew else A.conj().T)
    U, s, V = N.linalg.svd(X, full_matrices=False)
    p = A.shape[0]
    U, s, V = U[:, :p], s[:p], V[:p]
    K = N.linalg.multi_dot([U.conj().T, Y, V.conj().T])
    if skew:
        m.eq("best fit among the skew-symmetric operators", A * (s[:, None] ** 2 + s[None] ** 2), K * s[None] - s[:, None] * K.conj().T)
    else:
        m.eq("best fit among the symmetric operators", A * (s[:, None] ** 2 + s[None] ** 2), K * s[None] + s[:, None] * K.conj().T)


@unit("C12", funcs=[PM + "compute_symmetric", "utils.compute_svd"], cases=200)
def symmetric_member(m):
    """data of a (skew-)symmetric operator gives that operator in the coordinates of the left singular vectors"""
    from pydmd.pidmd_utils import compute_symmetric

    N = m.np
    n, k = m.dim("n", 2, 6), m.dim("k", 2, 9)
    X, H = m.array("X", (n, k), m.kind()), m.array("H", (n, n), m.kind())
    skew = m.choice("skew", [False, True])
    m.assume(k > n)
    A0 = H - H.conj().T if skew else H + H.conj().T
    A = compute_symmetric(X, N.dot(A0, X), -1, skew)["atilde"]
    U = N.linalg.svd(X, full_matrices=False)[0]
    R = N.linalg.multi_dot([U.conj().T, A0, U])
    m.eq("generating operator, reduced", A, R, tol=1e-5)
    m.eq("nothing is lost in the reduction", N.linalg.multi_dot([U, R, U.conj().T]), A0, tol=1e-5)


@unit("C12", funcs=["pidmd.PiDMDOperator.compute_operator", "utils.compute_svd"], cases=100)
def eigenpairs(m):
    """modes and eigenvalues are eigenpairs of the operator whichever way the family solver reports it"""
    from pydmd.pidmd import PiDMDOperator

    N = m.np
    n, k = m.dim("n", 3, 6), m.dim("k", 7, 9)
    X, Y = m.array("X", (n, k), m.kind()), m.array("Y", (n, k), m.kind())
    how = m.choice("solver", ["atilde", "A"])
    r = m.dim("r", 1, 3)
    op = PiDMDOperator("unitary" if how == "atilde" else "uppertriangular", None, True, r)
    if m.sym:
        m.stub("pydmd.pidmd:PiDMDOperator._compute_procrustes", lambda self, X, Y: {"atilde": m.array("At", (m.np.linalg.svd(X, full_matrices=False)[0][:, :r].shape[1],) * 2, "c")} if how == "atilde" else {"A": m.array("A", (n, n), "c")})
    U, s, V = op.compute_operator(X, Y)
    lam, Phi = op.eigenvalues, op.modes
    if how == "atilde":
        m.eq("reduced eigenpairs", N.dot(op.as_numpy_array, op.eigenvectors), op.eigenvectors * lam[None], tol=1e-6)
        m.eq("lift", Phi, N.dot(U, op.eigenvectors))
        m.independent_columns(Phi)
        m.eq("operator is the lift of the reduced one on the modes", N.dot(op.A, Phi), Phi * lam[None], tol=1e-6)
    else:
        m.eq("eigenpairs", N.dot(op.A, Phi), Phi * lam[None], tol=1e-6)
