"""scipy.sparse values by their dense meaning; only operations whose meaning is the same are exposed"""
from . import ix as I
from . import models as M
from . import term as T
from .arr import SymArray, SymInt, asarr, issym
from .ix import Unsupported, ix


class SymSparse:
    def __init__(self, a):
        self.a = a

    @property
    def shape(self):
        return self.a.shape

    ndim = 2

    @property
    def T(self):
        return SymSparse(self.a.T)

    @property
    def real(self):
        return SymSparse(self.a.real)

    @property
    def dtype(self):
        return self.a.dtype

    def conj(self):
        return SymSparse(self.a.conj())

    def transpose(self):
        return self.T

    def toarray(self):
        return M.copy(self.a)

    todense = toarray

    def _same(self, *a, **k):
        return self

    tocsc = tocsr = tocoo = asformat = copy = _same

    def dot(self, o):
        return wrap(M.dot(self.a, dense(o)), isinstance(o, SymSparse))

    __matmul__ = dot

    def __rmatmul__(self, o):
        return M.dot(dense(o), self.a)

    def __mul__(self, o):
        if isinstance(o, SymSparse) or (type(o) is SymArray and o.ndim):
            return self.dot(o)
        return SymSparse(self.a * o)

    def __add__(self, o):
        return wrap(self.a + dense(o), isinstance(o, SymSparse))

    __radd__ = __add__

    def __sub__(self, o):
        return wrap(self.a - dense(o), isinstance(o, SymSparse))

    def __neg__(self):
        return SymSparse(-self.a)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"sparse matrix attribute {n}")


def wrap(a, sp):
    return SymSparse(a) if sp else a


def dense(x):
    return x.a if isinstance(x, SymSparse) else x


def matrix(x, shape=None, dtype=None, copy=False):
    M.used("sparse matrices mean their dense equivalents")
    if isinstance(x, SymSparse):
        return x
    if type(x) is SymArray:
        if x.ndim != 2:
            raise Unsupported("sparse matrix of a vector")
        return SymSparse(M.copy(x))
    if isinstance(x, tuple) and len(x) == 2 and all(type(q) in (SymInt, int) for q in x):
        return SymSparse(M.zeros(x, dtype=dtype or float))
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) and len(x[1]) == 2 and shape is not None:
        d, i, j = M.A(x[0]), M.A(x[1][0]), M.A(x[1][1])
        fd, fi, fj = d.num(), i.num(), j.num()
        n = d._shape[0]

        def at(r, c):
            return T.tsum(n, lambda q: T.ite(I.conj([I.eq(T.as_index(fi(q)), r), I.eq(T.as_index(fj(q)), c)]), fd(q), T.ZERO))

        return SymSparse(M.new(tuple(ix(q) for q in shape), d.kind, at))
    raise Unsupported("sparse matrix from coordinates")


def hstack(bs, format=None, dtype=None):
    return SymSparse(M.hstack([dense(b) for b in bs]))


def vstack(bs, format=None, dtype=None):
    return SymSparse(M.vstack([dense(b) for b in bs]))


def spsolve(a, b, *_, **k):
    M.used("spsolve(A, b) = A^-1 b")
    return M.solve(dense(a), dense(b))


TYPES = {"csc_matrix", "csr_matrix", "coo_matrix", "csc_array", "csr_array", "coo_array"}
FUNCS = {"sparse.hstack": hstack, "sparse.vstack": vstack, "sparse.linalg.spsolve": spsolve, "spsolve": spsolve}
FUNCS.update({"sparse." + t: matrix for t in TYPES})
