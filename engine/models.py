"""Models (assumed contracts) of the numpy/scipy functions pydmd calls.

Entry-wise functions are definitions.  Factorisations return fresh atoms and
register the equations of their documentation as rewrite hypotheses; results
are memoised on the normal form of the arguments (determinism of numpy)."""
import itertools
import math
from fractions import Fraction

import numpy as np

from . import ix as I
from . import term as T
from .arr import (
    SymMasked,
    DT,
    Selection,
    SymArray,
    SymScalar,
    asarr,
    asarr_any,
    assign,
    bcast_idx,
    bcast_shape,
    dim_eq,
    has_sym,
    isarr,
    issym,
    kind_of,
    kind_of_dtype,
    kmax,
    mkscal,
    nf_to_ix,
    slice_bounds,
    to_int,
    under,
)
from .ix import IX, SymBool, SymInt, Unsupported, ctx, ix, mkbool, mkint
from .seq import Spread, SymSeq

_id = itertools.count()
USED = {}  # assumed dependency contracts used in this run


def used(name):
    USED[name] = USED.get(name, 0) + 1


def new(shape, kind, fn):
    return SymArray.new(shape, kind, fn)


def A(x):
    """anything array-like -> SymArray"""
    if type(x) is SymSeq:
        return x.to_array()
    if isinstance(x, (list, tuple)) and not issym(x):
        return asarr_any(x)
    return asarr(x)


def out(a):
    """0-d arrays become scalars"""
    if a.ndim == 0:
        v = a.reader()()
        return mkscal(v)
    return a


# --------------------------------------------------------------------------
# entry-wise
# --------------------------------------------------------------------------
ARITH = {
    "add": T.add,
    "sub": T.sub,
    "mul": T.mul,
    "div": lambda a, b: T.mul(a, T.recip(b)),
    "floordiv": lambda a, b: T.fn("floor", T.mul(a, T.recip(b))),
    "pow": T.power,
}


def _floordiv(a, b):
    ia, ib = T.as_index(a), T.as_index(b)
    if ia is not None and ib is not None and ctx().entails(I.lt(0, ib)):
        return T.TInt(I.idiv(ia, ib))
    return T.fn("floor", T.mul(a, T.recip(b)))


def _mod(a, b):
    ia, ib = T.as_index(a), T.as_index(b)
    if ia is not None and ib is not None and ctx().entails(I.lt(0, ib)):
        return T.TInt(I.imod(ia, ib))
    raise Unsupported("mod of reals")


ARITH["floordiv"] = _floordiv
ARITH["mod"] = _mod


def cmp_cond(name, x, y):
    if name == "lt":
        return I.ecmp("<", x, y)
    if name == "le":
        return I.ecmp("<=", x, y)
    if name == "gt":
        return I.ecmp("<", y, x)
    if name == "ge":
        return I.ecmp("<=", y, x)
    if name == "eq":
        return I.ecmp("==", x, y)
    if name == "ne":
        return I.neg(I.ecmp("==", x, y))
    raise AssertionError


def ew(shape, fs, shapes, g):
    def f(*idx):
        return g(*[fn(*bcast_idx(idx, shape, s)) for fn, s in zip(fs, shapes)])

    return f


def binop(name, a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if name == "eq":
            return False
        if name == "ne":
            return True
        raise TypeError("unsupported operand")
    if name in ("lt", "le", "gt", "ge"):
        for x, y, fl in ((a, b, False), (b, a, True)):
            if type(y) is not SymScalar and isinstance(y, float) and math.isinf(y):
                less = name in ("lt", "le")
                if fl:
                    less = not less
                v = I.TRUE if (less == (y > 0)) else I.FALSE
                xa = A(x)
                return out(new(xa._shape, "b", lambda *i: v))
    a, b = A(a), A(b)
    sh = bcast_shape(a._shape, b._shape)
    ss = [a._shape, b._shape]
    if name in ("and", "or"):
        if a.kind != "b" or b.kind != "b":
            raise Unsupported("bitwise on numbers")
        g = (lambda x, y: I.conj([x, y])) if name == "and" else (lambda x, y: I.disj([x, y]))
        return out(new(sh, "b", ew(sh, [a.reader(), b.reader()], ss, g)))
    if name in ("lt", "le", "gt", "ge", "eq", "ne"):
        if a.kind == "b" and b.kind == "b" and name in ("eq", "ne"):
            def g(x, y):
                e = I.disj([I.conj([x, y]), I.conj([I.neg(x), I.neg(y)])])
                return e if name == "eq" else I.neg(e)

            return out(new(sh, "b", ew(sh, [a.reader(), b.reader()], ss, g)))
        return out(new(sh, "b", ew(sh, [a.num(), b.num()], ss, lambda x, y: cmp_cond(name, x, y))))
    k = kmax(a.kind, b.kind)
    if name == "div":
        k = kmax(k, "f")
    if k == "b":
        k = "i"
    if name == "pow" and k == "i":
        pass
    return out(new(sh, k, ew(sh, [a.num(), b.num()], ss, ARITH[name])))


def unary(name, a):
    if type(a) is SymInt and name in ("real", "conj"):
        return a
    a = A(a)
    f = a.num()
    k = a.kind
    if name == "conj":
        return out(new(a._shape, k, lambda *i: T.conj(f(*i))))
    if name in ("real", "imag"):
        return out(new(a._shape, "f" if k == "c" else k, lambda *i: T.fn(name, f(*i))))
    if name == "abs":
        return out(new(a._shape, "f" if k == "c" else k, lambda *i: T.fn("abs", f(*i))))
    if name == "neg":
        return out(new(a._shape, k, lambda *i: T.neg(f(*i))))
    if name == "square":
        return out(new(a._shape, k, lambda *i: T.power(f(*i), T.Num(2))))
    if name == "reciprocal":
        return out(new(a._shape, kmax(k, "f"), lambda *i: T.recip(f(*i))))
    if name == "angle":
        return out(new(a._shape, "f", lambda *i: T.fn("imag", T.fn("log", f(*i)))))
    if name == "sign":
        return out(new(a._shape, k, lambda *i: T.ite(I.ecmp("<", T.ZERO, f(*i)), T.ONE, T.ite(I.ecmp("<", f(*i), T.ZERO), T.Num(-1), T.ZERO))))
    kk = kmax(k, "f")
    return out(new(a._shape, kk, lambda *i: T.fn(name, f(*i))))


def round_(a, decimals=0, **k):
    if decimals != 0:
        raise Unsupported("round to decimals")
    a = A(a)
    f = a.num()

    def h(*i):
        t = f(*i)
        e = nf_to_ix(T.nf(t))
        return T.TInt(e) if e is not None else T.fn("round", t)

    return out(new(a._shape, kmax(a.kind, "f"), h))


def clip(a, lo=None, hi=None):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def maximum(a, b):
    a, b = A(a), A(b)
    sh = bcast_shape(a._shape, b._shape)
    return out(new(sh, kmax(a.kind, b.kind), ew(sh, [a.num(), b.num()], [a._shape, b._shape], lambda x, y: T.ite(I.ecmp("<", x, y), y, x))))


def minimum(a, b):
    a, b = A(a), A(b)
    sh = bcast_shape(a._shape, b._shape)
    return out(new(sh, kmax(a.kind, b.kind), ew(sh, [a.num(), b.num()], [a._shape, b._shape], lambda x, y: T.ite(I.ecmp("<", y, x), y, x))))


def where(c, x=None, y=None):
    if x is None:
        m = A(c)
        if m.ndim != 1:
            raise Unsupported("where on a multi-dimensional mask")
        if m.kind != "b":
            m = binop("ne", m, 0)
        s = Selection.of(m, m._shape[0])
        return (new((s.count,), "i", lambda i: T.TInt(s.sel(i))),)
    return _where3(c, x, y)


def result_type(*a):
    return np.result_type(*[x.dtype if issym(x) else x for x in a])


def flatnonzero(c):
    return where(A(c))[0]


def _where3(c, x, y):
    c, x, y = A(c), A(x), A(y)
    sh = bcast_shape(bcast_shape(c._shape, x._shape), y._shape)
    k = kmax(x.kind, y.kind)
    return out(new(sh, k, ew(sh, [c.reader(), x.num(), y.num()], [c._shape, x._shape, y._shape], T.ite)))


def logical(name):
    def f(*args):
        args = [A(a) for a in args]
        args = [a if a.kind == "b" else binop("ne", a, 0) for a in args]
        if name == "not":
            return ~args[0]
        return binop(name, args[0], args[1])

    return f


# --------------------------------------------------------------------------
# contraction
# --------------------------------------------------------------------------
def _need_eq(a, b, what):
    if not dim_eq(a, b):
        raise ValueError(f"{what}: shapes not aligned: {a} != {b}")


def dot(a, b):
    if type(a) not in (SymArray,) and type(b) not in (SymArray,) and not isarr(a) and not isarr(b) and not isinstance(a, (list, tuple)) and not isinstance(b, (list, tuple)):
        return a * b
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        return binop("mul", a, b)
    fa, fb = a.num(), b.num()
    k = kmax(a.kind, b.kind, "i")
    ka = a._shape[-1]
    if b.ndim == 1:
        _need_eq(ka, b._shape[0], "dot")
        return out(new(a._shape[:-1], k, lambda *i: T.tsum(ka, lambda q: T.mul(fa(*i, q), fb(q)))))
    _need_eq(ka, b._shape[-2], "dot")
    na = a.ndim - 1

    def f(*i):
        ia, ib = i[:na], i[na:]
        return T.tsum(ka, lambda q: T.mul(fa(*ia, q), fb(*ib[:-1], q, ib[-1])))

    return out(new(a._shape[:-1] + b._shape[:-2] + b._shape[-1:], k, f))


def matmul(a, b):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    # batched
    fa, fb = a.num(), b.num()
    k = kmax(a.kind, b.kind, "i")
    if b.ndim == 1:
        _need_eq(a._shape[-1], b._shape[0], "matmul")
        return new(a._shape[:-1], k, lambda *i: T.tsum(a._shape[-1], lambda q: T.mul(fa(*i, q), fb(q))))
    if a.ndim == 1:
        _need_eq(a._shape[0], b._shape[-2], "matmul")
        return new(b._shape[:-2] + b._shape[-1:], k, lambda *i: T.tsum(a._shape[0], lambda q: T.mul(fa(q), fb(*i[:-1], q, i[-1]))))
    _need_eq(a._shape[-1], b._shape[-2], "matmul")
    bs = bcast_shape(a._shape[:-2], b._shape[:-2])

    def f(*i):
        bi = i[: len(bs)]
        ia = bcast_idx(bi, bs, a._shape[:-2])
        ib = bcast_idx(bi, bs, b._shape[:-2])
        return T.tsum(a._shape[-1], lambda q: T.mul(fa(*ia, i[-2], q), fb(*ib, q, i[-1])))

    return new(bs + (a._shape[-2], b._shape[-1]), k, f)


def multi_dot(arrs):
    r = arrs[0]
    for x in arrs[1:]:
        r = dot(r, x)
    return r


def outer(a, b):
    a, b = ravel(a), ravel(b)
    fa, fb = a.num(), b.num()
    return new((a._shape[0], b._shape[0]), kmax(a.kind, b.kind), lambda i, j: T.mul(fa(i), fb(j)))


def kron(*a):
    raise Unsupported("kron")


# --------------------------------------------------------------------------
# reductions
# --------------------------------------------------------------------------
def _axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(x % a.ndim for x in axis)
    if not -a.ndim <= axis < a.ndim:
        raise np.exceptions.AxisError(axis, a.ndim)
    return (axis % a.ndim,)


def reduce_sum(a, axis=None, dtype=None, out_=None, keepdims=False, **kw):
    a = A(a)
    if a.kind == "b" and a.ndim == 1 and axis in (None, 0, -1):
        return mkint(Selection.of(a, a._shape[0]).count)
    ax = _axes(a, axis)
    f = a.num()
    keep = [i for i in range(a.ndim) if i not in ax]

    def g(*idx):
        if keepdims:
            base = [idx[i] for i in range(a.ndim)]
        else:
            base = [None] * a.ndim
            for p, i in enumerate(keep):
                base[i] = idx[p]

        def rec(js, cur):
            if not js:
                return f(*cur)
            j = js[0]

            def body(q):
                c = list(cur)
                c[j] = q
                return rec(js[1:], c)

            return T.tsum(a._shape[j], body)

        return rec(list(ax), base)

    sh = [ix(1) if i in ax else s for i, s in enumerate(a._shape)] if keepdims else [a._shape[i] for i in keep]
    return out(new(sh, kmax(a.kind, "i"), g))


def mean(a, axis=None, keepdims=False, **kw):
    a = A(a)
    if a.kind in "bi":
        a = astype(a, float)
    s = reduce_sum(a, axis, keepdims=keepdims)
    n = ix(1)
    for j in _axes(a, axis):
        n = n * a._shape[j]
    return binop("div", s, mkint(n))


def average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = A(a)
    if returned:
        raise Unsupported("average(returned=True)")
    if weights is None:
        return mean(a, axis, keepdims=keepdims)
    w = A(weights)
    if axis is None and w.ndim == a.ndim:
        return binop("div", reduce_sum(binop("mul", a, w), keepdims=keepdims), reduce_sum(w))
    if w.ndim == 1 and isinstance(axis, int):
        ax = axis % a.ndim
        if not dim_eq(w._shape[0], a._shape[ax]):
            raise ValueError("Length of weights not compatible with specified axis.")
        sh = [1] * a.ndim
        wf = w.num()
        wv = new([a._shape[i] if i == ax else 1 for i in range(a.ndim)], w.kind, lambda *i: wf(i[ax]))
        return binop("div", reduce_sum(binop("mul", a, wv), ax, keepdims=keepdims), reduce_sum(w))
    raise Unsupported("average")


def prod(a, axis=None, **kw):
    a = A(a)
    if a.ndim == 1 and a._shape[0].const is not None:
        r = 1
        for i in range(a._shape[0].const):
            r = r * a[i]
        return r
    raise Unsupported("prod over a symbolic axis")


def cumsum(a, axis=None, **kw):
    a = A(a)
    if a.ndim != 1:
        raise Unsupported("cumsum of matrix")
    f = a.num()
    return new(a._shape, kmax(a.kind, "i"), lambda i: T.tsum(i + 1, lambda q: f(q)))


def opaque_red(name):
    """reduction with unspecified value (only determinism is assumed)"""

    def f(a, axis=None, **kw):
        a = A(a)
        if axis is None and a.ndim == 1 and a._shape[0].const == 1:
            return a[0]
        if name in ("max", "min") and axis is None and a.ndim == 1 and a._shape[0].const is not None and a._shape[0].const <= 3:
            r = a[0]
            for j in range(1, a._shape[0].const):
                r = (maximum if name == "max" else minimum)(r, a[j])
            return r
        ax = _axes(a, axis)
        keep = [i for i in range(a.ndim) if i not in ax]
        if keep:
            raise Unsupported(name + " along an axis")
        d = dep(name, [a], lambda: scalar_atom(name, True))
        used(f"np.{name}: deterministic function of the entries")
        return d

    return f


def scalar_atom(nm, real):
    n = f"{nm}{next(_id)}"
    if real:
        T.REAL.add(n)
    return SymScalar(T.atom(n))


def all_any(which):
    def f(a, axis=None, **kw):
        a = A(a)
        if a.kind != "b":
            a = binop("ne", a, 0)
        f_ = a.reader()
        if a.ndim == 1 and axis in (None, 0):
            n = a._shape[0].const
            if n is not None and n <= 8:
                cs = [f_(ix(i)) for i in range(n)]
                return mkbool(I.conj(cs) if which == "all" else I.disj(cs))
        if axis is None:
            # a quantified condition: decided generically when entailed, else opaque
            idx = [I.fresh("u", s) for s in a._shape]
            c = f_(*idx)
            if which == "any":
                c = I.neg(c)
            if ctx().entails(c):
                return which == "all"
            raise Unsupported(f"undetermined np.{which}")
        raise Unsupported(f"np.{which}")

    return f


def searchsorted(a, v, side="left", **kw):
    a = A(a)
    f = a.num()
    n = a._shape[0]
    tv = T.lift(v)
    key = ("ss", arrkey(a), T.nf(tv).key, side)
    memo = ctx().memo
    if key not in memo:
        r = I.fresh("ss", n + 1)
        memo[key] = r
        ops = ("<", "<=") if side == "left" else ("<=", "<")
        # r > 0 -> a[r-1] op v ; r < n -> v op' a[r]
        ctx().assume(I.disj([I.le(r, 0), I.ecmp(ops[0], f(r - 1), tv)]))
        ctx().assume(I.disj([I.le(n, r), I.ecmp(ops[1], tv, f(r))]))
        ctx().assume(I.disj([I.le(r, 1), I.ecmp(ops[0], f(r - 2), tv)]))
        used("np.searchsorted: insertion point of a sorted array")
    return mkint(memo[key])


# --------------------------------------------------------------------------
# shapes
# --------------------------------------------------------------------------
def transpose(a, *axes):
    a = A(a)
    if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
        axes = axes[0] or ()
    if not axes:
        axes = tuple(reversed(range(a.ndim)))
    axes = [x % a.ndim for x in axes]
    return permute(a, axes)


def permute(a, axes):
    """view with new axis j = old axis axes[j]"""
    sh = [a._shape[x] for x in axes]
    inv = {x: j for j, x in enumerate(axes)}
    if a.opaque is not None:
        om = a.opaque
        r = SymArray(a.buf, sh, a.axes, lambda *i: om(*[i[inv[d]] for d in range(len(axes))]))
    else:
        from .arr import Axis

        ax = [x if x.kind == "fix" else Axis("ax", inv[x.a], x.start, x.step) for x in a.axes]
        r = SymArray(a.buf, sh, ax)
    r.readonly = a.readonly
    return r


def swapaxes(a, i, j):
    a = A(a)
    p = list(range(a.ndim))
    i, j = i % a.ndim, j % a.ndim
    p[i], p[j] = p[j], p[i]
    return permute(a, p)


def moveaxis(a, s, d):
    a = A(a)
    if isinstance(s, (tuple, list)):
        raise Unsupported("moveaxis with several axes")
    s, d = s % a.ndim, d % a.ndim
    p = [i for i in range(a.ndim) if i != s]
    p.insert(d, s)
    return permute(a, p)


def _size(shape):
    r = ix(1)
    for s in shape:
        r = r * s
    return r


def _exact_div(a, b):
    if b.const == 1:
        return a
    s = I._split_by(a, b)
    if s is not None and s[1].key == "0":
        return s[0]
    if a.const is not None and b.const:
        if a.const % b.const == 0:
            return ix(a.const // b.const)
        return None
    # cancel common factors one by one (monomial divisor)
    q = I.idiv(a, b)
    if not any(at[0] == "f" and at[1] == "div" for at in q.atoms()) and ctx().entails(I.eq(q * b, a)):
        return q
    return None


def _memory_order(a, order):
    """orders that follow the memory layout: the layout of an array is arbitrary"""
    if order in ("A", "K") and a.ndim > 1:
        return "F" if SymBool(I.Cond("b", (f"fortran{next(_id)}", ()))) else "C"
    return "C" if order in ("A", "K") else order


def reshape(a, *shape, order="C", **kw):
    a = A(a)
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    order = _memory_order(a, order)
    if order != "C":
        if order == "F":
            r = reshape(transpose(a), *reversed(list(shape)))
            return transpose(r)
        raise Unsupported("reshape order")
    sh = []
    hole = None
    for j, s in enumerate(shape):
        if type(s) is SymScalar or isinstance(s, float):
            raise TypeError("'float' object cannot be interpreted as an integer")
        s = ix(s)
        if s.const == -1:
            hole = j
            sh.append(None)
        else:
            sh.append(s)
    tot = _size(a._shape)
    if hole is not None:
        known = _size([s for s in sh if s is not None])
        q = _exact_div(tot, known)
        if q is None:
            raise Unsupported(f"reshape: {tot} / {known}")
        sh[hole] = q
    else:
        if not ctx().decide(I.eq(_size(sh), tot)):
            raise ValueError("cannot reshape array")
    old, nw = a._shape, tuple(sh)
    if len(old) == len(nw) and all(x.key == y.key for x, y in zip(old, nw)):
        r = SymArray(a.buf, nw, a.axes, a.opaque)
        r.readonly = a.readonly
        return r

    # groups of axes with equal products, to keep index maps simple
    groups = _groups(old, nw)

    def imap(*idx):
        res = [None] * len(old)
        for go, gn in groups:
            if len(go) == 1 and len(gn) == 1:
                res[go[0]] = idx[gn[0]]
                continue
            lin = ix(0)
            for j in gn:
                lin = lin * nw[j] + idx[j]
            if not go:
                continue
            for p in range(len(go) - 1, -1, -1):
                d = old[go[p]]
                if d.const == 1:
                    res[go[p]] = ix(0)
                    continue
                rest_one = all(old[g].const == 1 for g in go[:p])
                if p == 0 or rest_one:
                    res[go[p]] = lin
                    lin = ix(0)
                else:
                    res[go[p]] = I.imod(lin, d)
                    lin = I.idiv(lin, d)
        return res

    # affine case (only size-1 axes inserted or removed): keep a writable view
    if all(len([g for g in go if old[g].const != 1]) <= 1 and len([g for g in gn if nw[g].const != 1]) <= 1 for go, gn in groups) and a.opaque is None:
        from .arr import Axis

        m = {}
        for go, gn in groups:
            o = [g for g in go if old[g].const != 1]
            n2 = [g for g in gn if nw[g].const != 1]
            if o:
                m[o[0]] = n2[0] if n2 else None
        if all(v is not None for v in m.values()):
            axs = []
            for x in a.axes:
                if x.kind == "fix":
                    axs.append(x)
                elif x.a in m:
                    axs.append(Axis("ax", m[x.a], x.start, x.step))
                else:
                    axs.append(Axis("fix", None, x.start))
            r = SymArray(a.buf, nw, axs)
            r.readonly = a.readonly
            return r
    rd_axes = a

    if a.opaque is not None:
        om = a.opaque
        full = lambda *i: om(*imap(*i))
    else:
        full = lambda *i: rd_axes._baseidx(imap(*i))
    r = SymArray(a.buf, nw, a.axes, full)
    r.readonly = a.readonly
    return r


def _groups(old, nw):
    """split the axes into consecutive groups with provably equal products"""
    res = []
    i = j = 0
    n, m = len(old), len(nw)
    while i < n or j < m:
        found = None
        for tot in range(1, (n - i) + (m - j) + 1):
            for x in range(0, min(tot, n - i) + 1):
                y = tot - x
                if y > m - j:
                    continue
                if x == 0 or y == 0:
                    # only groups of ones
                    seq = old[i : i + x] if y == 0 else nw[j : j + y]
                    if all(s.const == 1 for s in seq) and (i + x == n and j + y == m or True):
                        # prefer real matches when available
                        if i + x <= n and j + y <= m and (i == n or j == m or seq):
                            # avoid eating a 1 that could match a 1
                            if (y == 0 and j < m and nw[j].const == 1) or (x == 0 and i < n and old[i].const == 1):
                                continue
                            found = (x, y)
                            break
                    continue
                pa, pb = _size(old[i : i + x]), _size(nw[j : j + y])
                if pa.key == pb.key or (I.CTX and pa.vars() | pb.vars() and ctx().entails(I.eq(pa, pb))):
                    found = (x, y)
                    break
            if found:
                break
        if found is None:
            found = (n - i, m - j)
        x, y = found
        res.append((list(range(i, i + x)), list(range(j, j + y))))
        i, j = i + x, j + y
    return res


def ravel(a, order="C"):
    a = A(a)
    order = _memory_order(a, order)
    if order == "F":
        return ravel(transpose(a))
    if a.ndim == 1:
        return a
    if "ravel" in ctx().memo.get("uninterpreted", ()):
        return fresh_arr("flat", (prod_ix(a._shape),), real=isreal(a))
    return reshape(a, (-1,))


def prod_ix(shape):
    r = ix(1)
    for s in shape:
        r = r * s
    return r


def flatten(a, order="C"):
    return copy(ravel(a, order))


def squeeze(a, axis=None):
    a = A(a)
    key = []
    for i, s in enumerate(a._shape):
        one = s.const == 1
        if not one and s.const is None and (axis is None or axis % a.ndim == i):
            one = ctx().decide(I.eq(s, 1))
        if one and (axis is None or axis % a.ndim == i):
            key.append(0)
        else:
            if axis is not None and axis % a.ndim == i:
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
            key.append(slice(None))
    r = a._index(tuple(key))
    return r


def expand_dims(a, axis):
    a = A(a)
    axis = axis % (a.ndim + 1)
    return a._index(tuple([slice(None)] * axis + [None]))


def atleast_1d(a):
    a = A(a)
    return a._index((None,)) if a.ndim == 0 else a


def atleast_2d(a):
    a = A(a)
    if a.ndim == 0:
        return a._index((None, None))
    if a.ndim == 1:
        return a._index((None,))
    return a


def concat(arrs, axis=0):
    if type(arrs) is SymSeq:
        arrs = [Spread(arrs)]
    if len(arrs) == 1 and type(arrs[0]) is Spread:
        arrs = arrs[0].seq
    if type(arrs) is SymSeq:
        c = arrs.n.const
        if c is None:
            return concat_seq(arrs, axis)
        arrs = [arrs.f(ix(i)) for i in range(c)]
    arrs = [A(x) for x in arrs]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    if axis is None:
        arrs = [ravel(x) for x in arrs]
        axis = 0
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    for x in arrs[1:]:
        if x.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for j in range(nd):
            if j != axis and not dim_eq(arrs[0]._shape[j], x._shape[j]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    k = kmax(*[x.kind for x in arrs])
    fs = [x.reader() if k == "b" else x.num() for x in arrs]
    offs = [ix(0)]
    for x in arrs:
        offs.append(offs[-1] + x._shape[axis])

    def f(*i):
        e = i[axis]
        r = None
        for p in range(len(fs) - 1, -1, -1):
            ii = list(i)
            ii[axis] = e - offs[p]
            if p == len(fs) - 1:
                if len(fs) > 1 and I.CTX and ctx().entails(I.lt(e, offs[p])):
                    continue
                r = fs[p](*ii)
            else:
                c = I.lt(e, offs[p + 1])
                if r is None or ctx().entails(c):
                    r = fs[p](*ii)
                elif ctx().entails(I.neg(c)):
                    continue
                elif k == "b":
                    r = I.disj([I.conj([c, fs[p](*ii)]), I.conj([I.neg(c), r])])
                else:
                    r = T.ite(c, fs[p](*ii), r)
        return r

    sh = list(arrs[0]._shape)
    sh[axis] = offs[-1]
    return new(sh, k, f)


def concat_seq(seq, axis):
    """concatenation of a symbolic number of blocks of one common extent"""
    p = I.fresh("p", seq.n)
    e0 = A(seq.f(p))
    axis = axis % e0.ndim
    w = e0._shape[axis]
    if p.is_var() in w.vars():
        raise Unsupported("concatenation of blocks of varying extent")

    def f(*i):
        e = i[axis]
        if w.const == 1:
            q, r = e, ix(0)
        else:
            q, r = I.idiv(e, w), I.imod(e, w)
        ii = list(i)
        ii[axis] = r
        return A(seq.f(q)).num()(*ii)

    sh = list(e0._shape)
    sh[axis] = w * seq.n
    return new(sh, e0.kind, f)


def stack(arrs, axis=0):
    if type(arrs) is SymSeq:
        arrs = [Spread(arrs)]
    if len(arrs) == 1 and type(arrs[0]) is Spread:
        arrs = arrs[0].seq
    if type(arrs) is SymSeq:
        r = arrs.to_array()
    else:
        if has_sym(arrs) and not arrs:
            raise ValueError("need at least one array to stack")
        r = asarr_any(list(arrs))
    return moveaxis(r, 0, axis) if axis != 0 else r


def vstack(arrs):
    if type(arrs) is SymSeq:
        arrs = [Spread(arrs)]
    if len(arrs) == 1 and type(arrs[0]) is Spread:
        arrs = arrs[0].seq
    if type(arrs) is SymSeq and arrs.n.const is None:
        return concat_seq(SymSeq(arrs.n, lambda i: atleast_2d(arrs.f(i))), 0)
    if type(arrs) is SymArray:
        arrs = [arrs[i] for i in range(len(arrs))]
    return concat([atleast_2d(x) for x in arrs], 0)


def hstack(arrs):
    if type(arrs) is SymSeq:
        arrs = [Spread(arrs)]
    if len(arrs) == 1 and type(arrs[0]) is Spread:
        arrs = arrs[0].seq
    if type(arrs) is SymSeq and arrs.n.const is None:
        p = A(arrs.f(I.fresh("p", arrs.n)))
        return concat_seq(arrs, 0 if p.ndim == 1 else 1)
    arrs = [atleast_1d(x) for x in arrs]
    return concat(arrs, 0 if arrs[0].ndim == 1 else 1)


def append(a, v, axis=None):
    return concat([a, v], axis)


def repeat(a, n, axis=None):
    a = A(a)
    if axis is None:
        a = ravel(a)
        axis = 0
    axis %= a.ndim
    f = a.reader()
    n = ix(n)
    sh = list(a._shape)
    one = sh[axis].const == 1
    sh[axis] = sh[axis] * n

    def g(*i):
        ii = list(i)
        ii[axis] = ix(0) if one else I.idiv(i[axis], n)
        return f(*ii)

    return new(sh, a.kind, g)


def tile(a, reps):
    a = A(a)
    if isinstance(reps, (int,)) or type(reps) is SymInt:
        reps = (reps,)
    reps = [ix(r) for r in reps]
    while len(reps) < a.ndim:
        reps.insert(0, ix(1))
    while a.ndim < len(reps):
        a = a._index((None,))
    f = a.reader()

    def g(*i):
        return f(*[ix(0) if s.const == 1 else (x if r.const == 1 else I.imod(x, s)) for x, s, r in zip(i, a._shape, reps)])

    return new([s * r for s, r in zip(a._shape, reps)], a.kind, g)


def flip(a, axis=None):
    a = A(a)
    if axis is None:
        axes = range(a.ndim)
    else:
        axes = [axis % a.ndim]
    return a._index(tuple(slice(None, None, -1) if i in axes else slice(None) for i in range(a.ndim)))


def broadcast_to(a, shape, **kw):
    a = A(a)
    sh = tuple(ix(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
    f = a.reader()
    s0 = a._shape
    return new(sh, a.kind, lambda *i: f(*bcast_idx(i, sh, s0)))


# --------------------------------------------------------------------------
# constructors
# --------------------------------------------------------------------------
def _shape_arg(s):
    if isinstance(s, (tuple, list)):
        return tuple(ix(x) for x in s)
    return (ix(s),)


def full(shape, fill_value, dtype=None, **kw):
    v = fill_value
    sh = _shape_arg(shape)
    k = kind_of_dtype(dtype) or kind_of(v)
    if isarr(v):
        return broadcast_to(v, tuple(mkint(s) for s in sh))
    if k == "b":
        c = I.tocond(v)
        return new(sh, "b", lambda *i: c)
    t = T.lift(v)
    return new(sh, k, lambda *i: t)


def zeros(shape, dtype=float, **kw):
    if kind_of_dtype(dtype) == "b":
        return full(shape, False, bool)
    return full(shape, 0, dtype)


def ones(shape, dtype=float, **kw):
    if kind_of_dtype(dtype) == "b":
        return full(shape, True, bool)
    return full(shape, 1, dtype)


def empty(shape, dtype=float, **kw):
    nm = f"uninit{next(_id)}"
    k = kind_of_dtype(dtype)
    if k != "c":
        T.REAL.add(nm)
    return new(_shape_arg(shape), k, lambda *i: T.atom(nm, *i))


def zeros_like(a, dtype=None, **kw):
    a = A(a)
    return zeros(a.shape, dtype or a.dtype)


def ones_like(a, dtype=None, **kw):
    a = A(a)
    return ones(a.shape, dtype or a.dtype)


def empty_like(a, dtype=None, **kw):
    a = A(a)
    return empty(a.shape, dtype or a.dtype)


def eye(n, m=None, k=0, dtype=float, **kw):
    n = ix(n)
    m = n if m is None else ix(m)
    k = ix(k)
    return new((n, m), kind_of_dtype(dtype), lambda i, j: T.ite(I.eq(i + k, j), T.ONE, T.ZERO))


def identity(n, dtype=float):
    return eye(n, dtype=dtype)


def arange(*a, dtype=None, **kw):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if all(I.isint(x) for x in (lo, hi, st)):
        s = ix(st)
        if s.const == 0:
            raise ZeroDivisionError
        if s.const is not None and s.const < 0:
            n = ix(lo) - ix(hi)
            if not ctx().decide(I.le(0, n)):
                n = ix(0)
            n = I.idiv(n + (-s.const - 1), ix(-s.const)) if s.const != -1 else n
        else:
            if s.const is None and not ctx().decide(I.lt(0, s)):
                raise Unsupported("arange with a negative symbolic step")
            n = ix(hi) - ix(lo)
            if not ctx().decide(I.le(0, n)):
                n = ix(0)
            elif s.const != 1:
                n = I.idiv(n + s - 1, s)
        k = kind_of_dtype(dtype) or "i"
        l0 = ix(lo)
        return new((n,), k, lambda i: T.TInt(l0 + i * s))
    # real case: ceil((hi-lo)/st) entries, exact arithmetic
    lt, ht, stt = T.lift(lo), T.lift(hi), T.lift(st)
    q = T.mul(T.sub(ht, lt), T.recip(stt))
    n = nf_to_ix(T.nf(q))
    if n is None:
        fl = to_int(SymScalar(T.neg(T.fn("floor", T.neg(q))))) if False else _ceil(q)
        n = fl
    used("np.arange: length ceil((stop-start)/step) in exact arithmetic")
    return new((n,), "f", lambda i: T.add(lt, T.mul(T.TInt(i), stt)))


def _ceil(q):
    c = ctx()
    key = ("ceil", T.nf(q).key)
    if key not in c.memo:
        v = I.fresh("ce", None, 0)
        c.memo[key] = v
        c.assume(I.ecmp("<=", q, T.TInt(v)))
        c.assume(I.ecmp("<", T.TInt(v - 1), q))
    return c.memo[key]


def linspace(a, b, num=50, **kw):
    n = ix(num)
    la, lb = T.lift(a), T.lift(b)
    step = T.mul(T.sub(lb, la), T.recip(T.TInt(n - 1)))
    return new((n,), "f", lambda i: T.add(la, T.mul(T.TInt(i), step)))


def array(x, dtype=None, copy=True, **kw):
    if type(x) in (SymScalar, SymInt, SymBool):
        return A(x)
    a = A(x)
    r = globals()["copy"](a)
    if dtype is not None:
        r = astype(r, dtype)
    return r


def asarray(x, dtype=None, **kw):
    a = A(x)
    if dtype is not None and kind_of_dtype(dtype) != a.kind:
        return astype(a, dtype)
    return a


def copy(a, *_, **k):
    a = A(a)
    f = a.reader()
    return new(a._shape, a.kind, f)


def astype(a, d, *_, **k):
    a = A(a)
    kd = kind_of_dtype(d)
    f = a.reader()
    if kd == a.kind:
        return new(a._shape, kd, f)
    if kd == "b":
        return binop("ne", a, 0)
    g = a.num()
    if kd == "i":
        def h(*i):
            t = g(*i)
            e = T.as_index(t)
            if e is None:
                e = nf_to_ix(T.nf(t))
            if e is None:
                raise Unsupported("astype(int) of reals")
            return T.TInt(e)

        return new(a._shape, "i", h)
    if kd == "f" and a.kind == "c":
        def h(*i):
            t = g(*i)
            if not T.is_real(t):
                ctx().notes.append(("lossy", "astype(float) of complex"))
            return T.fn("real", t)

        return new(a._shape, "f", h)
    return new(a._shape, kd, g)


def diag(a, k=0):
    a = A(a)
    f = a.num()
    if a.ndim == 1:
        n = a._shape[0]
        kk = ix(k)
        if kk.const is None:
            raise Unsupported("diag offset")
        c = kk.const
        N = n + abs(c)
        return new((N, N), a.kind, lambda i, j: T.ite(I.eq(i + c, j), f(i if c >= 0 else j), T.ZERO))
    return diagonal(a, k)


def diagonal(a, k=0, *_, **kw):
    a = A(a)
    if a.ndim != 2 or k != 0:
        raise Unsupported("diagonal")
    n, m = a._shape
    f = a.num()
    L = n if dim_eq(n, m) or ctx().decide(I.le(n, m)) else m
    return new((L,), a.kind, lambda i: f(i, i))


def trace(a):
    return reduce_sum(diagonal(a))


def triu(a, k=0):
    a = A(a)
    f = a.num()
    return new(a._shape, a.kind, lambda i, j: T.ite(I.le(i + ix(k), j), f(i, j), T.ZERO))


def tril(a, k=0):
    a = A(a)
    f = a.num()
    return new(a._shape, a.kind, lambda i, j: T.ite(I.le(j, i + ix(k)), f(i, j), T.ZERO))


def vander(x, N=None, increasing=False):
    x = A(x)
    N = x._shape[0] if N is None else ix(N)
    f = x.num()
    return new((x._shape[0], N), kmax(x.kind, "i"), lambda i, j: T.power(f(i), T.TInt(j if increasing else N - 1 - j)))


def sliding_window_view(a, window, axis=None, **kw):
    a = A(a)
    if axis is not None:
        raise Unsupported("sliding_window_view axis")
    w = _shape_arg(window)
    f = a.reader()
    nd = a.ndim
    if len(w) != nd:
        raise ValueError("sliding_window_view")
    for s, q in zip(a._shape, w):
        if not ctx().decide(I.le(q, s)):
            raise ValueError("window shape cannot be larger than input array shape")
    sh = [s - q + 1 for s, q in zip(a._shape, w)] + list(w)
    return new(sh, a.kind, lambda *i: f(*[i[j] + i[nd + j] for j in range(nd)]))


def split(a, sections, axis=0):
    a = A(a)
    if not isinstance(sections, (int,)) and type(sections) is not SymInt:
        raise Unsupported("split at indices")
    n = a._shape[axis]
    s = ix(sections)
    w = _exact_div(n, s)
    if w is None:
        if not ctx().decide(I.eq(I.imod(n, s), 0)):
            raise ValueError("array split does not result in an equal division")
        w = I.idiv(n, s)
    nd = a.ndim

    def piece(i):
        lo = ix(i) * w
        return a._index(tuple(slice(mkint(lo), mkint(lo + w)) if j == axis % nd else slice(None) for j in range(nd)))

    def piece_g(i):
        # generic piece: bounds hold by construction
        f = a.reader()
        ax = axis % nd
        lo = ix(i) * w
        sh = [w if j == ax else x for j, x in enumerate(a._shape)]
        return new(sh, a.kind, lambda *q: f(*[q[j] + lo if j == ax else q[j] for j in range(nd)]))

    if s.const is not None:
        return [piece_g(ix(i)) for i in range(s.const)]
    return SymSeq(s, piece_g)


def array_split(a, sections, axis=0):
    a = A(a)
    if not isinstance(sections, int) or type(sections) is SymInt:
        raise Unsupported("array_split into a symbolic number")
    n = a._shape[axis]
    s = sections
    q, r = I.idiv(n, ix(s)), I.imod(n, ix(s))
    if r.const is None:
        for k in range(s):
            if ctx().decide(I.eq(r, k)):
                r = ix(k)
                break
    if r.const is None:
        raise Unsupported("array_split")
    res = []
    lo = ix(0)
    for k in range(s):
        w = q + (1 if k < r.const else 0)
        res.append(a._index(tuple(slice(mkint(lo), mkint(lo + w)) if j == axis % a.ndim else slice(None) for j in range(a.ndim))))
        lo = lo + w
    return res


def delete(a, obj, axis=None):
    raise Unsupported("delete")


# --------------------------------------------------------------------------
# sorting
# --------------------------------------------------------------------------
class Perm:
    """permutation of 0..n-1 as an index function, with its inverse"""

    def __init__(self, n, keyf=None, tag="perm"):
        self.n = n
        nm = f"{tag}{next(_id)}"
        inv = nm + "'"

        def rng(name):
            def ax(args):
                (a,) = args
                e = IX({(("f", name, (a,)),): 1})
                inr = I.conj([I.le(0, a), I.lt(a, n)])
                return [I.disj([I.neg(inr), I.conj([I.le(0, e), I.lt(e, n)])])]

            return ax

        def rew(other):
            def r(args):
                (a,) = args
                if len(a.t) == 1:
                    ((m, c),) = a.t.items()
                    if c == 1 and len(m) == 1 and m[0][0] == "f" and m[0][1] == other:
                        return m[0][2][0]
                return None

            return r

        I.IFUN[nm] = dict(axioms=rng(nm), rewrite=rew(inv), perm=(n, inv), pair=keyf and self.pair)
        I.IFUN[inv] = dict(axioms=rng(inv), rewrite=rew(nm), perm=(n, nm))
        self.f = lambda i: I.ifun(nm, i)
        self.inv = lambda i: I.ifun(inv, i)
        if keyf:
            o = I.fresh("o", n)
            tm = keyf(o)
            self.keyf = lambda i: tuple(t.subst({o.is_var(): ix(i)}) for t in tm)
        PERMS.append(self)

    def pair(self, a, b):
        """sortedness: a <= b -> key(p(a)) <= key(p(b)), lexicographically"""
        x, y = self.keyf(self.f(a)), self.keyf(self.f(b))
        c = I.TRUE
        for u, v in reversed(list(zip(x, y))):
            c = I.disj([I.ecmp("<", u, v), I.conj([I.ecmp("==", u, v), c])])
        return [I.disj([I.neg(I.conj([I.le(0, a), I.le(a, b), I.lt(b, self.n)])), c])]


PERMS = []


def argsort(a, axis=-1, **kw):
    a = A(a)
    if a.ndim != 1:
        raise Unsupported("argsort of a matrix")
    f = a.num()
    key = ("argsort", arrkey(a))
    memo = ctx().memo
    if key not in memo:
        memo[key] = Perm(a._shape[0], lambda i: (f(i),))
        used("np.argsort: a permutation in ascending order")
    p = memo[key]
    return new(a._shape, "i", lambda i: T.TInt(p.f(i)))


def sort(a, axis=-1):
    a = A(a)
    p = argsort(a)
    f = a.reader()
    pf = p.reader()
    return new(a._shape, a.kind, lambda i: f(T.as_index(pf(i))))


# --------------------------------------------------------------------------
# dependencies with assumed contracts
# --------------------------------------------------------------------------
def arrkey(a):
    a = A(a)
    idx = []
    for j, s in enumerate(a._shape):
        nm = f"@k{j}|{s.key}"
        I.RANGE.setdefault(nm, (ix(0), s))
        idx.append(I.ivar(nm))
    v = a.reader()(*idx)
    k = v.key if isinstance(v, I.Cond) else T.nf(v).key
    return (tuple(s.key for s in a._shape), k)


def dep(name, arrays, build):
    key = ("dep", name) + tuple(arrkey(a) for a in arrays)
    memo = ctx().memo
    if key not in memo:
        memo[key] = build()
    return memo[key]


def fresh_arr(nm, shape, real=False, pos=False):
    n = f"{nm}{next(_id)}"
    if real:
        T.REAL.add(n)
    if pos:
        T.REAL.add(n)
        T.POS.add(n)
    return new(shape, "f" if real or pos else "c", lambda *i: T.atom(n, *i))


def rule(name, free, lhs, rhs, frac=False):
    """equation lhs == rhs for all free indices; try both orientations"""
    r = T.make_rule(name, free, lhs, rhs, multi=True, frac=frac)
    if r is None:
        return False
    T.add_rules(r)
    return True


def unfold(name, n, k, fa, g):
    """the reverse orientation of rule `name`: used only when the first attempt at an equality fails"""
    i, j = I.fresh("i", n), I.fresh("j", k)
    try:
        r = T.make_rule("unfold " + name, [i, j], fa(i, j), g(i, j))
    except Unsupported:
        r = None
    ctx().unfolds.extend((name, x) for x in r or ())


def isreal(a):
    if a.kind != "c":
        return True
    return False


def svd(a, full_matrices=True, compute_uv=True, **kw):
    a = A(a)
    if a.ndim != 2:
        raise Unsupported("svd of stacked matrices")
    if full_matrices and compute_uv:
        raise Unsupported("full svd")

    def build():
        n, k = a._shape
        p = n if ctx().decide(I.le(n, k)) else k
        re = isreal(a)
        u = fresh_arr("U", (n, p), real=re)
        s = fresh_arr("s", (p,), pos=True)
        vh = fresh_arr("Vh", (p, k), real=re)
        fa, fu, fs, fv = a.num(), u.num(), s.num(), vh.num()
        i, j = I.fresh("i", p), I.fresh("j", p)
        rule("svd:U^H U = I", [i, j], T.tsum(n, lambda q: T.mul(T.conj(fu(q, i)), fu(q, j))), T.ite(I.eq(i, j), T.ONE, T.ZERO))
        i, j = I.fresh("i", p), I.fresh("j", p)
        rule("svd:V V^H = I", [i, j], T.tsum(k, lambda q: T.mul(fv(i, q), T.conj(fv(j, q)))), T.ite(I.eq(i, j), T.ONE, T.ZERO))
        i, j = I.fresh("i", p), I.fresh("j", k)
        rule("svd:U^H X = S V", [i, j], T.tsum(n, lambda q: T.mul(T.conj(fu(q, i)), fa(q, j))), T.mul(fs(i), fv(i, j)))
        i, j = I.fresh("i", n), I.fresh("j", p)
        rule("svd:X V^H = U S", [i, j], T.tsum(k, lambda q: T.mul(fa(i, q), T.conj(fv(j, q)))), T.mul(fu(i, j), fs(j)))
        i, j = I.fresh("i", n), I.fresh("j", k)
        rule("svd:U S V = X", [i, j], T.tsum(p, lambda q: T.mul(fu(i, q), fs(q), fv(q, j))), fa(i, j))
        unfold("svd:U S V = X", n, k, fa, lambda i, j: T.tsum(p, lambda q: T.mul(fu(i, q), fs(q), fv(q, j))))
        if ctx().entails(I.eq(n, p)):
            i, j = I.fresh("i", n), I.fresh("j", n)
            rule("svd:U U^H = I", [i, j], T.tsum(p, lambda q: T.mul(fu(i, q), T.conj(fu(j, q)))), T.ite(I.eq(i, j), T.ONE, T.ZERO))
        if ctx().entails(I.eq(k, p)):
            i, j = I.fresh("i", k), I.fresh("j", k)
            rule("svd:V^H V = I", [i, j], T.tsum(p, lambda q: T.mul(T.conj(fv(q, i)), fv(q, j))), T.ite(I.eq(i, j), T.ONE, T.ZERO))
        return u, s, vh

    used("np.linalg.svd: U^H U = I, V V^H = I (square factors are unitary), U S V = X, U^H X = S V, X V^H = U S, s real positive (no zero singular value is divided by)")
    u, s, vh = dep("svd", [a], build)
    if not compute_uv:
        return copy(s)
    return SVDResult(copy(u), copy(s), copy(vh))


class SVDResult(tuple):
    def __new__(cls, u, s, v):
        return tuple.__new__(cls, (u, s, v))

    U = property(lambda self: self[0])
    S = property(lambda self: self[1])
    Vh = property(lambda self: self[2])


def _square(a):
    if a.ndim != 2 or not dim_eq(a._shape[0], a._shape[1]):
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")


class EigResult(tuple):
    def __new__(cls, w, v):
        return tuple.__new__(cls, (w, v))

    eigenvalues = property(lambda self: self[0])
    eigenvectors = property(lambda self: self[1])


def eig(a, b=None, left=False, right=True, **kw):
    a = A(a)
    _square(a)
    if not right or left and b is not None:
        raise Unsupported("left eigenvectors")
    n = a._shape[0]
    if left:
        # distinct eigenvalues: the left eigenvectors are the rows of the inverse of W up to factors
        used("eig with left eigenvectors: V^H W = diag(d), d nonzero (distinct eigenvalues)")
        lam, w = eig(a)
        g = dep("eig left", [a], lambda: fresh_arr("dleft", (n,)))
        wi = inv(w)
        return lam, (reshape(g, (n, 1)) * wi).conj().T, w
    args = [a] if b is None else [a, A(b)]

    def build():
        lam = fresh_arr("lam", (n,))
        w = fresh_arr("W", (n, n))
        fa, fl, fw = a.num(), lam.num(), w.num()
        i, j = I.fresh("i", n), I.fresh("j", n)
        lhs = T.tsum(n, lambda q: T.mul(fa(i, q), fw(q, j)))
        if b is None:
            rhs = T.mul(fw(i, j), fl(j))
        else:
            fb = args[1].num()
            rhs = T.mul(T.tsum(n, lambda q: T.mul(fb(i, q), fw(q, j))), fl(j))
        if not rule("eig:A W = W L", [i, j], lhs, rhs) and not rule("eig:A W = W L", [i, j], lhs, rhs, frac=True):
            rule("eig:W L = A W", [i, j], rhs, lhs)
        return lam, w

    used("eig: A W = W diag(lambda)")
    lam, w = dep("eig" if b is None else "geig", args, build)
    return EigResult(copy(lam), copy(w))


def eigvals(a):
    return eig(a)[0]


def eigh(a, **kw):
    a = A(a)
    _square(a)
    n = a._shape[0]

    def build():
        psd = arrkey(a) in ctx().memo.get("psd", ())
        lam = fresh_arr("lamh", (n,), real=True, pos=psd)
        w = fresh_arr("Wh", (n, n), real=isreal(a))
        fa, fl, fw = a.num(), lam.num(), w.num()
        i, j = I.fresh("i", n), I.fresh("j", n)
        lhs = T.tsum(n, lambda q: T.mul(fa(i, q), fw(q, j)))
        rhs = T.mul(fw(i, j), fl(j))
        if not rule("eigh:A W = W L", [i, j], lhs, rhs) and not rule("eigh:A W = W L", [i, j], lhs, rhs, frac=True):
            rule("eigh:W L = A W", [i, j], rhs, lhs)
        i, j = I.fresh("i", n), I.fresh("j", n)
        rule("eigh:W^H W = I", [i, j], T.tsum(n, lambda q: T.mul(T.conj(fw(q, i)), fw(q, j))), T.ite(I.eq(i, j), T.ONE, T.ZERO))
        return lam, w

    used("eigh: A W = W diag(lambda), W unitary")
    lam, w = dep("eigh", [a], build)
    return EigResult(copy(lam), copy(w))


def inv(a):
    a = A(a)
    _square(a)
    n = a._shape[0]

    def build():
        r = fresh_arr("inv", (n, n), real=isreal(a))
        fa, fr = a.num(), r.num()
        for nm, g in (
            ("inv:A^-1 A = I", lambda i, j: T.tsum(n, lambda q: T.mul(fr(i, q), fa(q, j)))),
            ("inv:A A^-1 = I", lambda i, j: T.tsum(n, lambda q: T.mul(fa(i, q), fr(q, j)))),
        ):
            i, j = I.fresh("i", n), I.fresh("j", n)
            rule(nm, [i, j], g(i, j), T.ite(I.eq(i, j), T.ONE, T.ZERO))
        return r

    used("inv: A A^-1 = A^-1 A = I")
    return copy(dep("inv", [a], build))


def solve(a, b, **kw):
    a, b = A(a), A(b)
    _square(a)
    used("solve(A, b) = A^-1 b")
    return dot(inv(a), b)


def _diagonal_of(a):
    """d with a = diag(d), or None when a is not visibly diagonal"""
    if not dim_eq(a._shape[0], a._shape[1]):
        return None
    n = a._shape[0]
    i, j = I.fresh("i", n), I.fresh("j", n)
    f = a.num()
    if not under(I.neg(I.eq(i, j)), lambda: not T.nf(f(i, j)).items):
        return None
    return lambda q: f(q, q)


def pairwise_kernels(X, Y=None, metric="linear", *, filter_params=False, n_jobs=None, gamma=None, degree=3, coef0=1):
    """sklearn: linear x.y, polynomial (gamma x.y + coef0)^degree, rbf exp(-gamma |x-y|^2); gamma = 1/features"""
    X = A(X)
    Y = X if Y is None else A(Y)
    _need_eq(X._shape[1], Y._shape[1], "kernels")
    n = X._shape[1]
    fx, fy = X.num(), Y.num()
    K = _kernel_matrix(X, Y, metric, n, fx, fy, gamma, degree, coef0)
    if arrkey(X) == arrkey(Y):
        used("kernel matrices are positive (semi-)definite; no zero eigenvalue is divided by")
        ctx().memo.setdefault("psd", set()).add(arrkey(A(K)))
    return K


def _kernel_matrix(X, Y, metric, n, fx, fy, gamma, degree, coef0):
    used("pairwise_kernels: documented formulas (linear, poly, rbf)")
    lin = lambda i, j: T.tsum(n, lambda q: T.mul(fx(i, q), fy(j, q)))
    if metric == "linear":
        return new((X._shape[0], Y._shape[0]), "f", lin)
    g = binop("div", 1.0, mkint(n)) if gamma is None else gamma
    if metric in ("poly", "polynomial"):
        K = binop("add", binop("mul", new((X._shape[0], Y._shape[0]), "f", lin), g), coef0)
        return binop("pow", K, degree)
    if metric == "rbf":
        sq = new((X._shape[0], Y._shape[0]), "f", lambda i, j: T.tsum(n, lambda q: T.mul(T.sub(fx(i, q), fy(j, q)), T.sub(fx(i, q), fy(j, q)))))
        return unary("exp", binop("mul", sq, unary("neg", g) if isarr(g) else -g))
    raise Unsupported(f"kernel {metric}")


def pinv(a, *_, **kw):
    a = A(a)
    n, k = a._shape
    known = ctx().memo.get("invertible", ())
    if known and dim_eq(n, k):
        if arrkey(a) in known:
            return inv(a)
        if arrkey(transpose(a)) in known:
            return transpose(inv(transpose(a)))
    d = None if "pinv" in ctx().memo.get("uninterpreted", ()) else _diagonal_of(a)
    if d is not None:
        used("pinv of a diagonal matrix: reciprocal entries (non-zero entries)")
        return new((n, n), a.kind, lambda i, j: T.ite(I.eq(i, j), T.recip(d(i)), T.ZERO))

    def build():
        r = fresh_arr("pinv", (k, n), real=isreal(a))
        if "pinv" in ctx().memo.get("uninterpreted", ()):
            return r
        fa, fr = a.num(), r.num()
        i, j = I.fresh("i", n), I.fresh("j", k)
        rule("pinv:A P A = A", [i, j], T.tsum(k, lambda q: T.mul(fa(i, q), T.tsum(n, lambda p: T.mul(fr(q, p), fa(p, j))))), fa(i, j))
        i, j = I.fresh("i", k), I.fresh("j", n)
        rule("pinv:P A P = P", [i, j], T.tsum(n, lambda q: T.mul(fr(i, q), T.tsum(k, lambda p: T.mul(fa(q, p), fr(p, j))))), fr(i, j))
        i, j = I.fresh("i", k), I.fresh("j", n)
        rule("pinv:A^H A P = A^H", [i, j], T.tsum(n, lambda q: T.mul(T.conj(fa(q, i)), T.tsum(k, lambda p: T.mul(fa(q, p), fr(p, j))))), T.conj(fa(j, i)))
        i, j = I.fresh("i", k), I.fresh("j", n)
        rule("pinv:P A A^H = A^H", [i, j], T.tsum(n, lambda q: T.mul(fr(i, q), T.tsum(k, lambda p: T.mul(fa(q, p), T.conj(fa(j, p)))))), T.conj(fa(j, i)))
        return r

    used("pinv: Penrose equations")
    return copy(dep("pinv", [a], build))


def lstsq(a, b, rcond=None, **kw):
    a, b = A(a), A(b)
    if not dim_eq(a._shape[0], b._shape[0]):
        raise np.linalg.LinAlgError("Incompatible dimensions")
    used("lstsq(A, b) = pinv(A) b (minimum-norm least squares)")
    return (dot(pinv(a), b), None, None, None)


def sqrtm(a, *_, **kw):
    a = A(a)
    _square(a)
    n = a._shape[0]

    def build():
        r = fresh_arr("sqrtm", (n, n))
        fa, fr = a.num(), r.num()
        i, j = I.fresh("i", n), I.fresh("j", n)
        rule("sqrtm:R R = A", [i, j], T.tsum(n, lambda q: T.mul(fr(i, q), fr(q, j))), fa(i, j))
        return r

    used("sqrtm: R R = A")
    return copy(dep("sqrtm", [a], build))


class QRResult(tuple):
    def __new__(cls, *a):
        return tuple.__new__(cls, a)

    Q = property(lambda s: s[0])
    R = property(lambda s: s[1])


def qr(a, mode="reduced", **kw):
    a = A(a)
    if mode not in ("reduced", "economic"):
        raise Unsupported("qr mode")
    if kw.get("pivoting"):
        used("qr with pivoting: the factors of the columns in some order")
        key = ("qrp", arrkey(a))
        pm = ctx().memo.setdefault(key, None) or Perm(a._shape[1])
        ctx().memo[key] = pm
        p = new((a._shape[1],), "i", lambda i: T.TInt(pm.f(i)))
        return (*qr(a[:, p], mode), copy(p))

    def build():
        n, k = a._shape
        p = k if ctx().decide(I.le(k, n)) else n
        q_ = fresh_arr("Q", (n, p), real=isreal(a))
        r_ = fresh_arr("R", (p, k), real=isreal(a))
        if "qr" in ctx().memo.get("uninterpreted", ()):
            return q_, r_
        fa, fq, fr = a.num(), q_.num(), r_.num()
        i, j = I.fresh("i", p), I.fresh("j", p)
        rule("qr:Q^H Q = I", [i, j], T.tsum(n, lambda q: T.mul(T.conj(fq(q, i)), fq(q, j))), T.ite(I.eq(i, j), T.ONE, T.ZERO))
        i, j = I.fresh("i", p), I.fresh("j", k)
        rule("qr:Q^H X = R", [i, j], T.tsum(n, lambda q: T.mul(T.conj(fq(q, i)), fa(q, j))), fr(i, j))
        i, j = I.fresh("i", n), I.fresh("j", k)
        rule("qr:Q R = X", [i, j], T.tsum(p, lambda q: T.mul(fq(i, q), fr(q, j))), fa(i, j))
        if ctx().entails(I.eq(n, p)):
            i, j = I.fresh("i", n), I.fresh("j", n)
            rule("qr:Q Q^H = I", [i, j], T.tsum(p, lambda q: T.mul(fq(i, q), T.conj(fq(j, q)))), T.ite(I.eq(i, j), T.ONE, T.ZERO))
        return q_, r_

    used("qr: Q^H Q = I (Q Q^H = I when Q is square), Q R = X")
    q_, r_ = dep("qr", [a], build)
    return QRResult(copy(q_), copy(r_))


def cholesky(a):
    a = A(a)
    n = a._shape[0]

    def build():
        r = fresh_arr("chol", (n, n), real=isreal(a))
        fa, fr = a.num(), r.num()
        i, j = I.fresh("i", n), I.fresh("j", n)
        rule("chol:L L^H = A", [i, j], T.tsum(n, lambda q: T.mul(fr(i, q), T.conj(fr(j, q)))), fa(i, j))
        return r

    used("cholesky: L L^H = A")
    return copy(dep("chol", [a], build))


def norm(a, ord=None, axis=None, keepdims=False, **kw):
    a = A(a)
    if ord in (None, "fro") or (ord == 2 and (a.ndim == 1 or axis is not None)):
        f = a.num()
        sq = new(a._shape, "f", lambda *i: T.mul(f(*i), T.conj(f(*i))))
        s = reduce_sum(sq, axis, keepdims=keepdims)
        s = A(s)
        g = s.num()
        return out(new(s._shape, "f", lambda *i: T.fn("sqrt", g(*i))))
    used(f"norm ord={ord}: deterministic")
    return dep(f"norm{ord}", [a], lambda: scalar_atom("norm", True))


def cond(a, *_, **k):
    used("cond: deterministic")
    return dep("cond", [A(a)], lambda: scalar_atom("cond", True))


def matrix_rank(a, *_, **k):
    a = A(a)

    def build():
        r = I.fresh("mrank", None, 0)
        ctx().assume(I.le(r, a._shape[0]))
        ctx().assume(I.le(r, a._shape[1]))
        return mkint(r)

    used("matrix_rank: deterministic, <= min(shape)")
    return dep("matrix_rank", [a], build)


def det(a):
    return dep("det", [A(a)], lambda: scalar_atom("det", isreal(A(a))))


def block_diag(*arrs):
    arrs = [atleast_2d(x) for x in arrs]
    k = kmax(*[x.kind for x in arrs])
    ro, co = [ix(0)], [ix(0)]
    for x in arrs:
        ro.append(ro[-1] + x._shape[0])
        co.append(co[-1] + x._shape[1])
    fs = [x.num() for x in arrs]

    def f(i, j):
        r = T.ZERO
        for p in range(len(fs)):
            c = I.conj([I.le(ro[p], i), I.lt(i, ro[p + 1]), I.le(co[p], j), I.lt(j, co[p + 1])])
            r = T.ite(c, fs[p](i - ro[p], j - co[p]), r)
        return r

    return new((ro[-1], co[-1]), k, f)


def isclose_like(*a, **k):
    raise Unsupported("isclose")


def unique(a, **kw):
    """values declared present by the contract"""
    r = ctx().memo.get(("unique", arrkey(A(a))))
    if r is None or kw:
        raise Unsupported("np.unique")
    return np.array(r)


def allclose(a, b, *r, **k):
    """tolerance test: either outcome"""
    return SymBool(I.Cond("b", (f"allclose{next(_id)}", ())))


def ndim(a):
    return A(a).ndim


def shape(a):
    return A(a).shape


def size(a, axis=None):
    a = A(a)
    return a.size if axis is None else a.shape[axis]


def iscomplexobj(a):
    return kind_of(a) == "c"


def isscalar(a):
    return type(a) in (SymScalar, SymInt)


def meshgrid(*xs, indexing="xy", **k):
    xs = [A(x) for x in xs]
    if len(xs) != 2:
        raise Unsupported("meshgrid")
    x, y = xs
    fx, fy = x.num(), y.num()
    if indexing == "xy":
        sh = (y._shape[0], x._shape[0])
        return [new(sh, x.kind, lambda i, j: fx(j)), new(sh, y.kind, lambda i, j: fy(i))]
    sh = (x._shape[0], y._shape[0])
    return [new(sh, x.kind, lambda i, j: fx(i)), new(sh, y.kind, lambda i, j: fy(j))]


def term_isnan(t):
    """condition under which a term is NaN (input arrays are assumed free of NaN)"""
    if t.op == "atom":
        return I.TRUE if t.a[0] == "nan!" else I.FALSE
    if t.op in ("num", "int"):
        return I.FALSE
    if t.op == "ite":
        c, a, b = t.a
        return I.disj([I.conj([c, term_isnan(a)]), I.conj([I.neg(c), term_isnan(b)])])
    if t.op in ("add", "mul"):
        return I.disj([term_isnan(x) for x in t.a])
    if t.op == "pow":
        return I.disj([term_isnan(t.a[0]), term_isnan(t.a[1])])
    if t.op == "conj":
        return term_isnan(t.a if isinstance(t.a, T.Term) else t.a[0])
    if t.op == "fn":
        return I.disj([term_isnan(x) for x in t.a[1]])
    if t.op == "sum":
        if term_isnan(t.a[2]).k == "false":
            return I.FALSE
    raise Unsupported("isnan of a sum")


def isnan(a, **k):
    a = A(a)
    f = a.num()
    used("isnan: input arrays contain no NaN")
    return out(new(a._shape, "b", lambda *i: term_isnan(f(*i))))


def ma_array(data, mask=None, **k):
    if k or mask is None:
        raise Unsupported("masked array options")
    return SymMasked(A(data), A(mask))


def _ma_reduce(a, axis, w):
    """weighted mean over the unmasked entries of one axis; some entry must be provably unmasked"""
    used("masked mean: sum of unmasked (weight * value) / sum of unmasked weights")
    ax = axis % a.ndim
    d, mk = a.data, a.mask
    n = d._shape[ax]
    f, g = d.num(), mk.reader()
    sh = [x for i, x in enumerate(d._shape) if i != ax]

    def full(i, q):
        return tuple(i[:ax]) + (q,) + tuple(i[ax:])

    # a witness for an unmasked entry at every position
    idx = [I.fresh("e", x) for x in sh]
    q = I.fresh("q", n)
    qn = q.is_var()
    cond = g(*full(idx, q))
    cand = [I.ix(0), n - 1]
    stack = [cond]
    while stack:
        x = stack.pop()
        if x.k in ("and", "or"):
            stack.extend(x.a)
        elif x.k == "not":
            stack.append(x.a[0] if isinstance(x.a, tuple) else x.a)
        elif x.k in ("le", "eq") and qn in x.vars():
            li = x.a.linear_in(qn)
            if li is not None and li[0] in (1, -1):
                e = -li[1] if li[0] == 1 else li[1]
                cand += [e, e + 1, e - 1]
    ok = I.disj([I.conj([I.neg(g(*full(idx, e))), I.le(0, e), I.lt(e, n)]) for e in cand])
    if not ctx().entails(ok):
        raise Unsupported("masked mean: no provably unmasked entry")
    clean = lambda i, k: strip_nan(f(*full(i, k)))

    def num(*i):
        return T.tsum(n, lambda k: T.ite(g(*full(i, k)), T.ZERO, T.mul(w(k), clean(i, k))))

    def den(*i):
        return T.tsum(n, lambda k: T.ite(g(*full(i, k)), T.ZERO, w(k)))

    return SymMasked(new(sh, kmax(d.kind, "f"), lambda *i: T.mul(num(*i), T.recip(den(*i)))), new(sh, "b", lambda *i: I.FALSE))


def strip_nan(t):
    """the value where it is not NaN (used under the complementary guard)"""
    if t.op == "ite":
        c, a, b = t.a
        if b.op == "atom" and b.a[0] == "nan!":
            return strip_nan(a)
        if a.op == "atom" and a.a[0] == "nan!":
            return strip_nan(b)
    return t


def nanmean(a, axis=None, **k):
    if type(a) is not SymMasked:
        a = A(a)
        a = SymMasked(a, isnan(a))
        return _ma_reduce(a, axis, lambda q: T.ONE).data
    if k or not isinstance(axis, int):
        raise Unsupported("nanmean options")
    return _ma_reduce(a, axis, lambda q: T.ONE)


def ma_average(a, axis=None, weights=None, **k):
    if k or type(a) is not SymMasked or not isinstance(axis, int):
        raise Unsupported("np.ma.average options")
    if weights is None:
        return _ma_reduce(a, axis, lambda q: T.ONE)
    w = A(weights)
    if w.ndim != 1 or not dim_eq(w._shape[0], a.data._shape[axis % a.ndim]):
        raise ValueError("Length of weights not compatible with specified axis.")
    return _ma_reduce(a, axis, w.num())


def nan_unsup(*a, **k):
    raise Unsupported("nan handling")


def bin_(name):
    def f(a, b, **kw):
        if kw.get("out") is not None or kw.get("where") is not None:
            raise Unsupported("ufunc out/where")
        return binop(name, a, b)

    return f


def un_(name):
    def f(a, **kw):
        if kw.get("out") is not None or kw.get("where") is not None:
            raise Unsupported("ufunc out/where")
        return unary(name, a)

    return f


def var(a, axis=None, ddof=0, **k):
    a = A(a)
    m = mean(a, axis, keepdims=True) if axis is not None else mean(a)
    d = binop("sub", a, m)
    f = d.num()
    sq = new(d._shape, "f", lambda *i: T.mul(f(*i), T.conj(f(*i))))
    n = ix(1)
    for j in _axes(a, axis):
        n = n * a._shape[j]
    return binop("div", reduce_sum(sq, axis), mkint(n - ddof))


def std(a, axis=None, ddof=0, **k):
    return unary("sqrt", var(a, axis, ddof))


def einsum(sub, *ops, **k):
    if not isinstance(sub, str) or "." in sub:
        raise Unsupported("einsum form")
    sub = sub.replace(" ", "")
    ops = [A(o) for o in ops]
    if "->" in sub:
        ins, o = sub.split("->")
    else:
        ins = sub
        o = "".join(sorted(c for c in set(ins.replace(",", "")) if ins.replace(",", "").count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum")
    dims = {}
    for s, a in zip(ins, ops):
        if len(s) != a.ndim:
            raise ValueError("einsum: operand has wrong number of dimensions")
        for c, d in zip(s, a._shape):
            if c in dims:
                if not dim_eq(dims[c], d):
                    raise ValueError("einsum dims")
            else:
                dims[c] = d
    fs = [a.num() for a in ops]
    summed = [c for c in dims if c not in o]

    def f(*i):
        env = dict(zip(o, i))

        def rec(cs, env):
            if not cs:
                return T.mul(*[fn(*[env[c] for c in s]) for fn, s in zip(fs, ins)])
            return T.tsum(dims[cs[0]], lambda q: rec(cs[1:], {**env, cs[0]: q}))

        return rec(summed, env)

    return out(new([dims[c] for c in o], kmax(*[a.kind for a in ops], "i"), f))


def dstack(arrs):
    if type(arrs) is list and len(arrs) == 1 and type(arrs[0]) is Spread:
        arrs = arrs[0].seq
    if type(arrs) is SymSeq:
        sq = arrs
        return concat(SymSeq(sq.n, lambda i: A(sq.f(i)) if A(sq.f(i)).ndim >= 3 else A(sq.f(i))._index((Ellipsis, None))), 2)
    return concat([x if A(x).ndim >= 3 else A(x)._index((Ellipsis, None)) for x in arrs], 2)


def apply_along_axis(func1d, axis, a, *args, **kw):
    """func1d on the vectors along one axis; the function is evaluated on an arbitrary such vector"""
    a = A(a)
    nd = a.ndim
    axis = axis % nd
    f = a.num()
    n = a._shape[axis]

    def on(rest):
        return A(func1d(new((n,), a.kind, lambda j: f(*rest[:axis], j, *rest[axis:])), *args, **kw))

    others = [x for j, x in enumerate(a._shape) if j != axis]
    r0 = on([I.fresh("p", x) for x in others])
    k = r0.ndim

    def g(*i):
        rest = [*i[:axis], *i[axis + k :]]
        return on(rest).num()(*i[axis : axis + k])

    return new([*others[:axis], *r0._shape, *others[axis:]], r0.kind, g)


def column_stack(arrs):
    return concat([A(x)._index((slice(None), None)) if A(x).ndim == 1 else A(x) for x in arrs], 1)


def vdot(a, b):
    return dot(unary("conj", ravel(a)), ravel(b))


def inner(a, b):
    a, b = A(a), A(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    raise Unsupported("inner")


def rot90(a, k=1):
    a = A(a)
    for _ in range(k % 4):
        a = flip(transpose(a), 0)
    return a


# fft models: discrete Fourier transform matrices with abstract unitary-up-to-n kernel
def _dftname(n):
    return "dft"


def fft(a, n=None, axis=-1, **k):
    return _dft(a, axis, False)


def ifft(a, n=None, axis=-1, **k):
    return _dft(a, axis, True)


def _dft(a, axis, inverse):
    a = A(a)
    ax = axis % a.ndim
    N = a._shape[ax]
    nm = f"F[{N.key}]"
    f = a.num()
    key = ("dft", N.key)
    memo = ctx().memo
    F = lambda i, j: T.atom(nm, i, j)
    if key not in memo:
        memo[key] = True
        i, j = I.fresh("i", N), I.fresh("j", N)
        rule("dft:F^H F = n I", [i, j], T.tsum(N, lambda q: T.mul(T.conj(F(q, i)), F(q, j))), T.ite(I.eq(i, j), T.TInt(N), T.ZERO))
        i, j = I.fresh("i", N), I.fresh("j", N)
        rule("dft:F F^H = n I", [i, j], T.tsum(N, lambda q: T.mul(F(i, q), T.conj(F(j, q)))), T.ite(I.eq(i, j), T.TInt(N), T.ZERO))
        used("fft: x -> F x with F F^H = n I; ifft: x -> F^H x / n")

    def g(*idx):
        def body(q):
            ii = list(idx)
            ii[ax] = q
            w = T.mul(T.conj(F(q, idx[ax])), T.recip(T.TInt(N))) if inverse else F(idx[ax], q)
            return T.mul(w, f(*ii))

        return T.tsum(N, body)

    return new(a._shape, "c", g)


# ---- random numbers: arbitrary values ------------------------------------
def draw(kind, size):
    """numbers from the process-wide generator: arbitrary, different on every call"""
    used("random numbers: arbitrary values")
    a = fresh_arr("rand", tuple(ix(x) for x in (size if isinstance(size, (tuple, list)) else (size,))), real=True)
    ctx().memo.setdefault("drawn", []).append(a)
    return copy(a)


def shuffle(x):
    """np.random.shuffle: in place, an arbitrary permutation"""
    used("random.shuffle: an arbitrary permutation")
    x = A(x)
    p = Perm(x._shape[0])
    ctx().memo.setdefault("shuffled", []).append(p)
    f = x.reader()
    x.write(lambda i, *r: f(p.f(i), *r))


class SymRng:
    """np.random.default_rng(seed): with a seed the numbers are a function of seed, shape and position in the stream"""

    def __init__(self, seed, real):
        self.seed, self.real, self.k = seed, real, 0

    def standard_normal(self, size=None, *a, **k):
        if not has_sym(size):
            raise Unsupported("random numbers of concrete shape")
        if self.seed is None:
            return draw("normal", size)
        self.k += 1
        used("default_rng(seed): a function of seed, shape and call")
        sh = tuple(ix(x) for x in (size if isinstance(size, (tuple, list)) else (size,)))
        key = ("rng", repr(self.seed), self.k, tuple(x.key for x in sh))
        memo = ctx().memo
        if key not in memo:
            memo[key] = fresh_arr("rng", sh, real=True)
            memo.setdefault("drawn", []).append(memo[key])
        return copy(memo[key])

    def __getattr__(self, n):
        raise Unsupported(f"random generator method {n}")


FUNCS = {
    "random.shuffle": shuffle,
    "random.uniform": lambda low=0, high=1, size=None: draw("uniform", size),
    "random.normal": lambda loc=0, scale=1, size=None: draw("normal", size),
    "random.rand": lambda *s: draw("uniform", s), "random.randn": lambda *s: draw("normal", s),
    "add": bin_("add"), "subtract": bin_("sub"), "multiply": bin_("mul"), "divide": bin_("div"),
    "true_divide": bin_("div"), "power": bin_("pow"), "float_power": bin_("pow"), "floor_divide": bin_("floordiv"), "mod": bin_("mod"),
    "equal": bin_("eq"), "not_equal": bin_("ne"), "less": bin_("lt"), "less_equal": bin_("le"),
    "greater": bin_("gt"), "greater_equal": bin_("ge"),
    "logical_and": logical("and"), "logical_or": logical("or"), "logical_not": logical("not"), "invert": logical("not"),
    "conj": un_("conj"), "conjugate": un_("conj"), "real": un_("real"), "imag": un_("imag"), "abs": un_("abs"),
    "absolute": un_("abs"), "negative": un_("neg"), "square": un_("square"), "reciprocal": un_("reciprocal"),
    "sqrt": un_("sqrt"), "exp": un_("exp"), "log": un_("log"), "sin": un_("sin"), "cos": un_("cos"), "tanh": un_("tanh"),
    "angle": un_("angle"), "sign": un_("sign"), "floor": un_("floor"), "round": round_, "rint": round_, "around": round_,
    "maximum": maximum, "minimum": minimum, "where": where, "flatnonzero": flatnonzero, "result_type": result_type, "clip": clip,
    "dot": dot, "matmul": matmul, "outer": outer, "einsum": einsum, "vdot": vdot, "inner": inner,
    "sum": reduce_sum, "mean": mean, "average": average, "prod": prod, "cumsum": cumsum, "var": var, "std": std,
    "median": opaque_red("median"), "max": opaque_red("max"), "min": opaque_red("min"), "amax": opaque_red("max"), "amin": opaque_red("min"),
    "all": all_any("all"), "any": all_any("any"), "allclose": allclose, "unique": unique, "searchsorted": searchsorted, "count_nonzero": lambda a, **k: reduce_sum(a if kind_of(a) == "b" else binop("ne", a, 0)),
    "transpose": transpose, "swapaxes": swapaxes, "moveaxis": moveaxis, "reshape": reshape, "ravel": ravel,
    "squeeze": squeeze, "expand_dims": expand_dims, "atleast_1d": atleast_1d, "atleast_2d": atleast_2d,
    "concatenate": concat, "stack": stack, "vstack": vstack, "hstack": hstack, "dstack": dstack, "pairwise_kernels": pairwise_kernels, "apply_along_axis": apply_along_axis, "column_stack": column_stack,
    "append": append, "repeat": repeat, "tile": tile, "flip": flip, "flipud": lambda a: flip(a, 0), "fliplr": lambda a: flip(a, 1),
    "rot90": rot90, "broadcast_to": broadcast_to,
    "full": full, "zeros": zeros, "ones": ones, "empty": empty, "zeros_like": zeros_like, "ones_like": ones_like, "empty_like": empty_like,
    "eye": eye, "identity": identity, "arange": arange, "linspace": linspace, "array": array, "asarray": asarray, "ascontiguousarray": asarray, "asanyarray": asarray, "copy": copy,
    "diag": diag, "diagonal": diagonal, "trace": trace, "triu": triu, "tril": tril, "vander": vander,
    "split": split, "array_split": array_split, "argsort": argsort, "sort": sort, "ndim": ndim, "shape": shape, "size": size,
    "isnan": isnan, "nanmean": nanmean, "ma.array": ma_array, "ma.masked_array": ma_array, "ma.average": ma_average,
    "iscomplexobj": iscomplexobj, "isscalar": isscalar, "meshgrid": meshgrid,
    "linalg.svd": svd, "linalg.eig": eig, "linalg.eigvals": eigvals, "linalg.eigh": eigh, "linalg.inv": inv, "linalg.solve": solve,
    "linalg.pinv": pinv, "linalg.lstsq": lstsq, "linalg.qr": qr, "linalg.norm": norm, "linalg.cond": cond,
    "linalg.matrix_rank": matrix_rank, "linalg.multi_dot": multi_dot, "linalg.cholesky": cholesky, "linalg.det": det,
    "linalg.sqrtm": sqrtm, "linalg.block_diag": block_diag, "lib.stride_tricks.sliding_window_view": sliding_window_view,
    "fft.fft": fft, "fft.ifft": ifft,
}

# by bare name, for names imported directly (from scipy.linalg import sqrtm)
BARE = {k.split(".")[-1]: v for k, v in FUNCS.items()}

METHODS = {
    "dot": dot, "conj": lambda a: unary("conj", a), "conjugate": lambda a: unary("conj", a), "copy": copy, "astype": astype,
    "reshape": reshape, "ravel": ravel, "flatten": flatten, "transpose": transpose, "swapaxes": swapaxes, "squeeze": squeeze,
    "sum": reduce_sum, "mean": mean, "cumsum": cumsum, "prod": prod, "all": all_any("all"), "any": all_any("any"),
    "max": opaque_red("max"), "min": opaque_red("min"), "diagonal": diagonal, "argsort": argsort, "repeat": repeat,
    "searchsorted": searchsorted, "trace": trace, "clip": clip, "std": std, "var": var,
}
PROPS = {
    "T": transpose,
    "real": lambda a: unary("real", a),
    "imag": lambda a: unary("imag", a),
}
