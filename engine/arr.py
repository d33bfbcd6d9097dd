"""Symbolic arrays: symbolic shape, element function, aliasing of views, frame tracking."""
import itertools
from fractions import Fraction

import numpy as np

from . import ix as I
from . import term as T
from .ix import IX, SymBool, SymInt, Unsupported, ctx, ix, mkbool, mkint

DT = {"b": np.dtype(bool), "i": np.dtype(int), "f": np.dtype(float), "c": np.dtype(complex)}
ORDER = "bifc"


def kmax(*ks):
    return ORDER[max(ORDER.index(k) for k in ks)]


def kind_of_dtype(d):
    if d is None:
        return None
    k = np.dtype(d).kind
    return {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c", "O": "c"}[k]


class FrameViolation(Exception):
    """the code writes to a buffer its contract promises not to modify"""


class SymScalar:
    """0-d numeric value (numpy scalar / python float / complex)"""

    __slots__ = ("term", "kind")
    __array_priority__ = 1e5
    __array_ufunc__ = None

    def __init__(self, term, kind=None):
        self.term = term
        self.kind = kind or ("f" if T.is_real(term) else "c")

    @property
    def __class__(self):
        return np.float64 if self.kind == "f" else (np.complex128 if self.kind == "c" else np.int64)

    def _b(self, o, f):
        if type(o) is SymArray or isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        try:
            t = T.lift(o)
        except Unsupported:
            return NotImplemented
        return mkscal(f(self.term, t))

    def __add__(self, o):
        return self._b(o, T.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, T.sub)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: T.sub(b, a))

    def __mul__(self, o):
        return self._b(o, T.mul)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda a, b: T.mul(a, T.recip(b)))

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: T.mul(b, T.recip(a)))

    def __floordiv__(self, o):
        return self._b(o, lambda a, b: T.fn("floor", T.mul(a, T.recip(b))))

    def __rfloordiv__(self, o):
        return self._b(o, lambda a, b: T.fn("floor", T.mul(b, T.recip(a))))

    def __pow__(self, o):
        return self._b(o, T.power)

    def __rpow__(self, o):
        return self._b(o, lambda a, b: T.power(b, a))

    def __neg__(self):
        return mkscal(T.neg(self.term))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkscal(T.fn("abs", self.term))

    def _c(self, op, o, swap=False):
        if type(o) is SymArray:
            return NotImplemented
        if type(o) is not SymScalar and isinstance(o, (float, np.floating)) and np.isinf(o):
            pos = o > 0
            if op == "==":
                return False
            # self < inf : True, self < -inf : False ; swapped: inf < self False
            return bool(pos) != swap
        t = T.lift(o)
        a, b = (t, self.term) if swap else (self.term, t)
        return mkbool(I.ecmp(op, a, b))

    def __lt__(self, o):
        return self._c("<", o)

    def __le__(self, o):
        return self._c("<=", o)

    def __gt__(self, o):
        return self._c("<", o, True)

    def __ge__(self, o):
        return self._c("<=", o, True)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._c("==", o)

    def __ne__(self, o):
        r = self == o
        return (not r) if type(r) is bool else mkbool(I.neg(r.c))

    def __hash__(self):
        return 13

    def __bool__(self):
        return bool(self != 0)

    @property
    def real(self):
        return mkscal(T.fn("real", self.term))

    @property
    def imag(self):
        return mkscal(T.fn("imag", self.term))

    def conj(self):
        return mkscal(T.conj(self.term))

    conjugate = conj

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return DT[self.kind]

    def astype(self, d, *a, **k):
        kd = kind_of_dtype(d)
        if kd == "i":
            return to_int(self)
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    def __getitem__(self, k):
        if k is None:
            return asarr(self)[None]
        if k == () or k is Ellipsis:
            return self
        raise TypeError("invalid index to scalar variable")

    def reshape(self, *s):
        return asarr(self).reshape(*s)

    def __repr__(self):
        return f"SymScalar({self.term})"

    def __format__(self, s):
        return repr(self)


def mkscal(t):
    if isinstance(t, I.Cond):
        return mkbool(t)
    i = T.as_index(t)
    if t.op == "int":
        return SymInt(t.a)
    if t.op == "num":
        re, im = t.a
        if im == 0:
            return int(re) if re.denominator == 1 and False else float(re)
        return complex(re, im)
    return SymScalar(t)


def to_int(x):
    if type(x) is SymInt or isinstance(x, (int, np.integer)):
        return x
    if type(x) is SymScalar:
        i = T.as_index(x.term)
        if i is not None:
            return mkint(i)
        if x.term.op == "fn" and x.term.a[0] == "floor":
            n = T.nf(x.term.a[1][0])
            i = nf_to_ix(n)
            if i is not None:
                return mkint(i)
        n = T.nf(x.term)
        i = nf_to_ix(n)
        if i is not None:
            return mkint(i)
        # truncation of a non-negative real: fresh integer with defining bounds
        t = x.term
        if t.op == "fn" and t.a[0] == "floor":
            t = t.a[1][0]
        key = ("floor", T.nf(t).key)
        c = ctx()
        if key not in c.memo:
            g = nf_to_ix(T.nf(t), rounded=True)
            if g is not None and c.entails(I.conj([I.ecmp("<=", T.TInt(g), t), I.ecmp("<", t, T.TInt(g + 1))])):
                c.memo[key] = g
        if key not in c.memo:
            if x.term is not t:  # int of floor: exact, whatever the sign
                v = I.fresh("fl", None, 0) - I.fresh("fl", None, 0)
            elif not bool(SymScalar(t) >= 0):
                raise Unsupported("int() of a possibly negative value")
            else:
                v = I.fresh("fl", None, 0)
            c.memo[key] = v
            c.assume(I.ecmp("<=", T.TInt(v), t))
            c.assume(I.ecmp("<", t, T.TInt(v + 1)))
        return mkint(c.memo[key])
    if isinstance(x, float):
        return int(x)
    raise Unsupported(f"int() of {type(x)}")


def nf_to_ix(n, rounded=False):
    r = ix(0)
    for m, c in n.items:
        if rounded and not m.bound and not m.guards and c[1] == 0:
            c = (Fraction(round(c[0])), c[1])
        if m.bound or m.guards or c[1] != 0 or c[0].denominator != 1:
            return None
        p = ix(int(c[0]))
        for b, e in m.facs:
            ec = e.const()
            if b[0] != "i" or ec is None or ec[0].denominator != 1 or ec[0] < 0:
                return None
            for _ in range(int(ec[0])):
                p = p * IX({(b[1],): 1})
        r = r + p
    return r


_bufid = itertools.count()


def _memo(f):
    """same indices, same term (bound variable names included)"""
    cache = {}

    def g(*i):
        k = tuple(x.key for x in i)
        if k not in cache:
            cache[k] = f(*i)
        return cache[k]

    return g


class Buf:
    __slots__ = ("shape", "kind", "fn", "frozen", "name", "id", "version")

    def __init__(self, shape, kind, fn, name=None, frozen=False):
        self.shape = tuple(ix(s) for s in shape)
        self.kind, self.fn, self.name, self.frozen = kind, fn, name, frozen
        self.id = next(_bufid)
        self.version = 0


class Flags:
    def __init__(self, a):
        object.__setattr__(self, "_a", a)

    @property
    def writeable(self):
        return not self._a.readonly

    @writeable.setter
    def writeable(self, v):
        self._a.readonly = not v


class Axis:
    """how a base axis is addressed by a view"""

    __slots__ = ("kind", "a", "start", "step")

    def __init__(self, kind, a=None, start=None, step=1):
        self.kind, self.a, self.start, self.step = kind, a, start, step


class SymArray:
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def __init__(self, buf, shape=None, axes=None, opaque_view=None):
        self.buf = buf
        self._shape = tuple(buf.shape if shape is None else shape)
        self.axes = axes if axes is not None else [Axis("ax", i, ix(0), 1) for i in range(len(buf.shape))]
        self.opaque = opaque_view  # index map for non-affine views (reads ok, writes not)
        self.readonly = False

    # -- constructors
    @staticmethod
    def new(shape, kind, fn, name=None, frozen=False):
        return SymArray(Buf(shape, kind, fn, name, frozen))

    @property
    def __class__(self):
        return np.ndarray

    @property
    def shape(self):
        return tuple(mkint(s) for s in self._shape)

    @property
    def ishape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = ix(1)
        for s in self._shape:
            r = r * s
        return mkint(r)

    @property
    def kind(self):
        return self.buf.kind

    @property
    def dtype(self):
        return DT[self.buf.kind]

    @property
    def flags(self):
        return Flags(self)

    @property
    def base(self):
        return None

    def __len__(self):
        s = self._shape[0]
        if s.const is not None:
            return s.const
        v = I.concretize(s)
        if v is not None:
            return v
        raise Unsupported("len() of an array of symbolic length outside instrumented code")

    def _baseidx(self, idx):
        out = []
        for ax in self.axes:
            if ax.kind == "fix":
                out.append(ax.start)
            else:
                out.append(ax.start + idx[ax.a] * ax.step)
        return out

    def _viewkey(self):
        if self.opaque is not None:
            return None
        return tuple((a.kind, a.start.key, a.step if a.kind != "fix" else 0) for a in self.axes) + tuple(x.key for x in self._shape)

    def reader(self):
        """element function of the current contents"""
        f = self.buf.fn
        if I.CTX and I.CTX[-1].generic:
            k = self._viewkey()
            for g in I.CTX[-1].generic:
                g["reads"].append((self.buf.id, k))
        if self.opaque is not None:
            m = self.opaque
            return lambda *i: f(*m(*i))
        if all(a.kind == "ax" and a.a == k and a.start.key == "0" and a.step == 1 for k, a in enumerate(self.axes)) and len(
            self.axes
        ) == len(self._shape):
            return f
        return lambda *i: f(*self._baseidx(i))

    def at(self, *idx):
        return self.reader()(*[ix(i) for i in idx])

    def num(self):
        """element function as Terms (booleans as 0/1)"""
        f = self.reader()
        if self.kind == "b":
            return lambda *i: T.ite(f(*i), T.ONE, T.ZERO)
        return f

    # -- writes
    def write(self, val):
        """assign the whole view; val: element function in view indices"""
        if self.buf.frozen:
            raise FrameViolation(f"write to {self.buf.name or 'input'}")
        if self.readonly:
            raise ValueError("assignment destination is read-only")
        if self.opaque is not None:
            raise Unsupported("write through a reshaped view")
        old = self.buf.fn
        if ctx().generic:
            old = _memo(old)
        axes, shape = self.axes, self._shape
        self.buf.version += 1
        c = ctx()
        for g in c.generic:
            g["writes"].append((self.buf, old, self._viewkey()))
        for g in c.cuts:
            if self.buf.id < g.start and self.buf.id not in g.allowed:
                raise Unsupported("a cut loop writes to an array its invariant does not cover")

        def new(*b):
            conds = []
            vi = [None] * len(shape)
            for k, ax in enumerate(axes):
                if ax.kind == "fix":
                    conds.append(I.eq(b[k], ax.start))
                else:
                    d = b[k] - ax.start
                    if ax.step != 1:
                        if ax.step == -1:
                            d = -d
                        else:
                            conds.append(I.eq(I.imod(d, ix(ax.step)), 0))
                            d = I.idiv(d, ix(ax.step))
                    full = ax.start.key == "0" and ax.step == 1 and shape[ax.a].key == self.buf.shape[k].key
                    if not full:
                        conds.append(I.le(0, d))
                        conds.append(I.lt(d, shape[ax.a]))
                    vi[ax.a] = d
            cond = I.conj(conds)
            for j in range(len(vi)):
                if vi[j] is None:
                    vi[j] = ix(0)
            if cond.k == "false":
                return old(*b)
            try:
                v = val(*vi)
            except Unsupported:  # outside the written part the value may have no meaning
                if cond.k == "true":
                    raise
                if not ctx().sat([cond]):
                    return old(*b)
                v = under(cond, lambda: val(*vi))
            if cond.k == "true":
                return v
            if self.buf.kind == "b":
                o = old(*b)
                return I.disj([I.conj([cond, v]), I.conj([I.neg(cond), o])])
            return T.ite(cond, v, old(*b))

        self.buf.fn = new

    # -- indexing
    def __getitem__(self, key):
        r = self._index(key)
        if isinstance(r, SymArray) and type(r) is SymArray and r.ndim == 0 and not r._keep0:
            v = r.reader()()
            if self.kind == "i" and not isinstance(v, I.Cond):
                i = T.as_index(v)
                if i is not None:
                    return mkint(i)
            return mkscal(v)
        return r

    _keep0 = False

    def _norm_key(self, key):
        if type(key) is not tuple:
            key = (key,)
        key = list(key)
        nreal = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isarr(k) and kind_of(k) == "b":
                nreal += ndim_of(k)
            else:
                nreal += 1
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key[i : i + 1] = [slice(None)] * (self.ndim - nreal)
        else:
            key = key + [slice(None)] * (self.ndim - nreal)
        if nreal > self.ndim:
            raise IndexError("too many indices for array")
        return key

    def _index(self, key):
        key = self._norm_key(key)
        if any(isarr(k) or isinstance(k, (list, range)) for k in key):
            return self._fancy(key)
        shape, amap, d = [], {}, 0  # d: own dim
        # map own dim -> ("fix", e) or ("ax", newaxis, start, step)
        spec = {}
        for k in key:
            if k is None:
                shape.append(ix(1))
                continue
            n = self._shape[d]
            if isinstance(k, slice):
                st, ln, step = slice_bounds(k, n)
                spec[d] = ("ax", len(shape), st, step)
                shape.append(ln)
            elif I.isint(k):
                e = norm_index(ix(k), n)
                spec[d] = ("fix", e)
            elif type(k) is SymScalar:
                raise Unsupported("index by a symbolic real")
            else:
                raise IndexError("only integers, slices (`:`), ellipsis, None and arrays are valid indices")
            d += 1
        if self.opaque is not None:
            f = self.opaque
            sp = [spec[i] for i in range(self.ndim)]

            def om(*idx):
                own = []
                for s in sp:
                    own.append(s[1] if s[0] == "fix" else s[2] + idx[s[1]] * s[3])
                return f(*own)

            return self._mk(shape, None, om)
        axes = []
        for ax in self.axes:
            if ax.kind == "fix":
                axes.append(ax)
                continue
            s = spec[ax.a]
            if s[0] == "fix":
                axes.append(Axis("fix", None, ax.start + s[1] * ax.step))
            else:
                axes.append(Axis("ax", s[1], ax.start + s[2] * ax.step, ax.step * s[3]))
        return self._mk(shape, axes, None)

    def _mk(self, shape, axes, om):
        r = SymArray(self.buf, shape, axes if axes is not None else self.axes, om)
        r.readonly = self.readonly
        return r

    def _fancy(self, key):
        """gather with integer / boolean index arrays (result is a copy)"""
        f = self.reader()
        # expand boolean arrays to selections
        parts = []  # per own dim: slice spec or index array spec
        d = 0
        for k in key:
            if k is None:
                parts.append(("new",))
                continue
            if isinstance(k, (list, range)):
                k = asarr_any(list(k))
            if isarr(k):
                if kind_of(k) == "b" and const_mask(k, self._shape[d]) is not None:
                    k = asarr_any(const_mask(k, self._shape[d]))
                if kind_of(k) == "b":
                    if ndim_of(k) != 1:
                        raise Unsupported("multi-dimensional boolean index")
                    sel = Selection.of(k, self._shape[d])
                    parts.append(("arr", (sel.count,), lambda i, s=sel: s.sel(i)))
                    d += 1
                    continue
                n = self._shape[d]
                ka = asarr(k)
                kf = ka.reader()
                ci = const_ints(ka)
                if ci is not None and (all(c >= 0 for c in ci) or n.const is not None):
                    if any(c < 0 for c in ci):
                        ci = [c + n.const if c < 0 else c for c in ci]
                    for c in (min(ci), max(ci)):
                        wrap_index(ix(c), n)
                    parts.append(("arr", ka._shape, table_ix(ci)))
                    d += 1
                    continue

                def g(*i, kf=kf, n=n):
                    t = kf(*i)
                    e = T.as_index(t)
                    if e is None and t.op == "ite":
                        return [(cs, under(cs, lambda x=x: wrap_index(x, n))) for cs, x in index_cases(t)]
                    if e is None:
                        e = nf_to_ix(T.nf(t))
                    if e is None:
                        raise Unsupported("index array of symbolic reals")
                    return wrap_index(e, n)

                parts.append(("arr", ka._shape, g))
                d += 1
            elif isinstance(k, slice):
                st, ln, step = slice_bounds(k, self._shape[d])
                parts.append(("sl", st, ln, step))
                d += 1
            elif I.isint(k):
                e = norm_index(ix(k), self._shape[d])
                parts.append(("arr", (), lambda e=e: e))
                d += 1
            else:
                raise IndexError("bad index")
        arrs = [p for p in parts if p[0] == "arr"]
        bshape = ()
        for p in arrs:
            bshape = bcast_shape(bshape, p[1])
        pos = [i for i, p in enumerate(parts) if p[0] == "arr"]
        contiguous = all(b - a == 1 for a, b in zip(pos, pos[1:]))
        shape = []
        order = []
        if not contiguous:
            shape.extend(bshape)
        for i, p in enumerate(parts):
            if p[0] == "arr":
                if contiguous and i == pos[0]:
                    order.append("B")
                    bstart = len(shape)
                    shape.extend(bshape)
                continue
            if p[0] == "new":
                order.append(("new", len(shape)))
                shape.append(ix(1))
            else:
                shape.append(p[2])
        if not contiguous:
            bstart = 0
        nb = len(bshape)

        def fnn(*idx):
            bi = idx[bstart : bstart + nb]
            rest = list(idx[:bstart]) + list(idx[bstart + nb :])
            own = []
            rp = 0
            for p in parts:
                if p[0] == "new":
                    rp += 1
                elif p[0] == "sl":
                    own.append(p[1] + rest[rp] * p[3])
                    rp += 1
                else:
                    own.append(p[2](*bcast_idx(bi, bshape, p[1])))
            return gather(own, [])

        def gather(own, conds):
            for j, e in enumerate(own):
                if isinstance(e, list):
                    r = None
                    for cs, x in reversed(e):
                        v = gather(own[:j] + [x] + own[j + 1 :], conds + [cs])
                        if r is None:
                            r = v
                        elif self.kind == "b":
                            r = I.disj([I.conj([cs, v]), I.conj([I.neg(cs), r])])
                        else:
                            r = T.ite(cs, v, r)
                    return r
            return f(*own)

        return SymArray.new(shape, self.kind, fnn)

    def __setitem__(self, key, value):
        key0 = key
        key = self._norm_key(key)
        if any(isarr(k) or isinstance(k, (list, range)) for k in key):
            return self._scatter(key, value)
        view = self._index(key0)
        assign(view, value)

    def _scatter(self, key, value):
        arrs = [(i, k) for i, k in enumerate(key) if isarr(k) or isinstance(k, (list, range))]
        if self.opaque is not None:
            raise Unsupported("scatter through a reshaped view")
        if any(k is None for k in key):
            raise Unsupported("scatter with newaxis")
        if len(arrs) == 1 and isarr(arrs[0][1]) and kind_of(arrs[0][1]) == "b":
            d, mask = arrs[0]
            cm = const_mask(mask, self._shape[d])
            if cm is not None:
                return self._scatter(tuple(cm if i == d else k for i, k in enumerate(key)), value)
            sel = Selection.of(mask, self._shape[d])
            # result of the selection has dims with d replaced by count
            target = self._index(tuple(slice(None) if i == d else k for i, k in enumerate(key)))
            dd = sum(1 for i in range(d) if isinstance(key[i], slice))
            rshape = tuple(sel.count if i == dd else s for i, s in enumerate(target._shape))
            vf = value_fn(value, rshape, self.kind)
            old = target.reader()

            def val(*i):
                m = sel.mask(i[dd])
                j = list(i)
                j[dd] = sel.rank(i[dd])
                v = vf(*j)
                if self.kind == "b":
                    return I.disj([I.conj([m, v]), I.conj([I.neg(m), old(*i)])])
                return T.ite(m, v, old(*i))

            target.write(val)
            return
        # concrete integer lists
        if len(arrs) == 1:
            d, k = arrs[0]
            k = asarr_any(list(k)) if isinstance(k, (list, range)) else asarr(k)
            n = k._shape[0].const if k.ndim == 1 else None
            if n is not None:
                vals = value if isarr(value) or isinstance(value, (list, tuple)) else None
                va = asarr_any(vals) if vals is not None else None
                for j in range(n):
                    e = T.as_index(k.at(j))
                    if e is None:
                        raise Unsupported("scatter index")
                    kk = tuple(mkint(e) if i == d else x for i, x in enumerate(key))
                    if va is None:
                        self[kk] = value
                    else:
                        dd = sum(1 for i in range(d) if isinstance(key[i], slice))
                        pos = va.ndim - (len([x for x in key if isinstance(x, slice)]) + 1) + dd
                        self[kk] = va[tuple([slice(None)] * pos + [j])] if va.ndim > pos >= 0 else va
                return
        # affine symbolic index arrays with an injective map (e.g. i, i+j)
        idxf = []
        bshape = ()
        for i, k in arrs:
            ka = asarr_any(list(k)) if isinstance(k, (list, range)) else asarr(k)
            idxf.append((i, ka))
            bshape = bcast_shape(bshape, ka._shape)
        pos = [i for i, _ in arrs]
        if not all(b - a == 1 for a, b in zip(pos, pos[1:])):
            raise Unsupported("non-contiguous scatter")
        others = [i for i in range(len(key)) if i not in pos]
        if not all(isinstance(key[i], slice) and key[i] == slice(None) for i in others):
            raise Unsupported("scatter with partial slices")
        # solve pos[...] for broadcast indices: triangular linear system
        bv = [I.fresh("s", s) for s in bshape]
        eqs = []
        for i, ka in idxf:
            e = T.as_index(ka.at(*bcast_idx(bv, bshape, ka._shape)))
            if e is None:
                e = nf_to_ix(T.nf(ka.at(*bcast_idx(bv, bshape, ka._shape))))
            if e is None:
                raise Unsupported("scatter index not an integer expression")
            eqs.append((i, e))
        rshape = list(self._shape[: pos[0]]) + list(bshape) + list(self._shape[pos[-1] + 1 :])
        vf = value_fn(value, tuple(rshape), self.kind)
        old = self.reader()
        names = [v.is_var() for v in bv]

        def val(*i):
            # unknown names -> solve
            sol = {n: ix(0) for n, s in zip(names, bshape) if s.const == 1 or ctx().entails(I.eq(s, 1))}
            conds = []
            pend = [(i[d], e) for d, e in eqs]
            progress = True
            while pend and progress:
                progress = False
                for it in list(pend):
                    b, e = it
                    e = e.subst(sol)
                    unk = [v for v in names if v in e.vars()]
                    if not unk:
                        conds.append(I.eq(b, e))
                        pend.remove(it)
                        progress = True
                    elif len(unk) == 1 and as_sel(e) is not None:
                        # index through an increasing selection: invert with its rank
                        sl, inner = as_sel(e)
                        conds.append(sl.mask(b))
                        pend[pend.index(it)] = (sl.rank(b), inner)
                        progress = True
                    elif len(unk) == 1 and as_perm(e) is not None:
                        inv, n, inner = as_perm(e)
                        conds += [I.le(0, b), I.lt(b, n)]
                        pend[pend.index(it)] = (I.ifun(inv, b), inner)
                        progress = True
                    elif len(unk) == 1:
                        li = e.linear_in(unk[0])
                        if li is not None and li[0] in (1, -1):
                            x = b - li[1] if li[0] == 1 else li[1] - b
                            sol[unk[0]] = x
                            pend.remove(it)
                            progress = True
            if pend or any(n not in sol for n in names):
                raise Unsupported("scatter index map is not solvable")
            for n, s in zip(names, bshape):
                conds.append(I.le(0, sol[n]))
                conds.append(I.lt(sol[n], s))
            cond = I.conj(conds)
            j = list(i[: pos[0]]) + [sol[n] for n in names] + list(i[pos[-1] + 1 :])
            if cond.k == "false":
                return old(*i)
            v = vf(*j)
            if self.kind == "b":
                return I.disj([I.conj([cond, v]), I.conj([I.neg(cond), old(*i)])])
            return T.ite(cond, v, old(*i))

        self.write(val)

    # -- iteration
    def __iter__(self):
        from . import seq

        return seq.iter_array(self)

    # -- arithmetic
    def _bin(self, o, name):
        from . import models

        return models.binop(name, self, o)

    def _rbin(self, o, name):
        from . import models

        return models.binop(name, o, self)

    def __add__(s, o): return s._bin(o, "add")
    def __radd__(s, o): return s._rbin(o, "add")
    def __sub__(s, o): return s._bin(o, "sub")
    def __rsub__(s, o): return s._rbin(o, "sub")
    def __mul__(s, o): return s._bin(o, "mul")
    def __rmul__(s, o): return s._rbin(o, "mul")
    def __truediv__(s, o): return s._bin(o, "div")
    def __rtruediv__(s, o): return s._rbin(o, "div")
    def __floordiv__(s, o): return s._bin(o, "floordiv")
    def __rfloordiv__(s, o): return s._rbin(o, "floordiv")
    def __mod__(s, o): return s._bin(o, "mod")
    def __pow__(s, o): return s._bin(o, "pow")
    def __rpow__(s, o): return s._rbin(o, "pow")
    def __lt__(s, o): return s._bin(o, "lt")
    def __le__(s, o): return s._bin(o, "le")
    def __gt__(s, o): return s._bin(o, "gt")
    def __ge__(s, o): return s._bin(o, "ge")
    def __eq__(s, o): return s._bin(o, "eq")
    def __ne__(s, o): return s._bin(o, "ne")
    def __and__(s, o): return s._bin(o, "and")
    def __rand__(s, o): return s._rbin(o, "and")
    def __or__(s, o): return s._bin(o, "or")
    def __ror__(s, o): return s._rbin(o, "or")

    def __invert__(self):
        f = self.reader()
        if self.kind != "b":
            raise Unsupported("~ on numbers")
        return SymArray.new(self._shape, "b", lambda *i: I.neg(f(*i)))

    def _inplace(self, o, name):
        r = self._bin(o, name)
        assign(self, r)
        return self

    def __iadd__(s, o): return s._inplace(o, "add")
    def __isub__(s, o): return s._inplace(o, "sub")
    def __imul__(s, o): return s._inplace(o, "mul")
    def __itruediv__(s, o): return s._inplace(o, "div")
    def __ipow__(s, o): return s._inplace(o, "pow")

    def __neg__(self):
        f = self.num()
        return SymArray.new(self._shape, kmax(self.kind, "i"), lambda *i: T.neg(f(*i)))

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        from . import models

        return models.unary("abs", self)

    def __matmul__(self, o):
        from . import models

        return models.matmul(self, o)

    def __rmatmul__(self, o):
        from . import models

        return models.matmul(o, self)

    def __bool__(self):
        sz = ix(self.size)
        if sz.const == 1 or ctx().entails(I.eq(sz, 1)):
            v = self.at(*[0] * self.ndim)
            return bool(mkscal(v)) if self.kind != "b" else ctx().decide(v)
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    __hash__ = None

    def __deepcopy__(self, memo):
        r = self.copy()
        r.readonly = self.readonly
        return r

    def __copy__(self):
        return self.copy()

    def __repr__(self):
        return f"SymArray({self.buf.name or ''}{[s.key for s in self._shape]}:{self.kind})"

    def __format__(self, s):
        return repr(self)

    def _part(name):
        def get(self):
            from . import models

            return models.PROPS[name](self)

        def put(self, v):
            from . import models

            if self.kind != "c":
                if name == "imag":
                    raise TypeError("array does not have imaginary part to set")
                return assign(self, v)
            v = asarr_any(v)
            if v.kind == "c":
                raise Unsupported("complex value assigned to a real part")
            old = models.copy(self)
            new = v + 1j * models.PROPS["imag"](old) if name == "real" else models.PROPS["real"](old) + 1j * v
            assign(self, new)

        return property(get, put)

    real, imag = _part("real"), _part("imag")

    def __getattr__(self, name):
        from . import models

        m = models.METHODS.get(name)
        if m is not None:
            import functools

            return functools.partial(m, self)
        p = models.PROPS.get(name)
        if p is not None:
            return p(self)
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(np.ndarray, name):
            raise Unsupported(f"ndarray.{name}")
        raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")


# --------------------------------------------------------------------------
def table_ix(vals):
    """i -> vals[i] as an index expression"""
    vals = [int(v) for v in vals]
    if len(vals) == 1:
        return lambda i: ix(vals[0])
    st = vals[1] - vals[0]
    if all(b - a == st for a, b in zip(vals, vals[1:])):
        return lambda i: ix(i) * st + vals[0]
    nm = "tbl" + "_".join(str(v) for v in vals)

    def rew(args):
        c = args[0].const
        return ix(vals[c]) if c is not None and 0 <= c < len(vals) else None

    def ax(args):
        (a,) = args
        e = IX({(("f", nm, (a,)),): 1})
        return [I.disj([I.neg(I.eq(a, ix(j))), I.eq(e, ix(v))]) for j, v in enumerate(vals)]

    I.IFUN[nm] = dict(axioms=ax, rewrite=rew)
    return lambda i: I.ifun(nm, ix(i))


def const_ints(ka):
    """python ints of a short index array with known entries, else None"""
    if ka.ndim != 1 or ka._shape[0].const is None or not 0 < ka._shape[0].const <= 32:
        return None
    r = []
    for j in range(ka._shape[0].const):
        e = T.as_index(ka.reader()(ix(j)))
        if e is None or e.const is None:
            return None
        r.append(e.const)
    return r


def const_mask(k, n):
    """[i, ...] for a boolean index of known small length with known entries, else None"""
    if n.const is None or n.const > 16 or ndim_of(k) != 1:
        return None
    ka = asarr(k)
    if ka._shape[0].const != n.const:
        return None
    f = ka.reader()
    r = []
    for i in range(n.const):
        c = f(ix(i))
        if c.k not in ("true", "false"):
            if ctx().entails(c):
                c = I.TRUE
            elif ctx().entails(I.neg(c)):
                c = I.FALSE
            else:
                return None
        if c.k == "true":
            r.append(i)
    return r or None


def as_sel(e):
    """e = sel(inner) of a registered selection, or None"""
    if len(e.t) == 1:
        ((m, c),) = e.t.items()
        if c == 1 and len(m) == 1 and m[0][0] == "f" and m[0][1] in Selection.reg:
            return Selection.reg[m[0][1]], m[0][2][0]
    return None


def iff(a, b):
    return I.conj([I.disj([I.neg(a), b]), I.disj([a, I.neg(b)])])


class Selection:
    """boolean mask -> increasing index map"""

    reg = {}

    def __init__(self, name, maskf, n):
        self.name, self.maskf, self.n = name, maskf, n
        self.count = None

    @staticmethod
    def of(mask, n):
        mask = asarr(mask)
        f = mask.reader()
        if not ctx().decide(I.eq(mask._shape[0], n)):
            raise IndexError("boolean index did not match indexed array")
        probe = I.ivar("@m")
        I.RANGE["@m"] = (ix(0), n)
        key = ("sel", f(probe).key, n.key)
        memo = ctx().memo
        if key in memo:
            return memo[key]
        pc = f(probe)
        if ctx().temp == 0 and pc.k not in ("true", "false"):
            # extensionality: masks equal at every position select the same positions
            for k2, s2 in list(memo.items()):
                if isinstance(k2, tuple) and k2[0] == "sel" and k2[2] == n.key and ctx().entails(iff(pc, s2.mask(probe))):
                    memo[key] = s2
                    return s2
        nm = f"sel{next(_bufid)}"
        s = Selection(nm, f, n)
        if pc.k == "true":
            s.count = n
            s.sel = lambda i: ix(i)
            s.rank = lambda i: ix(i)
            s.mask = lambda i: I.TRUE
        elif pc.k == "false":
            s.count = ix(0)
            s.sel = lambda i: ix(i)
            s.rank = lambda i: ix(i)
            s.mask = lambda i: I.FALSE
        else:
            cnt = I.fresh("cnt", n + 1)
            s.count = cnt
            s.mask = f
            if pc.k == "ec" and pc.a[0] in ("<", "<="):
                from . import term as T

                ms = T.monotone(pc.a[1], "@m"), T.monotone(pc.a[2], "@m")
                if ms in ((1, 0), (0, -1), (1, -1)):
                    # true exactly on a prefix: its length is the count
                    c = ctx()
                    c.assume(I.disj([I.le(cnt, 0), f(cnt - 1)]))
                    c.assume(I.disj([I.le(n, cnt), I.neg(f(cnt))]))
                    c.assume(I.disj([I.le(cnt, 1), f(cnt - 2)]))
            sn, rn = nm + ".sel", nm + ".rank"

            def rew_sel(args):
                (a,) = args
                if len(a.t) == 1:
                    ((m, c),) = a.t.items()
                    if c == 1 and len(m) == 1 and m[0][0] == "f" and m[0][1] == rn:
                        # rank is only pinned where the mask is true; extending both maps to
                        # mutually inverse bijections (true positions first) is consistent
                        return m[0][2][0]
                return None

            def rew_rank(args):
                (a,) = args
                if len(a.t) == 1:
                    ((m, c),) = a.t.items()
                    if c == 1 and len(m) == 1 and m[0][0] == "f" and m[0][1] == sn:
                        return m[0][2][0]
                return None

            def ax_sel(args):
                (a,) = args
                inr = I.conj([I.le(0, a), I.lt(a, cnt)])
                e = IX({(("f", sn, (a,)),): 1})
                return [
                    I.disj([I.neg(inr), I.conj([I.le(0, e), I.lt(e, n), I.le(a, e), f(e)])]),
                ]

            def ax_rank(args):
                (a,) = args
                inr = I.conj([I.le(0, a), I.lt(a, n), f(a)])
                e = IX({(("f", rn, (a,)),): 1})
                return [I.disj([I.neg(inr), I.conj([I.le(0, e), I.lt(e, cnt), I.le(e, a)])])]

            I.IFUN[sn] = dict(axioms=ax_sel, rewrite=rew_sel, range=n.key, selects=(cnt, n, f, rn))
            I.IFUN[rn] = dict(axioms=ax_rank, rewrite=rew_rank, range=cnt.key)
            s.sel = lambda i: I.ifun(sn, i)
            s.rank = lambda i: I.ifun(rn, i)
            s.ax_rank = ax_rank
            Selection.reg[sn] = s
        memo[key] = s
        return s


def isarr(x):
    return type(x) is SymArray or isinstance(x, np.ndarray) and type(x) is not SymScalar and getattr(x, "ndim", 0) >= 0 and type(x) not in (SymInt, SymBool, SymScalar)


def issym(x):
    return type(x) in (SymArray, SymInt, SymBool, SymScalar)


def kind_of(x):
    if type(x) is SymArray:
        return x.kind
    if type(x) is SymScalar:
        return x.kind
    if type(x) is SymInt:
        return "i"
    if type(x) is SymBool or isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, np.ndarray):
        return kind_of_dtype(x.dtype)
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)):
        return "f"
    return "c"


def ndim_of(x):
    return x.ndim


def slice_bounds(k, n):
    """(start, length, step) with numpy semantics for symbolic bounds"""
    c = ctx()
    step = 1 if k.step is None else k.step
    if type(step) is SymInt:
        v = I.concretize(step.ix)
        if v is None:
            if not c.decide(I.lt(0, step.ix)):
                raise Unsupported("symbolic negative step")
            stepx = step.ix
            st = _clamp(k.start, n, ix(0))
            en = _clamp(k.stop, n, n)
            if not c.decide(I.le(st, en)):
                return st, ix(0), 1
            ln = I.idiv(en - st + stepx - 1, stepx)
            return st, ln, stepx
        step = v
    step = int(step)
    if step == 0:
        raise ValueError("slice step cannot be zero")
    if step > 0:
        st = _clamp(k.start, n, ix(0))
        en = _clamp(k.stop, n, n)
        if not c.decide(I.le(st, en)):
            return st, ix(0), step
        ln = en - st
        if step != 1:
            ln = I.idiv(ln + (step - 1), ix(step))
        return st, ln, step
    if step == -1 and k.start is None and k.stop is None:
        return n - 1, n, -1
    if step == -1:
        # start default n-1, stop default -1 (exclusive)
        if k.start is None:
            st = n - 1
        else:
            s = ix(k.start)
            st = s + n if c.decide(I.lt(s, 0)) else (s if c.decide(I.lt(s, n)) else n - 1)
        if k.stop is None:
            en = ix(-1)
        else:
            s = ix(k.stop)
            en = s + n if c.decide(I.lt(s, 0)) else s
        if not c.decide(I.le(en, st)):
            return st, ix(0), -1
        return st, st - en, -1
    raise Unsupported("negative step")


def _clamp(v, n, default):
    if v is None:
        return default
    c = ctx()
    if type(v) is SymScalar or isinstance(v, float):
        raise TypeError("slice indices must be integers or None or have an __index__ method")
    v = ix(v)
    if c.decide(I.lt(v, 0)):
        v = v + n
        if not c.decide(I.le(0, v)):
            return ix(0)
        return v
    if not c.decide(I.le(v, n)):
        return n
    return v


def norm_index(e, n):
    c = ctx()
    if c.decide(I.lt(e, 0)):
        e = e + n
        if not c.decide(I.le(0, e)):
            raise IndexError("index out of bounds")
        return e
    if not c.decide(I.lt(e, n)):
        raise IndexError("index out of bounds")
    return e


def as_perm(e):
    """(inverse, length, argument) when e is a permutation applied to an index"""
    if len(e.t) != 1:
        return None
    ((mo, c),) = e.t.items()
    if c != 1 or len(mo) != 1 or mo[0][0] != "f":
        return None
    p = I.IFUN.get(mo[0][1], {}).get("perm")
    return None if not p else (p[1], p[0], mo[0][2][0])


def wrap_index(e, n):
    """index array element (assumed in bounds; negative wrap only when decidable)"""
    c = ctx()
    if c.entails(I.le(0, e)):
        return e
    if c.entails(I.lt(e, 0)):
        return e + n
    raise Unsupported("index array with undetermined sign")


def under(cond, f):
    """f() with cond assumed"""
    c = ctx()
    save, cache = list(c.assume_list), c.cache
    c.assume_list, c.cache = save + [cond], {}
    c.temp += 1
    try:
        return f()
    finally:
        c.temp -= 1
        c.assume_list, c.cache = save, cache


def index_cases(t, conds=()):
    """piecewise integer term -> [(condition, IX)], conditions disjoint and exhaustive"""
    if t.op == "ite":
        c, a, b = t.a
        return index_cases(a, conds + (c,)) + index_cases(b, conds + (I.neg(c),))
    e = T.as_index(t)
    if e is None:
        e = nf_to_ix(T.nf(t))
    if e is None:
        raise Unsupported("index array of symbolic reals")
    return [(I.conj(list(conds)), e)]


def dim_eq(a, b):
    return a.key == b.key or ctx().decide(I.eq(a, b))


def bcast_shape(a, b):
    a, b = tuple(ix(x) for x in a), tuple(ix(x) for x in b)
    n = max(len(a), len(b))
    a = (ix(1),) * (n - len(a)) + a
    b = (ix(1),) * (n - len(b)) + b
    out = []
    for x, y in zip(a, b):
        if x.const == 1:
            out.append(y)
        elif y.const == 1:
            out.append(x)
        elif dim_eq(x, y):
            out.append(x)
        elif ctx().decide(I.eq(x, 1)):
            out.append(y)
        elif ctx().decide(I.eq(y, 1)):
            out.append(x)
        else:
            raise ValueError(f"operands could not be broadcast together: {x} vs {y}")
    return tuple(out)


def bcast_idx(idx, full, shape):
    """indices of an operand of `shape` for a result index of shape `full`"""
    k = len(full) - len(shape)
    out = []
    for j, s in enumerate(shape):
        i = idx[k + j]
        if s.const == 1:
            out.append(ix(0))
        elif s.key == full[k + j].key or not ctx().entails(I.eq(s, 1)):
            out.append(i)
        else:
            out.append(ix(0))
    return out


def asarr(x):
    """concrete ndarray / scalar / SymArray -> SymArray"""
    if type(x) is SymArray:
        return x
    if type(x) in (SymScalar, SymInt, SymBool):
        if type(x) is SymBool:
            return SymArray.new((), "b", lambda: x.c)
        t = T.lift(x)
        return SymArray.new((), kind_of(x), lambda: t)
    if isinstance(x, np.ndarray):
        return from_concrete(x)
    if isinstance(x, (int, float, complex, np.generic, bool)):
        if isinstance(x, (bool, np.bool_)):
            cc = I.TRUE if x else I.FALSE
            return SymArray.new((), "b", lambda: cc)
        t = T.lift(x)
        return SymArray.new((), kind_of(x), lambda: t)
    return asarr_any(x)


def from_concrete(x):
    x = np.asarray(x)
    k = kind_of_dtype(x.dtype)
    if x.dtype == object:
        raise Unsupported("object array")
    isb = k == "b"

    def f(*idx):
        consts = [i.const for i in idx]
        if all(c is not None for c in consts):
            v = x[tuple(consts)]
            return (I.TRUE if v else I.FALSE) if isb else T.lift(v)
        if x.size and (x == x.flat[0]).all():
            v = x.flat[0]
            return (I.TRUE if v else I.FALSE) if isb else T.lift(v)
        if x.size > 64:
            raise Unsupported("symbolic access to a concrete array")
        cases = []
        for pos in np.ndindex(*x.shape):
            c = I.conj([I.eq(i, p) for i, p in zip(idx, pos)])
            cases.append((c, x[pos]))
        if isb:
            return I.disj([c for c, v in cases if v])
        r = T.lift(cases[-1][1])
        for c, v in cases[:-1]:
            r = T.ite(c, T.lift(v), r)
        return r

    return SymArray.new(x.shape, k, f)


class SymMasked:
    """numpy.ma array: data and mask"""

    def __init__(self, data, mask):
        self.data, self.mask = data, mask

    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)

    def __getitem__(self, k):
        return SymMasked(self.data[k], self.mask[k])

    def swapaxes(self, i, j):
        return SymMasked(self.data.swapaxes(i, j), self.mask.swapaxes(i, j))

    @property
    def T(self):
        return SymMasked(self.data.T, self.mask.T)

    def filled(self, fill_value=None):
        if fill_value is None:
            raise Unsupported("default fill value")
        from .models import where

        return where(self.mask, fill_value, self.data)


def has_sym(x, depth=0):
    if type(x) in (SymArray, SymInt, SymBool, SymScalar, SymMasked):
        return True
    from .seq import SymSeq, Spread

    if type(x) in (SymSeq, Spread) or type(x).__name__ == "SymSparse":
        return True
    if depth < 4 and type(x) in (list, tuple, set):
        return any(has_sym(y, depth + 1) for y in x)
    if depth < 4 and isinstance(x, tuple):
        return any(has_sym(y, depth + 1) for y in x)
    if type(x) is dict:
        return any(has_sym(y, depth + 1) for y in x.values())
    if type(x) is slice:
        return has_sym((x.start, x.stop, x.step))
    return False


def asarr_any(x):
    """np.array(x) semantics for nested sequences with symbolic parts"""
    if type(x).__name__ == "SymSparse":
        return x.a
    from .seq import SymSeq, Spread

    if type(x) is SymSeq:
        return x.to_array()
    if isinstance(x, (list, tuple)) and not issym(x):
        x = list(x)
        if len(x) == 1 and type(x[0]) is Spread:
            return x[0].seq.to_array()
        if any(type(e) is Spread for e in x):
            raise Unsupported("mixed spread sequence")
        if not x:
            return from_concrete(np.array([]))
        parts = [asarr(e) if not isinstance(e, (list, tuple)) or issym(e) else asarr_any(e) for e in x]
        sh = parts[0]._shape
        for p in parts[1:]:
            if len(p._shape) != len(sh) or not all(dim_eq(a, b) for a, b in zip(p._shape, sh)):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        k = kmax(*[p.kind for p in parts])
        fs = [p.reader() if k == "b" else p.num() for p in parts]

        def f(i, *r):
            c = i.const
            if c is not None:
                return fs[c](*r)
            if k == "b":
                return I.disj([I.conj([I.eq(i, j), g(*r)]) for j, g in enumerate(fs)])
            t = fs[-1](*r)
            for j in range(len(fs) - 2, -1, -1):
                t = T.ite(I.eq(i, j), fs[j](*r), t)
            return t

        return SymArray.new((len(parts),) + tuple(sh), k, f)
    return asarr(x)


def value_fn(value, shape, kind):
    """element function of `value` broadcast to `shape`, with dtype check for a buffer of `kind`"""
    v = asarr_any(value) if isinstance(value, (list, tuple)) and not issym(value) else asarr(value)
    vs = v._shape
    # drop leading ones
    while len(vs) > len(shape):
        if not ctx().decide(I.eq(vs[0], 1)):
            raise ValueError("could not broadcast input array")
        v = v._index(0) if v.ndim else v
        vs = v._shape
    full = shape
    off = len(full) - len(vs)
    use = []
    for j, s in enumerate(vs):
        t = full[off + j]
        if s.const == 1 and t.const != 1:
            use.append("0")
        elif dim_eq(s, t):
            use.append("i")
        elif ctx().decide(I.eq(s, 1)):
            use.append("0")
        else:
            raise ValueError("could not broadcast input array")
    f = v.reader() if kind == "b" and v.kind == "b" else v.num()
    lossy = ORDER.index(v.kind) > ORDER.index(kind) and kind != "c"
    fz = v.buf.version

    def g(*i):
        idx = [i[off + j] if u == "i" else ix(0) for j, u in enumerate(use)]
        r = f(*idx)
        if kind == "b" and v.kind != "b":
            raise Unsupported("numeric value into a boolean array")
        if lossy:
            if kind == "f":
                if not T.is_real(r):
                    ctx().notes.append(("lossy", f"complex value stored into a real array: {r!r}"))
                    return T.fn("real", r)
            elif kind == "i":
                e = T.as_index(r)
                if e is None:
                    raise Unsupported("real value into an integer array")
        return r

    return g


def assign(view, value):
    vf = value_fn(value, view._shape, view.kind)
    view.write(vf)
