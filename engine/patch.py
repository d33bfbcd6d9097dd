"""Runs the unmodified pydmd modules on symbolic values: the names numpy/scipy
functions are known by in the pydmd modules, and a few builtins, are wrapped by
dispatchers (symbolic argument -> engine model, otherwise the real function)."""
import ast
import builtins
import inspect
import functools
import importlib
import sys
import types

import numpy as np

from . import ix as I
from . import models as M
from . import term as T
from .arr import Selection, SymArray, SymScalar, as_sel, asarr, has_sym, issym, kind_of, mkscal, to_int
from .ix import SymBool, SymInt, Unsupported, ctx, ix, mkbool, mkint
from . import sparse as SP
from .seq import GenericIter, Spread, SymSeq, sym_range

_cache = {}


def dispatch(real, model, label):
    @functools.wraps(real)
    def w(*a, **k):
        if I.CTX and (has_sym(a) or has_sym(k)):
            if model is None:
                raise Unsupported(f"no model for {label}")
            return model(*a, **k)
        return real(*a, **k)

    w.__wrapped_real__ = real
    return w


class UfuncW:
    def __init__(self, real, model, label):
        self._r, self._m, self._l = real, model, label

    def __call__(self, *a, **k):
        if I.CTX and (has_sym(a) or has_sym(k)):
            if self._m is None:
                raise Unsupported(f"no model for {self._l}")
            return self._m(*a, **k)
        return self._r(*a, **k)

    def __getattr__(self, n):
        if n == "outer":
            def out(a, b):
                if has_sym((a, b)):
                    a, b = M.A(a), M.A(b)
                    key = tuple([slice(None)] * a.ndim + [None] * b.ndim)
                    return self(a[key], b)
                return self._r.outer(a, b)

            return out
        return getattr(self._r, n)


def wrap_value(real, path):
    """path like 'linalg.svd' relative to numpy/scipy root"""
    key = (id(real), path)
    if key in _cache:
        return _cache[key]
    if path == "random.default_rng":
        def w(seed=None, _r=real):
            return M.SymRng(seed, _r) if I.CTX else _r(seed)
    elif isinstance(real, types.ModuleType):
        w = ModProxy(real, path)
    elif isinstance(real, np.ufunc):
        w = UfuncW(real, M.FUNCS.get(path) or M.BARE.get(path.split(".")[-1]), path)
    elif isinstance(real, type) and path in SP.FUNCS:
        w = dispatch(real, SP.FUNCS[path], path)
    elif isinstance(real, type) or not callable(real):
        w = real
    else:
        w = dispatch(real, M.FUNCS.get(path) or SP.FUNCS.get(path) or M.BARE.get(path.split(".")[-1]), path)
    _cache[key] = w
    return w


class ModProxy(types.ModuleType):
    def __init__(self, real, path=""):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_path"] = path

    def __getattr__(self, n):
        v = getattr(self._real, n)
        return wrap_value(v, f"{self._path}.{n}" if self._path else n)


# ---- builtins ------------------------------------------------------------
def b_len(x):
    if type(x) is SymArray:
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return mkint(x._shape[0])
    if type(x) is SymSeq:
        return mkint(x.n)
    return builtins.len(x)


class b_range:
    def __new__(cls, *a):
        if any(type(x) is SymInt for x in a):
            return sym_range(*a)
        if any(type(x) is SymScalar for x in a):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return builtins.range(*a)


def b_min(*a, **k):
    if has_sym(a):
        xs = a[0] if len(a) == 1 else a
        if type(xs) is SymArray:
            return M.FUNCS["min"](xs)
        if type(xs) is SymSeq or k:
            raise Unsupported("min over a symbolic sequence")
        r = None
        for x in xs:
            r = x if r is None else (x if x < r else r)
        return r
    return builtins.min(*a, **k)


def b_max(*a, **k):
    if has_sym(a):
        xs = a[0] if len(a) == 1 else a
        if type(xs) is SymArray:
            return M.FUNCS["max"](xs)
        if type(xs) is SymSeq or k:
            raise Unsupported("max over a symbolic sequence")
        r = None
        for x in xs:
            r = x if r is None else (x if x > r else r)
        return r
    return builtins.max(*a, **k)


def b_sum(x, start=0):
    if type(x) is SymArray:
        return x.sum(0) if start == 0 else x.sum(0) + start
    if type(x) is SymSeq:
        return M.reduce_sum(x.to_array(), 0)
    if isinstance(x, (list, tuple)) and len(x) == 1 and type(x[0]) is Spread:
        return M.reduce_sum(x[0].seq.to_array(), 0)
    x = list(x)
    if len(x) == 1 and type(x[0]) is Spread:
        return M.reduce_sum(x[0].seq.to_array(), 0)
    return builtins.sum(x, start)


def b_abs(x):
    return builtins.abs(x)


def _seq(x):
    if type(x) is SymArray:
        if x._shape[0].const is not None:
            return [x[i] for i in range(x._shape[0].const)]
        return SymSeq(x._shape[0], lambda i: x[mkint(i)])
    if type(x) is Spread:
        return x
    return x


def b_zip(*a, **k):
    if len(a) == 1 and type(a[0]) is Spread:
        s = a[0].seq
        e = s.f(I.fresh("z", s.n))
        m = builtins.len(e)
        return [SymSeq(s.n, lambda i, j=j: s.f(i)[j]) for j in builtins.range(m)]
    a = [_seq(x) for x in a]
    if any(type(x) is SymSeq for x in a):
        n = None
        for x in a:
            ln = x.n if type(x) is SymSeq else ix(builtins.len(list(x)))
            if n is None or (n.key != ln.key and ctx().decide(I.lt(ln, n))):
                n = ln
        return SymSeq(n, lambda i: tuple(x.f(i) if type(x) is SymSeq else x[i.const] for x in a))
    return builtins.zip(*a, **k)


def b_enumerate(x, start=0):
    x = _seq(x)
    if type(x) is SymSeq:
        return SymSeq(x.n, lambda i: (mkint(ix(i) + start), x.f(i)))
    return builtins.enumerate(x, start)


def b_map(f, *xs):
    xs = [_seq(x) for x in xs]
    if any(type(x) is SymSeq for x in xs):
        if builtins.len(xs) != 1:
            z = b_zip(*xs)
            return SymSeq(z.n, lambda i: f(*z.f(i)))
        s = xs[0]
        return SymSeq(s.n, lambda i: f(s.f(i)))
    return builtins.map(f, *xs)


def b_list(*a):
    if a:
        if type(a[0]) is SymSet:
            return a[0].seq()
        x = _seq(a[0])
        if type(x) is SymSeq and x.n.const is None:
            return SymSeq(x.n, x.f)
        return builtins.list(x)
    return []


def b_sorted(x, key=None, reverse=False):
    x = _seq(x)
    if type(x) is SymSeq and x.n.const is None:
        probe = I.fresh("o", x.n)
        kf = key or (lambda e: e)
        kp = kf(x.f(probe))  # key must be computable (may raise)
        if reverse:
            raise Unsupported("reversed symbolic sort")

        def kt(i):
            e = kf(x.f(ix(i)))
            es = e if isinstance(e, tuple) and not issym(e) else (e,)
            return tuple(T.lift(q) for q in es)

        # a stable sort depends only on the keys in order
        o = f"@k0|{x.n.key}"
        I.RANGE.setdefault(o, (ix(0), x.n))
        mk = ("sorted", x.n.key, tuple(T.nf(t).key for t in kt(I.ivar(o))))
        memo = ctx().memo
        if mk not in memo:
            memo[mk] = M.Perm(x.n, kt, "sorted")
        p = memo[mk]
        M.used("sorted(): a permutation in non-decreasing key order")
        return SymSeq(x.n, lambda i: x.f(p.f(ix(i))))
    if isinstance(x, (list, tuple)) and has_sym(x) and key is None and not reverse:
        xs = list(x)
        # insertion sort by forking
        r = []
        for e in xs:
            j = builtins.len(r)
            while j > 0 and bool(e < r[j - 1]):
                j -= 1
            r.insert(j, e)
        return r
    return builtins.sorted(x, key=key, reverse=reverse)


class _Meta(type):
    def __instancecheck__(cls, o):
        return builtins.isinstance(o, cls.__mro__[1])

    def __subclasscheck__(cls, o):
        return issubclass(o, cls.__mro__[1])


class b_int(int, metaclass=_Meta):
    dtype = np.dtype(int)

    def __new__(cls, x=0, *a):
        if type(x) is SymInt:
            return x
        if type(x) is SymScalar:
            return to_int(x)
        if type(x) is SymArray:
            return to_int(x[tuple([0] * x.ndim)] if x.ndim else mkscal(x.at()))
        return builtins.int(x, *a)


class b_float(float, metaclass=_Meta):
    dtype = np.dtype(float)

    def __new__(cls, x=0.0):
        if type(x) in (SymInt, SymScalar):
            return x
        return builtins.float(x)


def b_isinstance(o, c):
    def fix(x):
        if x is b_range:
            return builtins.range
        if x is b_list:
            return list
        if x is b_set:
            return builtins.set
        return x

    if builtins.isinstance(c, tuple):
        c = tuple(fix(x) for x in c)
    else:
        c = fix(c)
    return builtins.isinstance(o, c)


def quant(s, every):
    """all()/any() over a symbolic sequence when one arbitrary element settles it"""
    e = I.tocond(s.f(I.fresh("s", s.n)))
    c = ctx()
    if not c.decide(I.lt(0, s.n)):
        return every
    if c.entails(e):
        return True
    if c.entails(I.neg(e)):
        return False
    raise Unsupported("quantifier over a symbolic sequence")


def b_any(x):
    if type(x) is SymArray:
        return M.FUNCS["any"](x)
    if type(x) is SymSeq:
        return quant(x, False)
    x = list(x)
    for e in x:
        if type(e) is Spread:
            raise Unsupported("any() over a symbolic sequence")
        if e:
            return True
    return False


def b_all(x):
    if type(x) is SymArray:
        return M.FUNCS["all"](x)
    if type(x) is SymSeq and x.n.const is None:
        return quant(x, True)
    x = list(x)
    for e in x:
        if type(e) is Spread:
            raise Unsupported("all() over a symbolic sequence")
        if not e:
            return False
    return True


class SymSet:
    """set of integers below n given by a membership condition"""

    def __init__(self, n, pred):
        self.n, self.pred = n, pred

    @staticmethod
    def of(x):
        i = I.fresh("s", x.n)
        e = x.f(i)
        if type(e) is not SymInt:
            return None
        if e.ix.key == i.key:
            return SymSet(x.n, lambda j: I.TRUE)
        r = as_sel(e.ix)
        if r is not None and r[1].key == i.key and ctx().entails(I.eq(x.n, r[0].count)):
            return SymSet(r[0].n, r[0].mask)
        return None

    def _with(self, o, f):
        if type(o) is not SymSet or not ctx().entails(I.eq(self.n, o.n)):
            raise Unsupported("sets over different ranges")
        return SymSet(self.n, lambda j: f(self.pred(j), o.pred(j)))

    def __sub__(self, o):
        return self._with(o, lambda a, b: I.conj([a, I.neg(b)]))

    difference = __sub__

    def __and__(self, o):
        return self._with(o, lambda a, b: I.conj([a, b]))

    def __or__(self, o):
        return self._with(o, lambda a, b: I.disj([a, b]))

    def sel(self):
        s = Selection.of(SymArray.new((self.n,), "b", self.pred), self.n)
        if hasattr(s, "ax_rank") and s not in ctx().sels:
            ctx().sels.append(s)
            ctx().cache = {}
        M.used("integer sets are listed in increasing order")
        return s

    def seq(self):
        s = self.sel()
        return SymSeq(s.count, lambda i: mkint(s.sel(ix(i))))

    def __len__(self):
        raise Unsupported("len of a symbolic set")

    def __iter__(self):
        return iter(self.seq())


def b_set(*a):
    if a:
        x = _seq(a[0])
        if type(x) is SymSeq and x.n.const is None:
            from .contract import sym_same

            e, f = x.f(I.fresh("s", x.n)), x.f(I.fresh("s", x.n))
            ss = SymSet.of(x)
            if ss is not None:
                return ss
            if sym_same(e, f):
                if not ctx().decide(I.lt(0, x.n)):
                    return builtins.set()
                return builtins.set([x.f(ix(0))])
            raise Unsupported("set of a symbolic sequence")
        return builtins.set(x)
    return builtins.set()


def comp(fn, it, star, lazy):
    """list comprehension / generator expression over it"""
    it = _seq(it)
    if type(it) is SymSeq and it.n.const is None:
        g = (lambda e: fn(*e)) if star else fn
        g(it.f(I.fresh("c", it.n)))  # may raise
        return SymSeq(it.n, lambda i: g(it.f(ix(i))))
    if lazy:
        return (fn(*e) for e in it) if star else (fn(e) for e in it)
    return [fn(*e) for e in it] if star else [fn(e) for e in it]


class _CompT(ast.NodeTransformer):
    """[elt for x in it] -> __comp__(lambda x: elt, it, ...); same meaning, one hook for symbolic lengths"""

    def visit_ListComp(self, node, lazy=False):
        self.generic_visit(node)
        g = node.generators
        if len(g) != 1 or g[0].ifs or g[0].is_async or any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)):
            return node
        t = g[0].target
        if isinstance(t, ast.Name):
            names, star = [t.id], False
        elif isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts):
            names, star = [x.id for x in t.elts], True
        else:
            return node
        if len(set(names)) != len(names):
            return node
        self.changed = True
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=node.elt)
        new = ast.Call(func=ast.Name(id="__comp__", ctx=ast.Load()), args=[lam, g[0].iter, ast.Constant(star), ast.Constant(lazy)], keywords=[])
        return ast.copy_location(new, node)

    def visit_GeneratorExp(self, node):
        return self.visit_ListComp(node, True)

    def visit_ClassDef(self, node):
        node.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in node.body]
        return node


def _codes(code, out):
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            out.setdefault((c.co_qualname, c.co_firstlineno), c)
            _codes(c, out)
    return out


def recompile(mod):
    """replace the code of functions containing comprehensions by the hooked version"""
    try:
        src = open(mod.__file__).read()
    except (OSError, AttributeError, TypeError):
        return
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tree = ast.parse(src)
        tr = _CompT()
        tr.changed = False
        tree = ast.fix_missing_locations(tr.visit(tree))
        if not tr.changed:
            return
        codes = _codes(compile(tree, mod.__file__, "exec"), {})
    mod.__dict__["__comp__"] = comp

    def fix(f):
        f = inspect.unwrap(f) if callable(f) else f
        if isinstance(f, types.FunctionType) and f.__code__.co_filename == mod.__file__:
            c = codes.get((f.__code__.co_qualname, f.__code__.co_firstlineno))
            if c is not None and len(c.co_freevars) == len(f.__code__.co_freevars):
                f.__code__ = c

    def walk(d, depth=0):
        for v in list(d.values()):
            if isinstance(v, (staticmethod, classmethod)):
                fix(v.__func__)
            elif isinstance(v, property):
                for f in (v.fget, v.fset, v.fdel):
                    if f:
                        fix(f)
            elif isinstance(v, types.FunctionType):
                fix(v)
            elif isinstance(v, type) and v.__module__ == mod.__name__ and depth < 3:
                walk(v.__dict__, depth + 1)

    walk(mod.__dict__)


BUILTINS = dict(
    set=b_set,
    len=b_len, range=b_range, min=b_min, max=b_max, sum=b_sum, zip=b_zip, enumerate=b_enumerate, map=b_map,
    sorted=b_sorted, isinstance=b_isinstance, any=b_any, all=b_all, list=b_list,
)
BUILTINS["int"] = b_int
BUILTINS["float"] = b_float

ROOTS = {"numpy": np}


def patch_module(mod):
    """wrap names of numpy / scipy / sklearn objects in a module namespace"""
    g = mod.__dict__
    for n, v in list(g.items()):
        if n.startswith("__"):
            continue
        if isinstance(v, types.ModuleType):
            root = v.__name__.split(".")[0]
            if root in ("numpy", "scipy"):
                path = v.__name__.split(".", 1)[1] if "." in v.__name__ else ""
                g[n] = wrap_value(v, path) if path else ModProxy(v, "")
            continue
        m = getattr(v, "__module__", None) or ""
        if isinstance(v, type) and m.startswith("scipy.sparse") and v.__name__ in SP.TYPES:
            g[n] = dispatch(v, SP.matrix, v.__name__)
        if callable(v) and not isinstance(v, type) and m.split(".")[0] in ("numpy", "scipy", "sklearn"):
            nm = getattr(v, "__name__", n)
            sub = "fft." + nm if "fft" in m else nm
            if m.startswith("scipy.sparse"):
                g[n] = dispatch(v, SP.FUNCS.get("sparse." + nm) or SP.FUNCS.get(nm), f"{m}.{nm}")
                continue
            if isinstance(v, np.ufunc):
                g[n] = wrap_value(v, nm)
            else:
                g[n] = dispatch(v, M.FUNCS.get(sub) or M.BARE.get(nm), f"{m}.{nm}")
    recompile(mod)
    for n, f in BUILTINS.items():
        if n not in g:
            g[n] = f


DONE = False


def patch_all():
    """patch every loaded pydmd module (only ever called in a dedicated process)"""
    global DONE
    if DONE:
        return
    DONE = True
    for n, m in list(sys.modules.items()):
        if n == "pydmd" or n.startswith("pydmd."):
            if n.endswith("plotter"):
                continue
            patch_module(m)


def np_proxy():
    return ModProxy(np, "")
