"""Symbolic-length sequences and generic loop iterations."""
import ast
import sys

from . import ix as I
from . import term as T
from .ix import Unsupported, ctx, ix, mkint
from .arr import _bufid


class SymSeq:
    """immutable sequence of symbolic length n with element function f(i)->object"""

    def __init__(self, n, f):
        self.n, self.f = ix(n), f
        self.born = next(_bufid)

    def __iter__(self):
        c = self.n.const
        if c is None:
            c = I.concretize(self.n) if I.CTX else None
        if c is not None:
            return iter([self.f(ix(i)) for i in range(c)])
        return GenericIter(self)

    def __getitem__(self, k):
        if isinstance(k, slice):
            from .arr import slice_bounds

            st, ln, step = slice_bounds(k, self.n)
            return SymSeq(ln, lambda i: self.f(st + i * step))
        from .arr import norm_index

        return self.f(norm_index(ix(k), self.n))

    def sort(self, key=None, reverse=False):
        from .patch import b_sorted

        if ctx().generic and self.born < ctx().generic[-1]["start"]:
            raise Unsupported("list sorted in a symbolic loop")
        r = b_sorted(SymSeq(self.n, self.f), key=key, reverse=reverse)
        if type(r) is not SymSeq:
            r = tuple(r)
            raise Unsupported("sort of a list of known length")
        self.n, self.f = r.n, r.f

    def append(self, v):
        c = ctx()
        for g in reversed(c.generic):
            st = g["lists"].get(id(self))
            if st is not None:
                if g is not c.generic[-1] or st["new"] or g["forked"]:
                    raise Unsupported("list grown irregularly in a symbolic loop")
                st["new"].append(v)
                return
        if c.generic and self.born < c.generic[-1]["start"]:
            raise Unsupported("list grown in a symbolic loop")
        n, f = self.n, self.f
        self.f = lambda i: v if c.decide(I.eq(ix(i), n)) else f(i)
        self.n = n + 1

    def open_loop(self, g, gvar):
        """elements during an arbitrary iteration of a loop that appends once per iteration"""
        from . import arr

        base, init = self.n, self.f
        e0 = init(I.fresh("p", base))
        if not isinstance(e0, arr.SymArray):
            raise Unsupported("list of non-arrays grown in a symbolic loop")
        name = f"rec{next(_bufid)}"

        def at(e):
            e = ix(e)
            rest = tuple(e0._shape)

            def el(*i):
                c = I.lt(e, base)
                d = T.atom(name, e, *i)
                if c.k == "true" or ctx().entails(c):
                    return init(e).num()(*i)
                if ctx().entails(I.neg(c)):
                    return d
                return T.ite(c, arr.under(c, lambda: init(e).num()(*i)), d)

            return arr.SymArray.new(rest, "c", el)

        g["lists"][id(self)] = dict(seq=self, base=base, name=name, shape=tuple(e0._shape), at=at, new=[], init=init)
        self.n, self.f = base + gvar, at

    def close_loop(self, g, gvar):
        from . import arr

        st = g["lists"][id(self)]
        if not st["new"]:
            self.n, self.f = st["base"], st["init"]
            return
        v = arr.asarr(st["new"][0])
        if len(v._shape) != len(st["shape"]) or not all(ctx().entails(I.eq(a, b)) for a, b in zip(v._shape, st["shape"])):
            raise Unsupported("appended elements of another shape")
        idx = [I.fresh("i", s) for s in st["shape"]]
        rules = T.make_rule("loop: appended element", [gvar] + idx, T.atom(st["name"], st["base"] + gvar, *idx), v.num()(*idx))
        for r in rules:
            r.noguard = True
        T.add_rules(rules)
        self.n, self.f = st["base"] + g["n"], st["at"]

    def to_array(self):
        """stack the elements along a new first axis"""
        from . import arr

        probe = I.fresh("p", self.n)
        e0 = self.f(probe)
        a0 = arr.asarr(e0) if not isinstance(e0, (list, tuple)) else arr.asarr_any(e0)

        def f(i, *r):
            e = self.f(ix(i))
            a = arr.asarr(e) if not isinstance(e, (list, tuple)) else arr.asarr_any(e)
            return a.reader()(*r)

        return arr.SymArray.new((self.n,) + tuple(a0._shape), a0.kind, f)


class Spread:
    """what iterating a symbolic sequence yields inside a list display / star call"""

    def __init__(self, seq):
        self.seq = seq


LOOP_OPS = None


def _loop_kind(frame):
    """'for' for a for statement without nested collection building, else 'comp'"""
    import dis

    code = frame.f_code
    key = (code, frame.f_lasti)
    r = _loop_kind.cache.get(key)
    if r is not None:
        return r
    ins = list(dis.get_instructions(code))
    pos = {i.offset: n for n, i in enumerate(ins)}
    n = pos.get(frame.f_lasti)
    kind = "other"
    if n is not None and ins[n].opname == "FOR_ITER":
        end = ins[n].argval
        body = [i for i in ins[n + 1 :] if i.offset < end]
        depth_ok = not any(i.opname in ("LIST_APPEND", "SET_ADD", "MAP_ADD", "YIELD_VALUE") for i in body)
        kind = "for" if depth_ok else "comp"
    _loop_kind.cache[key] = kind
    return kind


_loop_kind.cache = {}


_TREES = {}


def _func_node(code):
    fn = code.co_filename
    if fn not in _TREES:
        try:
            _TREES[fn] = ast.parse(open(fn).read())
        except (OSError, SyntaxError):
            _TREES[fn] = None
    tree = _TREES[fn]
    if tree is None:
        return None
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == code.co_name:
            if code.co_firstlineno in [n.lineno] + [d.lineno for d in n.decorator_list]:
                return n
    return None


def _mentions(n, k, kind=ast.expr_context):
    return any(isinstance(x, ast.Name) and x.id == k and isinstance(x.ctx, kind) for x in ast.walk(n))


def _fresh_in(f, k):
    """every use of k inside the for statement f follows an assignment of the same iteration"""
    if _mentions(f.iter, k) or any(_mentions(s, k) for s in f.orelse):
        return False
    if _mentions(f.target, k):
        return True
    for s in f.body:
        if not _mentions(s, k):
            continue
        if isinstance(s, ast.Assign):
            return not _mentions(s.value, k) and all(not _mentions(t, k, ast.Load) for t in s.targets)
        return isinstance(s, ast.For) and _fresh_in(s, k) and not any(_mentions(x, k) for x in f.body[f.body.index(s) + 1 :])
    return True


def _for_at(fr):
    fn = _func_node(fr.f_code)
    if fn is None:
        return None, None
    line = fr.f_lineno
    cands = [f for f in ast.walk(fn) if isinstance(f, ast.For) and f.lineno <= line <= f.iter.end_lineno]
    return fn, cands[0] if len(cands) == 1 else None


def grown_lists(fr):
    """symbolic lists appended to by the for statement starting in frame fr"""
    _, f = _for_at(fr)
    if f is None:
        return []
    names = {c.func.value.id for s in f.body for c in ast.walk(s) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name)}
    return [v for k, v in fr.f_locals.items() if k in names and type(v) is SymSeq]


def dead_outside(fr, k):
    """the local k rebound by the loop now closing in frame fr carries nothing to later iterations or past the loop"""
    fn, f = _for_at(fr)
    if f is None or not _fresh_in(f, k):
        return False
    if any(isinstance(n, (ast.Nonlocal, ast.Global)) and k in n.names for n in ast.walk(fn)):
        return False

    def load(n):
        if isinstance(n, ast.For) and _fresh_in(n, k):
            return False
        if isinstance(n, ast.Name):
            return n.id == k and isinstance(n.ctx, ast.Load)
        return any(load(x) for x in ast.iter_child_nodes(n))

    return not load(fn)


class GenericIter:
    """iterator over a symbolic sequence.

    In a list display or star call it yields one Spread token.  In a for
    statement it runs the body once for an arbitrary index (a map loop): the
    body may only write disjoint array regions addressed by that index."""

    def __init__(self, seq):
        self.seq, self.state = seq, 0

    def __iter__(self):
        return self

    def __next__(self):
        fr = sys._getframe(1)
        if self.state == 0:
            self.kind = _loop_kind(fr)
            if self.kind != "for":
                self.state = 9
                return Spread(self.seq)
            c = ctx()
            outer = any(g["var"] in self.seq.n.vars() for g in c.generic)
            if not outer and not c.decide(I.lt(0, self.seq.n)):  # an inner loop may be empty for some outer indices: its index range says so
                self.state = 9
                raise StopIteration
            self.var = I.fresh("g", self.seq.n)
            self.g = dict(var=self.var.is_var(), forked=False, writes=[], reads=[], n=self.seq.n, start=next(_bufid), lists={}, where=fr.f_code.co_filename)
            for v in grown_lists(fr):
                v.open_loop(self.g, self.var)
            self.item = self.seq.f(self.var)
            self.before = self._snap(fr)
            c.generic.append(self.g)
            self.state = 1
            return self.item
        if self.state == 1:
            c = ctx()
            c.generic.remove(self.g)
            self.state = 9
            for st in self.g["lists"].values():
                if st["new"] and self.g["forked"]:
                    raise Unsupported("data-dependent branch in a loop growing a list")
                st["seq"].close_loop(self.g, self.var)
            self._close(fr)
        raise StopIteration

    def _snap(self, fr):
        loc = fr.f_locals
        snap = {k: id(v) for k, v in loc.items()}
        cont = {}
        for k, v in loc.items():
            if type(v) in (list, dict, set):
                cont[k] = len(v)
            elif hasattr(v, "__dict__") and type(v).__module__.startswith("pydmd"):
                cont[k] = {a: id(b) for a, b in v.__dict__.items()}
        return snap, cont

    def _close(self, fr):
        snap, cont = self.before
        loc = fr.f_locals
        items = [self.item] + (list(self.item) if isinstance(self.item, tuple) and type(self.item) is tuple else [])
        for k, v in loc.items():
            if snap.get(k) != id(v) and not any(v is x for x in items):
                if not dead_outside(fr, k):
                    raise Unsupported(f"loop over a symbolic range rebinds {k}")
        for k, v in cont.items():
            w = loc.get(k)
            if type(w) in (list, dict, set):
                if len(w) != v:
                    raise Unsupported(f"loop over a symbolic range grows {k}")
            elif isinstance(v, dict) and {a: id(b) for a, b in w.__dict__.items()} != v:
                raise Unsupported(f"loop over a symbolic range rebinds attributes of {k}")
        if not self.g["writes"]:
            return
        if self.g["forked"]:
            raise Unsupported("data-dependent branch with writes in a symbolic loop")
        var, n = self.g["var"], self.g["n"]
        bufs = {}
        keys = {}
        for b, old, key in self.g["writes"]:
            if b.id < self.g["start"]:
                bufs.setdefault(b.id, (b, old))
                keys.setdefault(b.id, set()).add(key)
        for b, key in self.g["reads"]:
            if b in keys and keys[b] != {key}:
                raise Unsupported("loop-carried read in a symbolic loop")
        for b, old in bufs.values():
            one = b.fn  # contents after the single generic iteration

            def new(*idx, one=one, old=old):
                t = one(*idx)
                if isinstance(t, I.Cond):
                    raise Unsupported("boolean writes in a symbolic loop")
                return _close_loop(t, old(*idx), var, n)

            b.fn = new


def _close_loop(t, old, var, n):
    """t = ite(cond(var), val(var), old): replace var by its solution"""
    if var not in t.vars():
        return t
    if t.op == "ite":
        c, a, b = t.a
        parts = c.a if c.k == "and" else (c,)
        for g in parts:
            if g.k == "eq" and var in g.vars():
                li = g.a.linear_in(var)
                if li is not None and li[0] in (1, -1):
                    e = -li[1] if li[0] == 1 else li[1]
                    while b.key != old.key and b.op == "ite" and b.a[0].key == c.key:
                        b = b.a[2]
                    if b.key == old.key:
                        cond = I.conj([c.subst({var: e}), I.le(0, e), I.lt(e, n)])
                        return T.ite(cond, a.subst({var: e}), old)
    import os
    if os.environ.get("DBG"): print("T", t, "\nOLD", old, "VAR", var, file=sys.stderr)
    raise Unsupported("writes of a symbolic loop are not a map over its index")


def iter_array(a):
    n = a._shape[0] if a.ndim else None
    if n is None:
        raise TypeError("iteration over a 0-d array")
    return iter(SymSeq(n, lambda i: a[mkint(i)]))


class SymRange:
    def __new__(cls, *args):
        return sym_range(*args)


def sym_range(*args):
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], 1
    else:
        lo, hi, st = args
    if not isinstance(st, int):
        raise Unsupported("symbolic range step")
    lo, hi = ix(lo), ix(hi)
    if not ctx().decide(I.le(lo, hi)):
        return range(0)
    n = hi - lo
    if st != 1:
        if st < 0:
            raise Unsupported("negative symbolic range")
        n = I.idiv(n + (st - 1), ix(st))
    return SymSeq(n, lambda i: mkint(lo + i * st))
