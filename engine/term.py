"""Element terms (entries of arrays) and their normal form.

A term denotes a real/complex number depending on index variables.  The normal
form is a sum of monomials; a monomial is coefficient * Iverson guards *
product of factors, summed over bound index variables (a tensor network).
Equality of terms is decided by: normalise, apply the oriented hypotheses of
assumed dependency contracts, split on remaining guards, compare.
"""
import re
import itertools
from fractions import Fraction

import z3

from . import ix as I
from .ix import IX, Cond, Unsupported, ctx, ix

REAL = set()  # names of real-valued atoms
POS = set()  # names of strictly positive real atoms
_c = itertools.count()


class Term:
    __slots__ = ("op", "a", "key", "_h", "_vars", "_nf")

    def __init__(self, op, a):
        self.op, self.a = op, a
        self._vars = None
        self._nf = None
        if op == "num":
            self.key = f"{a[0]}" if a[1] == 0 else f"<{a[0]},{a[1]}>"
        elif op == "int":
            self.key = f"int[{a.key}]"
        elif op == "atom":
            self.key = f"{a[0]}[{','.join(x.key for x in a[1])}]"
        elif op in ("add", "mul"):
            self.key = op + "(" + ",".join(x.key for x in a) + ")"
        elif op == "conj":
            self.key = "~" + a.key
        elif op == "sum":
            # the name of the bound variable is not part of the meaning
            b = a[2].key
            if a[0] in b:
                d = 1 + max((int(x) for x in re.findall(r"\$(\d+)", b)), default=0)
                b = re.sub(r"(?<![\w~#])" + re.escape(a[0]) + r"(?![\w~])", f"${d}", b)
            self.key = f"S<{a[1].key}:({b})"
        elif op == "ite":
            self.key = f"if({a[0].key};{a[1].key};{a[2].key})"
        elif op == "pow":
            self.key = f"pow({a[0].key};{a[1].key})"
        elif op == "fn":
            self.key = f"{a[0]}({';'.join(x.key for x in a[1])})"
        else:
            raise AssertionError(op)
        self._h = hash(self.key)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Term) and o.key == self.key

    def __repr__(self):
        return self.key if len(self.key) < 300 else self.key[:300] + "..."

    def vars(self):
        if self._vars is None:
            op, a = self.op, self.a
            if op == "num":
                s = frozenset()
            elif op == "int":
                s = a.vars()
            elif op == "atom":
                s = frozenset().union(*[x.vars() for x in a[1]]) if a[1] else frozenset()
            elif op in ("add", "mul"):
                s = frozenset().union(*[x.vars() for x in a])
            elif op == "conj":
                s = a.vars()
            elif op == "sum":
                s = (a[2].vars() - {a[0]}) | a[1].vars()
            elif op == "ite":
                s = a[0].vars() | a[1].vars() | a[2].vars()
            elif op == "pow":
                s = a[0].vars() | a[1].vars()
            else:
                s = frozenset().union(*[x.vars() for x in a[1]]) if a[1] else frozenset()
            self._vars = s
        return self._vars

    def subst(self, d):
        if not (self.vars() & d.keys()):
            return self
        op, a = self.op, self.a
        if op == "int":
            return TInt(a.subst(d))
        if op == "atom":
            return Term("atom", (a[0], tuple(x.subst(d) for x in a[1])))
        if op == "add":
            return add(*[x.subst(d) for x in a])
        if op == "mul":
            return mul(*[x.subst(d) for x in a])
        if op == "conj":
            return conj(a.subst(d))
        if op == "sum":
            v, hi, body = a
            nv = I.fresh("k", hi.subst(d))
            return Term("sum", (nv.is_var(), hi.subst(d), body.subst({**d, v: nv})))
        if op == "ite":
            return ite(a[0].subst(d), a[1].subst(d), a[2].subst(d))
        if op == "pow":
            return power(a[0].subst(d), a[1].subst(d))
        return fn(a[0], *[x.subst(d) for x in a[1]])


def Num(x, y=0):
    return Term("num", (Fraction(x), Fraction(y)))


ZERO, ONE = Num(0), Num(1)
NAN = Term("atom", ("nan!", ()))


def TInt(x):
    x = ix(x)
    c = x.const
    return Num(c) if c is not None else Term("int", x)


def atom(name, *idx):
    return Term("atom", (name, tuple(ix(i) for i in idx)))


def const_of(t):
    return t.a if t.op == "num" else None


def as_index(t):
    """IX if the term is an integer index expression (structurally)"""
    if t.op == "int":
        return t.a
    if t.op == "num" and t.a[1] == 0 and t.a[0].denominator == 1:
        return ix(int(t.a[0]))
    if t.op == "add":
        r = ix(0)
        for x in t.a:
            y = as_index(x)
            if y is None:
                return None
            r = r + y
        return r
    if t.op == "mul":
        r = ix(1)
        for x in t.a:
            y = as_index(x)
            if y is None:
                return None
            r = r * y
        return r
    return None


def lift(x):
    """python / symbolic scalar -> Term"""
    import numpy as np

    if isinstance(x, Term):
        return x
    if type(x) is I.SymInt:
        return TInt(x.ix)
    if type(x) is I.SymBool:
        return ite(x.c, ONE, ZERO)
    if hasattr(x, "term"):
        return x.term
    if isinstance(x, (bool, np.bool_)):
        return ONE if x else ZERO
    if isinstance(x, (int, np.integer)):
        return Num(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return Term("atom", ("inf!" if x > 0 else "-inf!", ()))
        return Num(Fraction(x))
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        return Num(Fraction(x.real), Fraction(x.imag))
    if isinstance(x, Fraction):
        return Num(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise Unsupported(f"cannot lift {type(x)} to an element term")


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cmul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0] * b[0], Fraction(0))
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cpow(a, n):
    if n < 0:
        d = a[0] * a[0] + a[1] * a[1]
        if d == 0:
            raise ZeroDivisionError
        a = (a[0] / d, -a[1] / d)
        n = -n
    r = (Fraction(1), Fraction(0))
    for _ in range(n):
        r = cmul(r, a)
    return r


def add(*ts):
    c = (Fraction(0), Fraction(0))
    out = []
    for t in ts:
        for x in t.a if t.op == "add" else (t,):
            if x.op == "num":
                c = cadd(c, x.a)
            else:
                out.append(x)
    if not out:
        return Term("num", c)
    if c != (0, 0):
        out.append(Term("num", c))
    if len(out) == 1:
        return out[0]
    return Term("add", tuple(out))


def mul(*ts):
    c = (Fraction(1), Fraction(0))
    out = []
    for t in ts:
        for x in t.a if t.op == "mul" else (t,):
            if x.op == "num":
                c = cmul(c, x.a)
            else:
                out.append(x)
    if c == (0, 0):
        return ZERO
    if not out:
        return Term("num", c)
    if c != (1, 0):
        out.insert(0, Term("num", c))
    if len(out) == 1:
        return out[0]
    return Term("mul", tuple(out))


def neg(t):
    return mul(Num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def ite(c, a, b):
    if c.k == "true":
        return a
    if c.k == "false":
        return b
    if a.key == b.key:
        return a
    return Term("ite", (c, a, b))


REALFN = {"abs", "real", "imag", "angle", "floor"}
COMMFN = {"exp", "sqrt", "log", "sin", "cos", "tanh", "rnd"}


def is_real(t):
    op, a = t.op, t.a
    if op == "num":
        return a[1] == 0
    if op == "int":
        return True
    if op == "atom":
        return a[0] in REAL or a[0] in ("nan!", "inf!", "-inf!")
    if op in ("add", "mul"):
        return all(is_real(x) for x in a)
    if op == "conj":
        return is_real(a)
    if op == "sum":
        return is_real(a[2])
    if op == "ite":
        return is_real(a[1]) and is_real(a[2])
    if op == "pow":
        if not (is_real(a[0]) and is_real(a[1])):
            # |z|^2 style products are handled by the normal form
            return False
        e = const_of(a[1])
        return (e is not None and e[0].denominator == 1) or as_index(a[1]) is not None or is_nonneg(a[0])
    if op == "fn":
        if a[0] in REALFN:
            return True
        if a[0] in ("exp", "sin", "cos", "tanh", "rnd"):
            return all(is_real(x) for x in a[1])
        if a[0] == "sqrt":
            return is_nonneg(a[1][0])
        if a[0] in ("max", "min", "median"):
            return True
        return False


def is_nonneg(t):
    op, a = t.op, t.a
    if op == "num":
        return a[1] == 0 and a[0] >= 0
    if op == "atom":
        return a[0] in POS
    if op == "fn":
        return a[0] in ("abs", "sqrt") or (a[0] == "exp" and is_real(a[1][0]))
    if op == "pow":
        e = const_of(a[1])
        if e is not None and e[0].denominator == 1 and e[0] % 2 == 0 and is_real(a[0]):
            return True
        return is_nonneg(a[0]) and is_real(a[1])
    if op in ("add", "mul"):
        if all(is_nonneg(x) for x in a):
            return True
        if op == "mul":
            rest = [x for x in a if not is_nonneg(x)]
            while rest:
                x = rest.pop()
                c = conj(x).key
                for j, y in enumerate(rest):
                    if y.key == c:
                        del rest[j]
                        break
                else:
                    return False
            return True
        if op == "add" and I.CTX and ctx().memo.get("nonneg"):
            return nf(t).key in ctx().memo["nonneg"]
        return False
    if op == "sum":
        return is_nonneg(a[2])
    if op == "ite":
        return is_nonneg(a[1]) and is_nonneg(a[2])
    if op == "int":
        if all(c >= 0 and all(f[0] == "v" and _lo0(f[1]) for f in m) for m, c in a.t.items()):
            return True
        if not I.CTX or getattr(ctx(), "_nn", False):
            return False
        ctx()._nn = True
        try:
            return ctx().entails(I.le(0, a))
        finally:
            ctx()._nn = False
    return False


def monotone(t, v):
    """+1 / -1: never decreases / increases in the index v >= 0; 0: does not depend on it; None: unknown"""
    if v not in t.vars():
        return 0
    if t.op == "sum":
        w, hi, b = t.a
        li = hi.linear_in(v)
        if v not in b.vars() and li is not None and isinstance(li[0], int) and v not in li[1].vars() and is_nonneg(b):
            return 1 if li[0] > 0 else -1
        return None
    if t.op == "mul":
        dep = [x for x in t.a if v in x.vars()]
        if len(dep) == 1 and all(is_nonneg(x) for x in t.a if v not in x.vars()):
            return monotone(dep[0], v)
        return None
    if t.op == "add":
        ms = {monotone(x, v) for x in t.a} - {0}
        return ms.pop() if len(ms) == 1 else None
    return None


def _lo0(v):
    lo = I.RANGE.get(v, (None, None))[0]
    return lo is not None and lo.const is not None and lo.const >= 0


def conj(t):
    if is_real(t):
        return t
    op, a = t.op, t.a
    if op == "num":
        return Term("num", (a[0], -a[1]))
    if op == "conj":
        return a
    if op == "add":
        return add(*[conj(x) for x in a])
    if op == "mul":
        return mul(*[conj(x) for x in a])
    if op == "sum":
        return Term("sum", (a[0], a[1], conj(a[2])))
    if op == "ite":
        return ite(a[0], conj(a[1]), conj(a[2]))
    if op == "pow":
        return power(conj(a[0]), conj(a[1]))
    if op == "fn" and a[0] in COMMFN:
        return fn(a[0], *[conj(x) for x in a[1]])
    return Term("conj", t)


def power(b, e):
    if e.op == "num":
        if e.a == (0, 0):
            return ONE
        if e.a == (1, 0):
            return b
    if b.op == "ite":
        return ite(b.a[0], power(b.a[1], e), power(b.a[2], e))
    if e.op == "ite":
        return ite(e.a[0], power(b, e.a[1]), power(b, e.a[2]))
    if b.op == "num":
        if e.op == "num" and e.a[1] == 0 and e.a[0].denominator == 1 and abs(e.a[0]) < 64:
            if b.a == (0, 0) and e.a[0] < 0:
                return Term("atom", ("inf!", ()))
            return Term("num", cpow(b.a, int(e.a[0])))
        if b.a == (1, 0):
            return ONE
    return Term("pow", (b, e))


def recip(t):
    return power(t, Num(-1))


def fn(name, *args):
    for i, x in enumerate(args):
        if x.op == "ite":
            return ite(
                x.a[0],
                fn(name, *args[:i], x.a[1], *args[i + 1 :]),
                fn(name, *args[:i], x.a[2], *args[i + 1 :]),
            )
    if name == "abs":
        (x,) = args
        if is_nonneg(x):
            return x
        if x.op == "num" and x.a[1] == 0:
            return Num(abs(x.a[0]))
        if x.op == "mul":
            return mul(*[fn("abs", y) for y in x.a])
        if x.op == "conj":
            return fn("abs", x.a)
        if x.op == "pow":
            e = const_of(x.a[1])
            if e is not None and e[1] == 0 and e[0].denominator == 1 or as_index(x.a[1]) is not None:
                return power(fn("abs", x.a[0]), x.a[1])
    if name == "sqrt":
        return power(args[0], Num(Fraction(1, 2)))
    if name == "real":
        (x,) = args
        if is_real(x):
            return x
        return mul(Num(Fraction(1, 2)), add(x, conj(x)))
    if name == "imag":
        (x,) = args
        if is_real(x):
            return ZERO
        return mul(Num(0, Fraction(-1, 2)), sub(x, conj(x)))
    if name == "exp":
        (x,) = args
        if x.key == "0":
            return ONE
    return Term("fn", (name, tuple(args)))


def tsum(hi, f, prefix="k"):
    """sum of f(k) for 0 <= k < hi"""
    hi = ix(hi)
    c = hi.const
    if c is not None and c <= 4:
        return add(*[f(ix(k)) for k in range(c)]) if c > 0 else ZERO
    v = I.fresh(prefix, hi)
    b = f(v)
    if b.key == "0":
        return ZERO
    return Term("sum", (v.is_var(), hi, b))


# --------------------------------------------------------------------------
# normal form
# --------------------------------------------------------------------------
# base kinds:
#  ("a", name, idx, conj)   ("i", iatom)   ("f", name, (NF,...))   ("n", NF)
class NF:
    """finalised normal form: tuple of (Mono, coef) with canonical key"""

    __slots__ = ("items", "key", "_h", "lvl", "_vars")

    def __init__(self, items):
        self.items = tuple(sorted(items, key=lambda mc: mc[0].key))
        self.key = " + ".join(f"{ckey(c)}.{m.key}" for m, c in self.items) or "0"
        self._h = hash(self.key)
        self.lvl = max([m.lvl for m, _ in self.items], default=0)
        self._vars = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, NF) and o.key == self.key

    def __repr__(self):
        return self.key

    def const(self):
        if not self.items:
            return (Fraction(0), Fraction(0))
        if len(self.items) == 1 and self.items[0][0].trivial():
            return self.items[0][1]
        return None

    def vars(self):
        if self._vars is None:
            self._vars = frozenset().union(*[m.vars() for m, _ in self.items]) if self.items else frozenset()
        return self._vars


def ckey(c):
    return f"{c[0]}" if c[1] == 0 else f"<{c[0]},{c[1]}>"


class Mono:
    """bound: tuple((name, hi)), guards: tuple(Cond), facs: tuple((base, NFexp))"""

    __slots__ = ("bound", "guards", "facs", "key", "lvl", "_vars")

    def __init__(self, bound, guards, facs, lvl):
        self.bound, self.guards, self.facs, self.lvl = bound, guards, facs, lvl
        self.key = (
            "".join(f"S{v}<{h.key}." for v, h in bound)
            + "".join(f"[{g.key}]" for g in guards)
            + "*".join(fkey(f) for f in facs)
        )
        self._vars = None

    def trivial(self):
        return not (self.bound or self.guards or self.facs)

    def vars(self):
        if self._vars is None:
            s = set()
            for _, h in self.bound:
                s |= h.vars()
            for g in self.guards:
                s |= g.vars()
            for b, e in self.facs:
                s |= base_vars(b) | e.vars()
            self._vars = frozenset(s) - {v for v, _ in self.bound}
        return self._vars


def fkey(f):
    b, e = f
    c = e.const()
    return base_key(b) + ("" if c == (1, 0) else "^{" + e.key + "}")


_bk = {}


def base_key(b):
    if b[0] == "a":
        return ("~" if b[3] else "") + f"{b[1]}[{','.join(x.key for x in b[2])}]"
    if b[0] == "i":
        return "#" + I.a_key(b[1])
    if b[0] == "f":
        return f"{b[1]}({';'.join(x.key for x in b[2])})" + ("~" if len(b) > 3 and b[3] else "")
    return "{" + b[1].key + "}"


def base_vars(b):
    if b[0] == "a":
        return frozenset().union(*[x.vars() for x in b[2]]) if b[2] else frozenset()
    if b[0] == "i":
        return IX({(b[1],): 1}).vars()
    if b[0] == "f":
        return frozenset().union(*[x.vars() for x in b[2]]) if b[2] else frozenset()
    return b[1].vars()


def base_lvl(b):
    if b[0] == "f":
        return max([x.lvl for x in b[2]], default=0)
    if b[0] == "n":
        return b[1].lvl
    return 0


def base_subst(b, d):
    """substitute index variables; result is a list-of-raw-monomials free form: (base) or NF replacement"""
    if b[0] == "a":
        return ("a", b[1], tuple(x.subst(d) for x in b[2]), b[3])
    if b[0] == "i":
        x = IX({(b[1],): 1}).subst(d)
        if len(x.t) == 1:
            ((mo, c),) = x.t.items()
            if c == 1 and len(mo) == 1:
                return ("i", mo[0])
        return ("ix", x)
    if b[0] == "f":
        return ("f", b[1], tuple(nf_subst(x, d) for x in b[2])) + tuple(b[3:])
    return ("n", nf_subst(b[1], d))


def nf_subst(n, d):
    if not (n.vars() & d.keys()):
        return n
    raws = []
    for m, c in n.items:
        raws.extend(raw_subst(raw_of(m, c), d))
    return finalize(raws)


# raw monomial: [coef, bound dict name->hi, guards list, facs dict key->(base, NF exp)]
class Raw:
    __slots__ = ("c", "bound", "guards", "facs")

    def __init__(self, c, bound=None, guards=None, facs=None):
        self.c = c
        self.bound = bound or {}
        self.guards = guards or []
        self.facs = facs or {}


_NF_ONE = None
_NF_ZERO = None


def nf_one():
    global _NF_ONE
    if _NF_ONE is None:
        _NF_ONE = NF([(Mono((), (), (), 0), (Fraction(1), Fraction(0)))])
    return _NF_ONE


def nf_const(c):
    if c == (0, 0):
        return NF([])
    return NF([(Mono((), (), (), 0), c)])


def raw_of(m, c):
    """raw with bound variables renamed to fresh unique names"""
    if not m.bound:
        return Raw(c, {}, list(m.guards), {base_key(b): (b, e) for b, e in m.facs})
    ren = {}
    bound = {}
    for v, h in m.bound:
        nv = I.fresh("_q", h)
        ren[v] = nv
        bound[nv.is_var()] = h
    r = Raw(c, bound, [g.subst(ren) for g in m.guards], {})
    for b, e in m.facs:
        put(r, base_subst(b, ren), nf_subst(e, ren))
    # hi's of bound may depend on other bound vars
    r.bound = {v: h.subst(ren) for v, h in bound.items()}
    return r


def raw_subst(r, d):
    """simultaneous substitution of free vars in a raw monomial -> list of raws"""
    out = Raw(r.c, {v: h.subst(d) for v, h in r.bound.items()}, [g.subst(d) for g in r.guards], {})
    outs = [out]
    for b, e in r.facs.values():
        nb, ne = base_subst(b, d), nf_subst(e, d)
        if nb[0] == "ix":
            p = int_raws(nb[1])
            ec = ne.const()
            if ec is None or ec[1] != 0 or ec[0].denominator != 1 or ec[0] < 0:
                base = finalize(p)
                for o in outs:
                    put(o, ("n", base), ne)
                continue
            for _ in range(int(ec[0])):
                outs = [raw_mul(o, x) for o in outs for x in p]
        else:
            for o in outs:
                put(o, nb, ne)
    return outs


def nf_add(a, b):
    return finalize([raw_of(m, c) for m, c in a.items] + [raw_of(m, c) for m, c in b.items], simp=False)


def put(r, b, e):
    if b[0] == "ix":
        raise AssertionError
    k = base_key(b)
    if k in r.facs:
        ne = nf_add(r.facs[k][1], e)
        if ne.const() == (0, 0):
            del r.facs[k]
        else:
            r.facs[k] = (b, ne)
    elif e.const() != (0, 0):
        r.facs[k] = (b, e)


def raw_mul(x, y):
    r = Raw(cmul(x.c, y.c), {**x.bound, **y.bound}, x.guards + y.guards, dict(x.facs))
    for b, e in y.facs.values():
        put(r, b, e)
    return r


def fresh_copy(r):
    """rename bound variables apart"""
    if not r.bound:
        return r
    ren = {v: I.fresh("_q", h) for v, h in r.bound.items()}
    out = Raw(r.c, {ren[v].is_var(): h.subst(ren) for v, h in r.bound.items()}, [g.subst(ren) for g in r.guards], {})
    for b, e in r.facs.values():
        put(out, base_subst(b, ren), nf_subst(e, ren))
    return out


def int_raws(x):
    out = []
    for m, c in x.t.items():
        r = Raw((Fraction(c), Fraction(0)))
        for a in m:
            put(r, ("i", a), nf_one())
        out.append(r)
    return out


def cond_conj(r):
    return r


def raws(t):
    """Term -> list of raw monomials"""
    op, a = t.op, t.a
    if op == "num":
        return [] if a == (0, 0) else [Raw(a)]
    if op == "int":
        return int_raws(a)
    if op == "atom":
        r = Raw((Fraction(1), Fraction(0)))
        put(r, ("a", a[0], a[1], False), nf_one())
        return [r]
    if op == "conj":
        if a.op == "atom":
            r = Raw((Fraction(1), Fraction(0)))
            put(r, ("a", a.a[0], a.a[1], True), nf_one())
            return [r]
        if a.op == "fn":
            r = Raw((Fraction(1), Fraction(0)))
            put(r, ("f", a.a[0], tuple(nf(x) for x in a.a[1]), True), nf_one())
            return [r]
        raise Unsupported(f"conj of {a.op}")
    if op == "add":
        out = []
        for x in a:
            out.extend(raws(x))
        return out
    if op == "mul":
        out = [Raw((Fraction(1), Fraction(0)))]
        for x in a:
            rx = raws(x)
            new = []
            for o in out:
                for y in rx:
                    new.append(raw_mul(o, fresh_copy(y) if len(out) > 1 else y))
            out = new
            if len(out) > 4000:
                raise Unsupported("normal form too large")
        return out
    if op == "sum":
        v, hi, body = a
        out = []
        for r in raws(body):
            nv = I.fresh("q", hi)
            for r2 in raw_subst(r, {v: nv}):
                r2.bound = {**r2.bound, nv.is_var(): hi}
                out.append(r2)
        return out
    if op == "ite":
        c, x, y = a
        out = []
        for r in raws(x):
            r.guards = r.guards + [c]
            out.append(r)
        n = I.neg(c)
        for r in raws(y):
            r.guards = r.guards + [n]
            out.append(r)
        return out
    if op == "pow":
        return raws_pow(a[0], a[1])
    if op == "fn":
        return raws_fn(a[0], a[1])
    raise AssertionError(op)


def is_integer_nf(e):
    c = e.const()
    if c is not None:
        return c[1] == 0 and c[0].denominator == 1
    for m, c in e.items:
        if c[1] != 0 or c[0].denominator != 1:
            return False
        if m.bound or m.guards:
            return False
        for b, ee in m.facs:
            ec = ee.const()
            if b[0] != "i" or ec is None or ec[0].denominator != 1 or ec[0] < 0:
                return False
    return True


def raws_pow(bt, et):
    e = nf(et)
    ec = e.const()
    if ec is not None and ec[1] == 0 and ec[0].denominator == 1 and 0 <= ec[0] <= 6:
        n = int(ec[0])
        # |z|^2 = z conj z
        if bt.op == "fn" and bt.a[0] == "abs" and n % 2 == 0:
            z = bt.a[1][0]
            return raws(mul(*([z, conj(z)] * (n // 2))))
        out = [Raw((Fraction(1), Fraction(0)))]
        for _ in range(n):
            rb = raws(bt)
            out = [raw_mul(o, fresh_copy(x)) for o in out for x in rb]
        return out
    b = nf(bt)
    return nf_pow_raws(b, e)


def nf_pow_raws(b, e):
    ec = e.const()
    if len(b.items) == 1:
        m, c = b.items[0]
        integer = is_integer_nf(e)
        if not m.bound and not m.guards:
            single = len(m.facs) == 1 and c == (1, 0) and m.facs[0][1].const() == (1, 0)
            absq = None
            if integer or single:
                r = Raw((Fraction(1), Fraction(0)))
                if c != (1, 0):
                    if ec is not None:
                        r.c = cpow(c, int(ec[0]))
                    else:
                        put(r, ("n", nf_const(c)), e)
                for fb, fe in m.facs:
                    put(r, fb, nf_mul(fe, e))
                return [r]
            # positive real base: distribute over factors
            if all(base_pos(fb) for fb, _ in m.facs) and c[1] == 0 and c[0] > 0:
                r = Raw((Fraction(1), Fraction(0)))
                if c != (1, 0):
                    put(r, ("n", nf_const(c)), e)
                for fb, fe in m.facs:
                    put(r, fb, nf_mul(fe, e))
                return [r]
    if not b.items:
        raise Unsupported("power of zero")
    r = Raw((Fraction(1), Fraction(0)))
    put(r, ("n", b), e)
    return [r]


def base_pos(b):
    if b[0] == "a":
        return b[1] in POS
    if b[0] == "f":
        return b[1] in ("abs",)
    return False


def nf_mul(a, b):
    out = []
    for m, c in a.items:
        for m2, c2 in b.items:
            out.append(raw_mul(raw_of(m, c), raw_of(m2, c2)))
    return finalize(out, simp=False)


def raws_fn(name, args):
    n = tuple(nf(x) for x in args)
    if name == "exp":
        # exp(a+b) = exp(a) exp(b), exp(0) = 1
        r = Raw((Fraction(1), Fraction(0)))
        for m, c in n[0].items:
            put(r, ("f", "exp", (NF([(m, (Fraction(1), Fraction(0)))]),)), nf_const(c))
        return [r]
    if name == "abs" and not n[0].items:
        return []
    r = Raw((Fraction(1), Fraction(0)))
    put(r, ("f", name, n), nf_one())
    return [r]


def _flat(r):
    """a sum to the power one (two square roots multiplied, say) is expanded"""
    for k, (b, e) in r.facs.items():
        if b[0] == "n" and e.const() == (1, 0) and not (len(b[1].items) == 1 and not b[1].items[0][0].facs):
            r2 = fresh_copy(r)
            for k2, (b2, e2) in r2.facs.items():
                if b2[0] == "n" and e2.const() == (1, 0) and not (len(b2[1].items) == 1 and not b2[1].items[0][0].facs):
                    break
            else:
                return None
            del r2.facs[k2]
            # r2 keeps its names: the sum may mention its bound variables
            return [raw_mul(r2, raw_of(m, c)) for m, c in b2[1].items]
    return None


# -- simplification ---------------------------------------------------------
def simplify_raw(r):
    """apply guards, eliminate deltas, normalise ranges. Returns list of raws."""
    if r.c == (0, 0):
        return []
    work = [r]
    out = []
    steps = 0
    while work:
        r = work.pop()
        steps += 1
        if steps > 500:
            raise Unsupported("simplification does not terminate")
        nxt = _flat(r) or _simp1(r)
        if nxt is None:
            out.append(r)
        else:
            work.extend(nxt)
    return out


def _dep(r, v, skip_guards=False):
    for b, e in r.facs.values():
        if v in base_vars(b) or v in e.vars():
            return True
    if not skip_guards:
        for g in r.guards:
            if v in g.vars():
                return True
    for w, h in r.bound.items():
        if w != v and v in h.vars():
            return True
    return False


def _elim(r, v, e):
    """bound v := e (with range guards)"""
    hi = r.bound[v]
    nb = {w: h for w, h in r.bound.items() if w != v}
    r2 = Raw(r.c, nb, list(r.guards) + [I.le(0, e), I.lt(e, hi)], dict(r.facs))
    return raw_subst(r2, {v: e})


def _simp1(r):
    # flatten guards
    gs = []
    changed = False
    for g in r.guards:
        if g.k == "and":
            gs.extend(g.a)
            changed = True
        elif g.k == "true":
            changed = True
        elif g.k == "false":
            return []
        else:
            gs.append(g)
    u = {g.key: g for g in gs}
    if changed or len(u) != len(r.guards):
        return [Raw(r.c, r.bound, list(u.values()), r.facs)]
    # delta elimination
    for g in r.guards:
        if g.k == "eq":
            for v in r.bound:
                if v in g.vars():
                    li = g.a.linear_in(v)
                    if li is not None and li[0] in (1, -1):
                        e = -li[1] if li[0] == 1 else li[1]
                        if any(w in e.vars() and v in r.bound[w].vars() for w in r.bound if w != v):
                            continue
                        rest = [x for x in r.guards if x.key != g.key]
                        return _elim(Raw(r.c, r.bound, rest, r.facs), v, e)
    c = ctx()
    # entailment / contradiction
    if r.guards:
        allg = sorted(r.guards, key=lambda g: g.key)
        for g in allg:
            others = [x for x in allg if x is not g]
            small = [x for x in others if x.vars() & _close(g, others)]
            if c.entails(g) or (small and c.entails(g, tuple(small))):
                return [Raw(r.c, r.bound, others, r.facs)]
            if c.entails(I.neg(g), tuple(small)):
                return []
    # range normalisation: guards bounding a bound variable
    for g in r.guards:
        if g.k == "le":
            for v in r.bound:
                if v in g.vars():
                    li = g.a.linear_in(v)
                    if li is None:
                        continue
                    others = [x for x in r.guards if x is not g]
                    if li[0] == 1 and not (li[1].vars() & r.bound.keys()):
                        # v <= -rest  ->  hi' = 1 - rest
                        nh = ix(1) - li[1]
                        if c.entails(I.le(nh, r.bound[v])) and c.entails(I.le(0, nh)):
                            nv = I.fresh("q", nh)
                            base = Raw(r.c, {w: h for w, h in r.bound.items() if w != v}, others, r.facs)
                            o = raw_subst(base, {v: nv})
                            for x in o:
                                x.bound = {**x.bound, nv.is_var(): nh}
                            return o
                    if li[0] == -1 and not (li[1].vars() & r.bound.keys()):
                        # v >= rest : shift
                        lo = li[1]
                        nh = r.bound[v] - lo
                        if c.entails(I.le(0, lo)) and c.entails(I.le(0, nh)):
                            nv = I.fresh("q", nh)
                            base = Raw(r.c, {w: h for w, h in r.bound.items() if w != v}, others, r.facs)
                            o = raw_subst(base, {v: nv + lo})
                            for x in o:
                                x.bound = {**x.bound, nv.is_var(): nh}
                            return o
    # reindexing by a permutation: sum_i f(p(i)) = sum_i f(i)
    for v, h in r.bound.items():
        nm = _perm_of(r, v)
        if nm is not None and (h.key == I.IFUN[nm]["perm"][0].key or c.entails(I.eq(h, I.IFUN[nm]["perm"][0]))):
            inv = I.IFUN[nm]["perm"][1]
            w = I.fresh("_q", h)
            base = Raw(r.c, {x: hh for x, hh in r.bound.items() if x != v}, r.guards, r.facs)
            o = raw_subst(base, {v: I.ifun(inv, w)})
            wn = w.is_var()
            if all(_no_fun(x, wn) for x in o):
                for x in o:
                    x.bound = {**x.bound, wn: h}
                return o
    # sum over the positions a mask selects: sum_{i<count} f(sel(i)) = sum_i [mask(i)] f(i)
    for v, h in r.bound.items():
        nm = _fun_of(r, v, "selects")
        if nm is None or h.key != I.IFUN[nm]["selects"][0].key:
            continue
        _, hi, mask, rank = I.IFUN[nm]["selects"]
        w = I.fresh("_q", hi)
        wn = w.is_var()
        base = Raw(r.c, {x: hh for x, hh in r.bound.items() if x != v}, r.guards, r.facs)
        o = raw_subst(base, {v: I.ifun(rank, w)})
        if all(rank not in (a[1] for a in _atoms_of(x) if a[0] == "f") and not any(rank in g.key for g in x.guards) for x in o):
            for x in o:
                x.bound = {**x.bound, wn: hi}
                x.guards = x.guards + [mask(w)]
            return [y for x in o for y in ([x] if x.guards[-1].k != "false" else [])]
    # empty or trivial sums
    for v, h in r.bound.items():
        hc = h.const
        if hc is not None and hc <= 0:
            return []
        if hc is not None and hc <= 4:
            o = []
            for k in range(hc):
                base = Raw(r.c, {w: hh for w, hh in r.bound.items() if w != v}, r.guards, r.facs)
                o.extend(raw_subst(base, {v: ix(k)}))
            return o
        if not _dep(r, v):
            base = Raw(r.c, {w: hh for w, hh in r.bound.items() if w != v}, r.guards, r.facs)
            return [raw_mul(base, x) for x in int_raws(h)]
    return None


def _atoms_of(r):
    """index function atoms of a raw monomial"""
    seen = []

    def nfa(n):
        for m, _ in n.items:
            for b, e in m.facs:
                base(b)
                nfa(e)
            for g in m.guards:
                pass

    def base(b):
        if b[0] == "a":
            for x in b[2]:
                seen.extend(x.atoms())
        elif b[0] == "f":
            for x in b[2]:
                nfa(x)
        elif b[0] == "n":
            nfa(b[1])
        elif b[0] == "i":
            seen.extend(IX({(b[1],): 1}).atoms())

    for b, e in r.facs.values():
        base(b)
        nfa(e)
    return seen


def _fun_of(r, v, what):
    for a in _atoms_of(r):
        if a[0] == "f" and a[1] in I.IFUN and I.IFUN[a[1]].get(what) and a[2][0].is_var() == v:
            return a[1]
    return None


def _perm_of(r, v):
    for a in _atoms_of(r):
        if a[0] == "f" and a[1] in I.IFUN and I.IFUN[a[1]].get("perm") and a[2][0].is_var() == v:
            return a[1]
    return None


def _no_fun(r, w):
    return not any(a[0] == "f" and w in IX({(a,): 1}).vars() and I.IFUN.get(a[1], {}).get("perm") for a in _atoms_of(r)) and not any(w in g.vars() and "'" in g.key for g in r.guards)


def _close(g, others):
    return g.vars()


# -- canonicalisation -------------------------------------------------------
def canon(r):
    lvl = max([base_lvl(b) for b, _ in r.facs.values()] + [e.lvl for _, e in r.facs.values()], default=0)
    guards = sorted(r.guards, key=lambda g: g.key)
    facs = list(r.facs.values())
    if not r.bound:
        return Mono((), tuple(guards), tuple(sorted(facs, key=fkey)), lvl)
    L = lvl + 1
    names = list(r.bound)
    if len(names) > 12:
        raise Unsupported("too many bound indices")
    # colour refinement
    col = {v: "h" + r.bound[v].key for v in names}

    def mark(v, colours):
        d = {}
        for w in names:
            d[w] = I.ivar("*") if w == v else I.ivar("%" + colours[w])
        ks = []
        for b, e in facs:
            if v in base_vars(b) or v in e.vars():
                ks.append(fkey((_bsub(b, d), nf_subst(e, d))))
        for g in guards:
            if v in g.vars():
                ks.append(g.subst(d).key)
        return "|".join(sorted(ks))

    import hashlib

    for _ in range(3):
        new = {}
        cc = {v: str(int(hashlib.md5(col[v].encode()).hexdigest()[:8], 16)) for v in names}
        for v in names:
            new[v] = r.bound[v].key + "//" + mark(v, cc)
        if len(set(new.values())) == len(set(col.values())) and _ > 0:
            col = new
            break
        col = new
    groups = {}
    for v in names:
        groups.setdefault(col[v], []).append(v)
    orders = [[]]
    nperm = 1
    for k in sorted(groups):
        g = groups[k]
        ps = list(itertools.permutations(g)) if nperm * _fact(len(g)) <= 720 else [tuple(g)]
        nperm *= len(ps)
        orders = [o + list(p) for o in orders for p in ps]
    best = None
    for o in orders:
        d = {v: I.ivar(f"%{L}.{i}") for i, v in enumerate(o)}
        for i, v in enumerate(o):
            I.RANGE[f"%{L}.{i}"] = (ix(0), None)
        fs = sorted(((_bsub(b, d), nf_subst(e, d)) for b, e in facs), key=fkey)
        gs = sorted((g.subst(d) for g in guards), key=lambda g: g.key)
        m = Mono(tuple((d[v].is_var(), r.bound[v].subst(d)) for v in o), tuple(gs), tuple(fs), L)
        if best is None or m.key < best.key:
            best = m
    return best


def _bsub(b, d):
    nb = base_subst(b, d)
    if nb[0] == "ix":
        t = nb[1].t
        if len(t) == 1:
            ((m, c),) = t.items()
            if c == 1 and len(m) == 1:
                return ("i", m[0])
        return ("n", finalize(int_raws(nb[1]), simp=False))
    return nb


def _fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


def finalize(rs, simp=True):
    acc = {}
    for r0 in rs:
        for r in simplify_raw(r0) if simp and I.CTX else [r0]:
            if r.c == (0, 0):
                continue
            m = canon(r)
            if m.key in acc:
                c = cadd(acc[m.key][1], r.c)
                acc[m.key] = (m, c)
            else:
                acc[m.key] = (m, r.c)
    items = [(m, c) for m, c in acc.values() if c != (0, 0)]
    return NF(items)


def nf(t):
    """normal form with hypotheses applied (memoised per context)"""
    memo = ctx().memo
    k = ("nf", t.key, len(ctx().rules), len(ctx().assume_list))
    if k in memo:
        return memo[k]
    n = rewrite(finalize(raws(t)))
    memo[k] = n
    return n


# --------------------------------------------------------------------------
# hypotheses: oriented rules on sub-networks
# --------------------------------------------------------------------------
class Rule:
    """sum over pb of prod(facs) (with free pattern vars pf) == rhs(Term in pf).
    facs: list of (base, int exponent)"""

    def __init__(self, name, pf, pb, facs, rhs, cond=None):
        self.name, self.pf, self.pb, self.facs, self.rhs = name, pf, pb, facs, rhs
        self.cond = cond
        self.rest = None
        self.noguard = False  # recurrences unfold only where the assumptions alone place the index
        self.order = sorted(range(len(facs)), key=lambda i: (facs[i][0][0] != "a",))


def exclusive(gs):
    c = ctx()
    return all(not c.sat(list(gs[i]) + list(gs[j])) for i in range(len(gs)) for j in range(i))


def block_cases(items, free, conds, depth=0):
    """split a sum into the blocks its index comparisons distinguish: [(items without those guards, conditions)]"""
    g = next((g for m, _ in items for g in m.guards if g.k == "le" and g.vars() & free and not g.vars() & {v for v, _ in m.bound}), None)
    if g is None or depth > 3:
        return [(items, conds)]
    out = []
    for h in (g, I.neg(g)):
        cs = conds + [h]
        if not ctx().sat(cs):
            continue
        rs = []
        for m, c in items:
            r = raw_of(m, c)
            if not ctx().sat(cs + list(r.guards) + [I.conj([I.le(0, I.ivar(v)), I.lt(I.ivar(v), q)]) for v, q in r.bound.items()]):
                continue
            rs.append(Raw(r.c, r.bound, [q for q in r.guards if not ctx().entails(q, tuple(cs))], r.facs))
        out += block_cases(finalize(rs).items, free, cs, depth + 1)
    return out


def make_rule(name, free, lhs, rhs, conjugate=True, multi=False, frac=False):
    """lhs must normalise to a single monomial in the free vars. Returns rule list."""
    out = []
    pairs = [(lhs, rhs)]
    if conjugate:
        l2, r2 = conj(lhs), conj(rhs)
        if l2.key != lhs.key:
            pairs.append((l2, r2))
    for i, (l, rr) in enumerate(pairs):
        n = nf(l)
        todo = []  # (monomial, coefficient, rest, condition)
        if len(n.items) == 1 and not n.items[0][0].guards:
            todo.append((*n.items[0], None, None))
        elif multi and n.items and all(m.guards and all(not (g.vars() & {v for v, _ in m.bound}) for g in m.guards) for m, _ in n.items) and exclusive([m.guards for m, _ in n.items]):
            # block matrices: one rule per block
            todo = [(m, c, None, I.conj(list(m.guards))) for m, c in n.items]
        elif multi and len(n.items) > 1:
            for items, conds in block_cases(n.items, {v.is_var() for v in free}, []):
                if not items:
                    continue
                cond = I.conj(conds) if conds else None
                if len(items) == 1:
                    if not items[0][0].guards:
                        todo.append((*items[0], None, cond))
                    continue
                # several monomials (stacked matrices): orient on the last one summed over an index, the others move to the right
                cand = [x for x in items if x[0].bound and not x[0].guards]
                if cand:
                    pick = cand[-1]
                    ci = cpow(cmul(pick[1], (Fraction(-1), Fraction(0))), -1)
                    todo.append((*pick, NF([(mm, cmul(cc, ci)) for mm, cc in items if mm is not pick[0]]), cond))
        if not todo:
            return None
        for m, c, rest, cond in todo:
            r = raw_of(m, c)
            facs = []
            moved = []
            for b, e in r.facs.values():
                ec = e.const()
                if ec is None:
                    facs.append((b, e))  # symbolic exponent: matched as a whole
                    continue
                if ec[1] != 0 or ec[0].denominator != 1:
                    if not frac:
                        return None
                    if ec[1] == 0 and ec[0] < 0 and b[0] == "a" and not any(x.vars() & set(r.bound) for x in b[2]):
                        # a divisor outside the sums: multiply both sides by it
                        moved.append((b, e))
                        continue
                    facs.append((b, e))
                    continue
                facs.append((b, int(ec[0])))
            if not facs:
                return None
            right = mul(Term("num", cpow(c, -1)), rr)
            for b, e in moved:
                x = atom(b[1], *b[2])
                right = mul(right, power(conj(x) if b[3] else x, Term("num", (-e.const()[0], Fraction(0)))))
            ru = Rule(name + ("*" if i else ""), [(v.is_var(), I.RANGE[v.is_var()][1]) for v in free], dict(r.bound), facs, right, cond)
            ru.rest = rest
            out.append(ru)
    # drop duplicate (self-conjugate) rules
    seen = {}
    res = []
    for ru in out:
        k = (ru.cond.key if ru.cond is not None else "",) + tuple(sorted(base_key(b) + (str(e) if isinstance(e, int) else e.key) for b, e in ru.facs))
        if k not in seen:
            seen[k] = 1
            res.append(ru)
    return res


def add_rules(rules):
    if rules:
        ctx().rules.extend(rules)


def unify(pat, tgt, env, pvars):
    """pat IX over pattern vars; env: var->IX. mutate-free: returns env or None"""
    free = [v for v in pat.vars() if v in pvars]
    if not free:
        return env if pat.key == tgt.key or ctx().entails(I.eq(pat, tgt)) else None
    unbound = [v for v in free if v not in env]
    if not unbound:
        p = pat.subst(env)
        return env if p.key == tgt.key or (p.vars() <= tgt.vars() | p.vars() and ctx().entails(I.eq(p, tgt))) else None
    if len(unbound) > 1:
        return None
    v = unbound[0]
    p = pat.subst(env)
    li = p.linear_in(v)
    if li is None and len(p.t) == 1 and len(tgt.t) == 1:
        # the same function applied to a pattern: match its arguments
        ((pm, pc),), ((tm, tc),) = p.t.items(), tgt.t.items()
        if pc == tc and len(pm) == 1 and len(tm) == 1 and pm[0][0] == "f" == tm[0][0] and pm[0][1] == tm[0][1] and len(pm[0][2]) == len(tm[0][2]):
            e = env
            for x, y in zip(pm[0][2], tm[0][2]):
                e = unify(x, y, e, pvars)
                if e is None:
                    return None
            return e
    if li is None or li[0] not in (1, -1):
        return None
    e = tgt - li[1] if li[0] == 1 else li[1] - tgt
    return {**env, v: e}


def nf_match(pn, tn, env, pvars):
    """match of opaque NF arguments: only renaming of pattern free vars"""
    if pn.key == tn.key:
        return env
    if not (pn.vars() & pvars):
        return None
    # try to bind the pattern's variables by structural walk on atoms
    if len(pn.items) != len(tn.items):
        return None
    e = env
    for (pm, pc), (tm, tc) in zip(pn.items, tn.items):
        if pc != tc or len(pm.facs) != len(tm.facs) or len(pm.bound) != len(tm.bound):
            return None
        for (pb, pe), (tb, te) in zip(pm.facs, tm.facs):
            if pb[0] != tb[0]:
                return None
            if pb[0] == "a":
                if pb[1] != tb[1] or pb[3] != tb[3] or len(pb[2]) != len(tb[2]):
                    return None
                for x, y in zip(pb[2], tb[2]):
                    e = unify(x, y, e, pvars)
                    if e is None:
                        return None
            elif pb[0] == "i":
                e = unify(IX({(pb[1],): 1}), IX({(tb[1],): 1}), e, pvars)
                if e is None:
                    return None
            elif pb[0] == "f":
                if pb[1] != tb[1] or len(pb[2]) != len(tb[2]):
                    return None
                for x, y in zip(pb[2], tb[2]):
                    e = nf_match(x, y, e, pvars)
                    if e is None:
                        return None
            else:
                e = nf_match(pb[1], tb[1], e, pvars)
                if e is None:
                    return None
            if pe.key != te.key:
                return None
    d = {v: x for v, x in e.items()}
    return e if nf_subst(pn, d).key == tn.key else None


def try_rule(rule, r):
    """r: Raw; returns list of raws after one application or None"""
    pvars = set(rule.pb) | {v for v, _ in rule.pf}
    tf = list(r.facs.items())
    need = rule.facs

    def rec(i, env, used):
        if i == len(need):
            return finish(env, used)
        b, e = need[rule.order[i]]
        for k, (tb, te) in tf:
            if tb[0] != b[0]:
                continue
            if tb[0] in ("a", "f") and (tb[1] != b[1] or (tb[0] == "a" and tb[3] != b[3])):
                continue
            tc = te.const()
            whole = not isinstance(e, int)
            if whole:
                if (tc is None) != (e.const() is None) or k in used:
                    continue
            else:
                if tc is None or tc[1] != 0 or tc[0].denominator != 1:
                    continue
                avail = int(tc[0]) - used.get(k, 0)
                if e > 0 and avail < e or e < 0 and avail > e:
                    continue
            if tb[0] == "a":
                if len(tb[2]) != len(b[2]):
                    continue
                en = env
                for x, y in zip(b[2], tb[2]):
                    en = unify(x, y, en, pvars)
                    if en is None:
                        break
            elif tb[0] == "i":
                en = unify(IX({(b[1],): 1}), IX({(tb[1],): 1}), env, pvars)
            elif tb[0] == "f":
                en = env
                if len(tb[2]) != len(b[2]):
                    continue
                for x, y in zip(b[2], tb[2]):
                    en = nf_match(x, y, en, pvars)
                    if en is None:
                        break
            else:
                en = nf_match(b[1], tb[1], env, pvars)
            if en is None:
                continue
            if whole:
                en = nf_match(e, te, en, pvars)
                if en is None:
                    continue
                res = rec(i + 1, en, {**used, k: "all"})
            else:
                res = rec(i + 1, en, {**used, k: used.get(k, 0) + e})
            if res is not None:
                return res
        return None

    def finish(env, used):
        tb = []
        for v, h in rule.pb.items():
            if v not in env:
                return None
            w = env[v].is_var()
            if w is None or w not in r.bound or w in tb:
                return None
            tb.append(w)
        for v, h in rule.pb.items():
            w = env[v].is_var()
            hh = h.subst(env)
            if hh.key != r.bound[w].key and not ctx().entails(I.eq(hh, r.bound[w])):
                return None
        rest = {}
        for k, (b, e) in r.facs.items():
            if used.get(k) == "all":
                continue
            if k in used:
                c = int(e.const()[0]) - used[k]
                if c:
                    rest[k] = (b, nf_const((Fraction(c), Fraction(0))))
            else:
                rest[k] = (b, e)
        nb = {w: h for w, h in r.bound.items() if w not in tb}
        for w in tb:
            if any(w in g.vars() for g in r.guards):
                return None
            if any(w in base_vars(b) or w in e.vars() for b, e in rest.values()):
                return None
            if any(w in h.vars() for h in nb.values()):
                return None
        for v, h in rule.pf:
            if v not in env:
                return None
            x = env[v]
            if x.vars() & set(tb):
                return None
            if h is not None:
                cnd = I.conj([I.le(0, x), I.lt(x, h.subst(env))])
                if not ctx().entails(cnd) and (rule.noguard or not ctx().entails(cnd, tuple(g for g in r.guards if g.vars() & x.vars()))):
                    return None
        if rule.cond is not None:
            cnd = rule.cond.subst(env)
            if not ctx().entails(cnd) and not ctx().entails(cnd, tuple(r.guards)):
                return None
        base = Raw(r.c, nb, r.guards, rest)
        rh = raws(rule.rhs.subst({v: env[v] for v, _ in rule.pf}))
        if rule.rest is not None:
            rh = rh + [raw_of(m, c) for m, c in nf_subst(rule.rest, {v: env[v] for v, _ in rule.pf}).items]
        return [raw_mul(base, fresh_copy(x)) for x in rh]

    return rec(0, {}, {})


RULE_USES = {}


def rewrite(n, limit=200):
    rules = ctx().rules
    if not rules:
        return n
    done = []
    work = [raw_of(m, c) for m, c in n.items]
    steps = 0
    changed = False
    while work:
        r = work.pop()
        names = {b[1] for b, _ in r.facs.values() if b[0] == "a"}
        for rule in rules:
            if not all(b[0] != "a" or b[1] in names for b, _ in rule.facs):
                continue
            res = try_rule(rule, r)
            if res is not None:
                steps += 1
                RULE_USES[rule.name] = RULE_USES.get(rule.name, 0) + 1
                if steps > limit:
                    raise Unsupported("rewriting does not terminate")
                changed = True
                for x in res:
                    work.extend(simplify_raw(x))
                break
        else:
            done.append(r)
    if not changed:
        return n
    return finalize(done)


# --------------------------------------------------------------------------
# equality
# --------------------------------------------------------------------------
def free_guards(n):
    out = {}
    for m, _ in n.items:
        bv = {v for v, _ in m.bound}
        for g in m.guards:
            if not (g.vars() & bv):
                out[g.key] = g
    return out


def prove_zero(n, depth=0, done={}):
    """n is an NF; True if it is zero in every case of its free guards"""
    if not n.items:
        return True, None
    if any(v.startswith("_q~") for v in n.vars()):
        raise AssertionError("a bound variable escaped")
    if depth > 12:
        return False, n
    gs = free_guards(n)
    if not gs:
        n2 = clear_denominators(n)
        if n2 is None:
            n2 = expand_abs(n)
        if n2 is None:
            n2 = peel(n)
        if n2 is None:
            n2, done = forced_equality(n, done)
        if n2 is None:
            n2 = congruent(n)
        if n2 is not None:
            return prove_zero(n2, depth + 1, done)
        return False, n
    g = gs[sorted(gs)[0]]
    c = ctx()
    save, cache = list(c.assume_list), c.cache
    for cas in (g, I.neg(g)):
        if not c.sat([cas]):
            continue
        c.assume_list = save + [cas]
        c.cache = {}
        c.temp += 1
        try:
            n2 = rewrite(finalize([raw_of(m, k) for m, k in n.items]))
            ok, why = prove_zero(n2, depth + 1, done)
        finally:
            c.temp -= 1
            c.assume_list, c.cache = save, cache
        if not ok:
            return False, why
    return True, None


def forced_equality(n, done):
    """an assumed inequality a <= 0 whose converse is entailed is an equality: substitute it"""
    c = ctx()
    nv = n.vars()
    for g in c.assume_list:
        if g.k not in ("le", "eq") or not g.vars():
            continue
        a = g.a.subst(done) if done else g.a
        if not a.vars() & nv:
            continue
        for v in sorted(a.vars() & nv):
            li = a.linear_in(v)
            if li is None or li[0] not in (1, -1) or v in li[1].vars():
                continue
            if not c.entails(I.eq(g.a, 0)):
                break
            e = -li[1] if li[0] == 1 else li[1]
            d2 = {w: x.subst({v: e}) for w, x in done.items()}
            d2[v] = e
            n2 = nf_subst(n, {v: e})
            n2 = rewrite(finalize([raw_of(m, k) for m, k in n2.items]))
            if n2.key != n.key:
                return n2, d2
        else:
            # not linear in a variable (p*q <= 0 ...): a factor may be forced to zero
            for v in sorted(a.vars() & nv):
                if v in done or not c.entails(I.eq(I.ivar(v), 0)):
                    continue
                z = I.ix(0)
                n2 = nf_subst(n, {v: z})
                n2 = rewrite(finalize([raw_of(m, k) for m, k in n2.items]))
                if n2.key != n.key:
                    return n2, {**{w: x.subst({v: z}) for w, x in done.items()}, v: z}
    vs = sorted(v for v in nv if v not in done)
    if len(vs) <= 8:
        for i, v in enumerate(vs):
            for w in vs[:i]:
                z = I.ivar(w)
                if c.entails(I.eq(I.ivar(v), z)):
                    n2 = nf_subst(n, {v: z})
                    n2 = rewrite(finalize([raw_of(m, k) for m, k in n2.items]))
                    if n2.key != n.key:
                        return n2, {**{u: x.subst({v: z}) for u, x in done.items()}, v: z}
    return None, done


def congruent(n):
    """entries of one array at indices that are provably equal are the same entry"""
    c = ctx()
    raws = [raw_of(m, k) for m, k in n.items]
    seen = {}
    for r in raws:
        for b, e in r.facs.values():
            if b[0] == "a" and b[2] and not any(set(x.vars()) & set(r.bound) for x in b[2]):
                seen.setdefault((b[1], len(b[2])), {})[tuple(x.key for x in b[2])] = b[2]
    for (nm, _), d in sorted(seen.items()):
        ks = sorted(d)
        for i in range(len(ks)):
            for j in range(i + 1, len(ks)):
                p, q = d[ks[i]], d[ks[j]]
                if not c.entails(I.conj([I.eq(x, y) for x, y in zip(p, q)])):
                    continue
                out = []
                for r in raws:
                    r2 = Raw(r.c, dict(r.bound), list(r.guards), {})
                    for b, e in r.facs.values():
                        if b[0] == "a" and b[1] == nm and tuple(x.key for x in b[2]) == ks[j]:
                            b = ("a", nm, p) + tuple(b[3:])
                        put(r2, b, e)
                    out.append(r2)
                return rewrite(finalize(out))
    return None


def conj_raw(r):
    out = Raw((r.c[0], -r.c[1]), dict(r.bound), list(r.guards), {})
    for b, e in r.facs.values():
        ec = e.const()
        if ec is None or ec[1] != 0 or ec[0].denominator != 1:
            raise Unsupported("conjugate of a power")
        if b[0] == "a" and b[1] not in REAL:
            b = ("a", b[1], b[2], not b[3])
        elif b[0] == "f" and b[1] == "exp":
            b = ("f", "exp", (conj_nf(b[2][0]),)) + tuple(b[3:])
        elif b[0] == "f" and b[1] != "abs":
            b = ("f", b[1], b[2], not (len(b) > 3 and b[3]))
        elif b[0] == "n":
            b = ("n", conj_nf(b[1]))
        put(out, b, e)
    return out


def conj_nf(n):
    return finalize([conj_raw(raw_of(m, c)) for m, c in n.items], simp=False)


def expand_abs(n):
    """|z|^2 = z conj z inside a product"""
    for j, (m, c) in enumerate(n.items):
        for b, e in m.facs:
            ec = e.const()
            if b[0] == "f" and b[1] == "abs" and ec is not None and ec[1] == 0 and ec[0].denominator == 1 and ec[0] >= 2:
                out = []
                for m2, c2 in n.items:
                    r = raw_of(m2, c2)
                    hit = next((k for k, (b2, e2) in r.facs.items() if b2[0] == "f" and b2[1] == "abs" and e2.const() is not None and e2.const()[1] == 0 and e2.const()[0].denominator == 1 and e2.const()[0] >= 2), None)
                    if hit is None:
                        out.append(r)
                        continue
                    z = r.facs[hit][0][2][0]
                    put(r, r.facs[hit][0], nf_const((Fraction(-2), Fraction(0))))
                    try:
                        zs = [(raw_of(p, a), conj_raw(raw_of(q, d))) for p, a in z.items for q, d in z.items]
                    except Unsupported:
                        return None
                    out.extend(raw_mul(raw_mul(r, x), y) for x, y in zs)
                return rewrite(finalize(out))
    return None


def peel(n):
    """sums over h+1 and over h of the same terms: split off the last one"""
    his = {}
    for m, _ in n.items:
        for v, h in m.bound:
            his[h.key] = h
    for m, c in n.items:
        for v, h in m.bound:
            if any(v in h2.vars() for _, h2 in m.bound):
                continue
            for h2 in his.values():
                d = (h - h2).const
                if d != 1 or not ctx().entails(I.le(0, h2)):
                    continue
                out = []
                for m2, c2 in n.items:
                    if m2 is not m:
                        out.append(raw_of(m2, c2))
                        continue
                    pos = [x for x, _ in m.bound].index(v)
                    r = raw_of(m2, c2)
                    w = list(r.bound)[pos]
                    last = Raw(r.c, {x: y for x, y in r.bound.items() if x != w}, r.guards, r.facs)
                    out.extend(raw_subst(last, {w: h2}))
                    r.bound[w] = h2
                    I.RANGE[w] = (ix(0), h2)
                    out.append(r)
                return rewrite(finalize(out))
    return None


def clear_denominators(n):
    """n multiplied by a denominator (a sum raised to a negative integer power), which is nonzero by assumption"""
    for m, _ in n.items:
        for b, e in m.facs:
            ec = e.const()
            if b[0] == "n" and ec is not None and ec[1] == 0 and ec[0].denominator == 1 and ec[0] < 0:
                bv = {v for v, _ in m.bound}
                if b[1].vars() & bv or len(b[1].items) < 1:
                    continue
                k = base_key(b)
                out = []
                for m2, c2 in n.items:
                    r = raw_of(m2, c2)
                    if k in r.facs:
                        put(r, b, nf_one())
                        out.append(r)
                    else:
                        for m3, c3 in b[1].items:
                            out.append(raw_mul(r, raw_of(m3, c3)))
                return rewrite(finalize(out))
    return None


def prove_eq(a, b):
    """(ok, residual) : a == b under the current context"""
    if a.key == b.key:
        return True, None
    n = rewrite(finalize(raws(sub(a, b))))
    ok, why = prove_zero(n)
    if ok or not ctx().unfolds:
        return ok, why
    # second attempt: factorised matrices replaced by the product of their factors
    c = ctx()
    save = c.rules
    drop = {x for x, _ in c.unfolds}
    c.rules = [r for _, r in c.unfolds] + [r for r in save if r.name.rstrip("*") not in drop]
    try:
        return True if prove_zero(rewrite(finalize(raws(sub(a, b)))))[0] else False, why
    except Unsupported:
        return False, why
    finally:
        c.rules = save


# --------------------------------------------------------------------------
# translation of real-valued terms to z3 (for comparisons of elements)
# --------------------------------------------------------------------------
def _zapp(name, args, side):
    side.append(("r", name, tuple(args)))
    if not args:
        return z3.Real(name)
    return z3.Function(name, *([z3.IntSort()] * len(args)), z3.RealSort())(*[I.zix(x) for x in args])


def _sum_over(t, v):
    """is there a sum inside t whose value changes with v?"""
    if v not in t.vars():
        return False
    op, a = t.op, t.a
    if op == "sum":
        return True
    if op in ("add", "mul"):
        return any(_sum_over(x, v) for x in a)
    if op == "conj":
        return _sum_over(a, v)
    if op == "ite":
        return re.search(r"\bS<", a[0].key) is not None or _sum_over(a[1], v) or _sum_over(a[2], v)
    if op == "pow":
        return _sum_over(a[0], v) or _sum_over(a[1], v)
    if op == "fn":
        return any(_sum_over(x, v) for x in a[1])
    return False


def zreal(t, side):
    op, a = t.op, t.a
    if op == "num":
        return z3.RealVal(str(a[0]))
    if op == "int":
        side.append(a)
        return z3.ToReal(I.zix(a))
    if op == "atom":
        if is_real(t):
            return _zapp(a[0], a[1], side)
        return _zapp("re!" + a[0], a[1], side)
    if op == "add":
        return z3.Sum([zreal(x, side) for x in a])
    if op == "mul" and all(is_real(x) for x in a):
        return z3.Product([zreal(x, side) for x in a])
    if op == "mul" and a[0].op == "num" and len(a) > 1:
        x, y = a[0].a
        rest = mul(*a[1:])
        return z3.RealVal(str(x)) * zreal(rest, side) - z3.RealVal(str(y)) * zimag(rest, side)
    if op == "conj":
        return zreal(a, side)
    if op == "ite":
        return z3.If(I.zcond(a[0], side), zreal(a[1], side), zreal(a[2], side))
    if op == "pow" and is_real(a[0]):
        e = const_of(a[1])
        if e is not None and e[1] == 0 and e[0].denominator == 1 and 0 < e[0] <= 4:
            z = zreal(a[0], side)
            return z3.Product([z] * int(e[0]))
        if e is not None and e == (-1, 0):
            z = zreal(a[0], side)
            return 1 / z
    if op == "sum" and is_real(t) and not _sum_over(a[2], a[0]):
        # a function of its bound: congruent under equal bounds
        I.RANGE.setdefault("@B", (ix(0), None))
        return _opaque("re", Term("sum", (a[0], I.ivar("@B"), a[2])), side, {"@B": a[1]})
    # opaque: canonical name with free variables as arguments
    return _opaque("re", t, side)


NAMES = {}


def _opaque(tag, t, side, args={}):
    vs = sorted(t.vars())
    ren = {v: I.ivar(f"@{i}") for i, v in enumerate(vs)}
    for i in range(len(vs)):
        I.RANGE.setdefault(f"@{i}", (ix(0), None))
    k = NAMES.get(t.key)
    if k is None:
        if len(t.key) > 3000:  # not worth normalising
            k = t.subst(ren).key
        else:
            try:
                k = finalize(raws(t.subst(ren)), simp=False).key
            except Unsupported:
                k = t.subst(ren).key
        if len(NAMES) > 5000:
            NAMES.clear()
        NAMES[t.key] = k
    nm = f"{tag}!{{{k}}}"
    _ifuns(t, side)
    if t.op == "fn" and t.a[0] == "abs" or (is_nonneg(t) and tag == "re"):
        NONNEG.add(nm)
        I.REALAX.setdefault(nm, lambda args, nm=nm: _nonneg_ax(nm, args))
    return _zapp(nm, [args[v] if v in args else I.ivar(v) for v in vs], side)


def _ifuns(t, side):
    """index function applications inside an opaque term (their axioms are needed)"""
    op, a = t.op, t.a
    if op == "atom":
        side.extend(x for x in a[1] if any(y[0] == "f" for y in x.atoms()))
    elif op == "int":
        side.append(a)
    elif op in ("add", "mul"):
        for x in a:
            _ifuns(x, side)
    elif op == "conj":
        _ifuns(a, side)
    elif op == "pow":
        _ifuns(a[0], side)
    elif op == "fn":
        for x in a[1]:
            _ifuns(x, side)


NONNEG = set()


def _nonneg_ax(nm, args):
    z = z3.Real(nm) if not args else z3.Function(nm, *([z3.IntSort()] * len(args)), z3.RealSort())(*[I.zix(x) for x in args])
    return [(z >= 0, [])]


def zimag(t, side):
    if is_real(t):
        return z3.RealVal(0)
    op, a = t.op, t.a
    if op == "num":
        return z3.RealVal(str(a[1]))
    if op == "atom":
        return _zapp("im!" + a[0], a[1], side)
    if op == "add":
        return z3.Sum([zimag(x, side) for x in a])
    if op == "mul" and a[0].op == "num" and len(a) > 1:
        x, y = a[0].a
        rest = mul(*a[1:])
        return z3.RealVal(str(x)) * zimag(rest, side) + z3.RealVal(str(y)) * zreal(rest, side)
    if op == "conj":
        return -zimag(a, side)
    if op == "ite":
        return z3.If(I.zcond(a[0], side), zimag(a[1], side), zimag(a[2], side))
    return _opaque("im", t, side)
