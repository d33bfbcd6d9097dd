"""Symbolic integers (index arithmetic), conditions, and the path context.

IX   : integer polynomial over atoms; atoms are variables or function
       applications (div, mod, uninterpreted index functions).
Cond : boolean combination of IX comparisons, uninterpreted boolean atoms and
       comparisons of element terms.
Ctx  : one execution path: assumptions, decisions, solver.
"""
import itertools
import time
from fractions import Fraction

import z3


class Unsupported(Exception):
    """The engine has no model for a construct: never a verdict."""


class PathAbort(BaseException):
    """Raised to leave an infeasible path."""


# --------------------------------------------------------------------------
# integer expressions
# --------------------------------------------------------------------------
_counter = itertools.count()


class IX:
    __slots__ = ("t", "key", "_h", "_vars", "_sk")

    def __init__(self, t):
        self.t = t
        self._vars = None
        self._sk = None
        if not t:
            self.key = "0"
        else:
            self.key = "+".join(
                (str(c) + "*" if c != 1 or not m else "")
                + ("*".join(a_key(a) for a in m) if m else "1")
                for m, c in sorted(t.items(), key=lambda kv: mono_key(kv[0]))
            )
        self._h = hash(self.key)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, IX) and self.key == o.key

    def __repr__(self):
        return self.key

    # -- structure
    @property
    def const(self):
        """python int if constant else None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def is_var(self):
        if len(self.t) == 1:
            ((m, c),) = self.t.items()
            if c == 1 and len(m) == 1 and m[0][0] == "v":
                return m[0][1]
        return None

    def vars(self):
        if self._vars is None:
            s = set()
            for m in self.t:
                for a in m:
                    if a[0] == "v":
                        s.add(a[1])
                    else:
                        for x in a[2]:
                            s |= x.vars()
            self._vars = frozenset(s)
        return self._vars

    def atoms(self):
        for m in self.t:
            for a in m:
                yield a
                if a[0] == "f":
                    for x in a[2]:
                        yield from x.atoms()

    # -- arithmetic
    def __add__(self, o):
        o = ix(o)
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return IX(r)

    def __neg__(self):
        return IX({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-ix(o))

    def __mul__(self, o):
        o = ix(o)
        r = {}
        for m, c in self.t.items():
            for m2, c2 in o.t.items():
                k = tuple(sorted(m + m2, key=a_key))
                n = r.get(k, 0) + c * c2
                if n:
                    r[k] = n
                else:
                    r.pop(k, None)
        return IX(r)

    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        return ix(o) - self

    def subst(self, d):
        if not (self.vars() & d.keys()):
            return self
        r = IX({})
        for m, c in self.t.items():
            p = IX({(): c})
            for a in m:
                if a[0] == "v":
                    p = p * (d[a[1]] if a[1] in d else IX({(a,): 1}))
                else:
                    p = p * ifun(a[1], *[x.subst(d) for x in a[2]])
            r = r + p
        return r

    def linear_in(self, v):
        """(coef, rest) if self = coef*v + rest with integer coef and rest free of v; else None."""
        coef = 0
        rest = {}
        for m, c in self.t.items():
            if m == (("v", v),):
                coef = c
            elif any(v in IX({(a,): 1}).vars() for a in m):
                return None
            else:
                rest[m] = c
        return coef, IX(rest)


def a_key(a):
    if a[0] == "v":
        return a[1]
    return a[1] + "(" + ",".join(x.key for x in a[2]) + ")"


def mono_key(m):
    return (len(m), "*".join(a_key(a) for a in m))


def ix(x):
    if isinstance(x, IX):
        return x
    if isinstance(x, SymInt):
        return x.ix
    if isinstance(x, bool):
        return IX({(): int(x)} if x else {})
    if isinstance(x, int):
        return IX({(): x} if x else {})
    import numpy as np

    if isinstance(x, np.integer):
        return ix(int(x))
    raise Unsupported(f"not an integer expression: {x!r}")


def ivar(name):
    return IX({(("v", name),): 1})


RANGE = {}  # var name -> (lo, hi) : lo <= v < hi   (hi may be None)


def fresh(prefix="i", hi=None, lo=0):
    n = f"{prefix}~{next(_counter)}"
    RANGE[n] = (ix(lo), None if hi is None else ix(hi))
    return ivar(n)


# index functions: name -> dict(axioms=callable(args)->[Cond], rewrite=callable(args)->IX|None)
IFUN = {}


def ifun(name, *args):
    args = tuple(ix(a) for a in args)
    if name == "div":
        return idiv(*args)
    if name == "mod":
        return imod(*args)
    info = IFUN.get(name)
    if info and info.get("rewrite"):
        r = info["rewrite"](args)
        if r is not None:
            return r
    return IX({(("f", name, args),): 1})


def _split_by(a, b):
    """a = q*b + r collecting the monomials of a that contain the monomial b."""
    if len(b.t) != 1:
        return _long_div(a, b)
    ((bm, bc),) = b.t.items()
    q, r = {}, {}
    for m, c in a.t.items():
        mm = list(m)
        ok = c % bc == 0
        if ok:
            for x in bm:
                if x in mm:
                    mm.remove(x)
                else:
                    ok = False
                    break
        if ok:
            q[tuple(mm)] = q.get(tuple(mm), 0) + c // bc
        else:
            if not bm and bc:
                # constant divisor: split coefficient
                qq, rr = divmod(c, bc)
                if qq:
                    q[m] = qq
                if rr:
                    r[m] = rr
            else:
                r[m] = c
    return IX(q), IX(r)


def _long_div(a, b):
    """a = q*b + r by long division in a variable occurring once in b with coefficient +-1;
    None unless the remainder is zero or provably in [0, b)"""
    for lead, c in b.t.items():
        if len(lead) != 1 or lead[0][0] != "v" or c not in (1, -1):
            continue
        v = lead[0]
        if any(v in m for m in b.t if m != lead) or any(v[1] in IX({(x,): 1}).vars() for m in b.t if m != lead for x in m):
            continue
        q, r = IX({}), a
        for _ in range(40):
            top = max((m for m in r.t if v in m), key=lambda m: m.count(v), default=None)
            if top is None:
                break
            mm = list(top)
            mm.remove(v)
            f = IX({tuple(mm): r.t[top] * c})
            q, r = q + f, r - f * b
        else:
            continue
        if r.key == "0":
            return q, r
        cx = CTX[-1] if CTX else None
        if q.key != "0" and cx is not None and cx.quick(conj([le(0, r), lt(r, b)])):
            return q, r
    return None


def idiv(a, b):
    if a.const is not None and b.const is not None and b.const > 0:
        return ix(a.const // b.const)
    if b.const == 1:
        return a
    s = _split_by(a, b)
    if s is None:
        s = (ix(0), a)
    q, r = s
    if r.key == "0" and q.key != "0":
        return q
    c = CTX[-1] if CTX else None
    if c is not None and c.quick(conj([le(0, r), lt(r, b)])):
        return q
    if q.key != "0":
        return q + idiv(r, b)
    return IX({(("f", "div", (a, b)),): 1})


def imod(a, b):
    if a.const is not None and b.const is not None and b.const > 0:
        return ix(a.const % b.const)
    if b.const == 1:
        return ix(0)
    s = _split_by(a, b)
    if s is None:
        s = (ix(0), a)
    q, r = s
    if r.key == "0":
        return ix(0)
    c = CTX[-1] if CTX else None
    if c is not None and c.quick(conj([le(0, r), lt(r, b)])):
        return r
    return IX({(("f", "mod", (r, b)),): 1})


# --------------------------------------------------------------------------
# conditions
# --------------------------------------------------------------------------
class Cond:
    """kind: true,false,le(IX<=0),eq(IX==0),not,and,or,b(name,args),ec(op,l,r)"""

    __slots__ = ("k", "a", "key", "_h", "_vars")

    def __init__(self, k, a=()):
        self.k, self.a = k, a
        if k in ("le", "eq"):
            self.key = f"({a.key}{'<=0' if k=='le' else '==0'})"
        elif k in ("true", "false"):
            self.key = k
        elif k == "not":
            self.key = "!" + a.key
        elif k in ("and", "or"):
            self.key = "(" + f" {k} ".join(x.key for x in a) + ")"
        elif k == "b":
            self.key = f"{a[0]}[{','.join(x.key for x in a[1])}]"
        elif k == "ec":
            self.key = f"({a[1].key} {a[0]} {a[2].key})"
        self._h = hash(self.key)
        self._vars = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Cond) and self.key == o.key

    def __repr__(self):
        return self.key

    def vars(self):
        if self._vars is None:
            k, a = self.k, self.a
            if k in ("le", "eq"):
                s = a.vars()
            elif k == "not":
                s = a.vars()
            elif k in ("and", "or"):
                s = frozenset().union(*[x.vars() for x in a])
            elif k == "b":
                s = frozenset().union(*[x.vars() for x in a[1]]) if a[1] else frozenset()
            elif k == "ec":
                s = a[1].vars() | a[2].vars()
            else:
                s = frozenset()
            self._vars = s
        return self._vars

    def subst(self, d):
        if not (self.vars() & d.keys()):
            return self
        k, a = self.k, self.a
        if k == "le":
            return _le0(a.subst(d))
        if k == "eq":
            return _eq0(a.subst(d))
        if k == "not":
            return neg(a.subst(d))
        if k == "and":
            return conj([x.subst(d) for x in a])
        if k == "or":
            return disj([x.subst(d) for x in a])
        if k == "b":
            return Cond("b", (a[0], tuple(x.subst(d) for x in a[1])))
        if k == "ec":
            return ecmp(a[0], a[1].subst(d), a[2].subst(d))
        return self


TRUE, FALSE = Cond("true"), Cond("false")


def _le0(x):
    c = x.const
    if c is not None:
        return TRUE if c <= 0 else FALSE
    return Cond("le", x)


def _eq0(x):
    c = x.const
    if c is not None:
        return TRUE if c == 0 else FALSE
    if len(x.t) == 2:
        # permutations are injective
        (m1, c1), (m2, c2) = x.t.items()
        if c1 + c2 == 0 and abs(c1) == 1 and len(m1) == len(m2) == 1 and m1[0][0] == m2[0][0] == "f" and m1[0][1] == m2[0][1] and IFUN.get(m1[0][1], {}).get("perm"):
            return _eq0(ix(m1[0][2][0]) - ix(m2[0][2][0]))
    # canonical sign
    k2 = (-x)
    if k2.key < x.key:
        x = k2
    return Cond("eq", x)


def le(a, b):
    return _le0(ix(a) - ix(b))


def lt(a, b):
    return _le0(ix(a) - ix(b) + 1)


def eq(a, b):
    return _eq0(ix(a) - ix(b))


def neg(c):
    if c is TRUE or c.k == "true":
        return FALSE
    if c.k == "false":
        return TRUE
    if c.k == "not":
        return c.a
    if c.k == "le":
        return _le0(-c.a + 1)
    if c.k == "and":
        return disj([neg(x) for x in c.a])
    if c.k == "or":
        return conj([neg(x) for x in c.a])
    return Cond("not", c)


def conj(cs):
    out = []
    for c in cs:
        if c.k == "false":
            return FALSE
        if c.k == "true":
            continue
        if c.k == "and":
            out.extend(c.a)
        else:
            out.append(c)
    u = {}
    for c in out:
        u[c.key] = c
    if not u:
        return TRUE
    if len(u) == 1:
        return next(iter(u.values()))
    return Cond("and", tuple(u[k] for k in sorted(u)))


def disj(cs):
    out = []
    for c in cs:
        if c.k == "true":
            return TRUE
        if c.k == "false":
            continue
        if c.k == "or":
            out.extend(c.a)
        else:
            out.append(c)
    u = {}
    for c in out:
        u[c.key] = c
    if not u:
        return FALSE
    if len(u) == 1:
        return next(iter(u.values()))
    return Cond("or", tuple(u[k] for k in sorted(u)))


def ecmp(op, l, r):
    """comparison of element terms; evaluated when constant"""
    from . import term as T

    a, b = T.const_of(l), T.const_of(r)
    if a is not None and b is not None and a[1] == 0 and b[1] == 0:
        return TRUE if {"<": a[0] < b[0], "<=": a[0] <= b[0], "==": a[0] == b[0]}[op] else FALSE
    if op == "==" and a is not None and b is not None:
        return TRUE if a == b else FALSE
    # the sign of a square root is the sign of its argument
    for x, y, first in ((l, b, True), (r, a, False)):
        if y == (0, 0) and x.op == "pow" and T.const_of(x.a[1]) == (Fraction(1, 2), 0) and T.is_nonneg(x.a[0]):
            return ecmp(op, x.a[0], r) if first else ecmp(op, l, x.a[0])
    # a choice between constants compared with a constant
    for x, y, first in ((l, b, True), (r, a, False)):
        if y is not None and x.op == "ite" and T.const_of(x.a[1]) is not None and T.const_of(x.a[2]) is not None:
            yes, no = (ecmp(op, z, r) if first else ecmp(op, l, z) for z in x.a[1:])
            return disj([conj([x.a[0], yes]), conj([neg(x.a[0]), no])])
    # integer-valued comparisons become index comparisons
    ia, ib = T.as_index(l), T.as_index(r)
    if ia is not None and ib is not None:
        return {"<": lt, "<=": le, "==": eq}[op](ia, ib)
    return Cond("ec", (op, l, r))


# --------------------------------------------------------------------------
# z3 translation
# --------------------------------------------------------------------------
_zc = {}


def zix(x):
    r = _zc.get(x.key)
    if r is None:
        s = []
        for m, c in x.t.items():
            p = z3.IntVal(c)
            for a in m:
                p = p * zatom(a) if not (c == 1 and p.eq(z3.IntVal(1))) else zatom(a)
            s.append(p)
        r = z3.Sum(s) if s else z3.IntVal(0)
        _zc[x.key] = r
    return r


def zatom(a):
    if a[0] == "v":
        return z3.Int(a[1])
    n, args = a[1], [zix(x) for x in a[2]]
    if n == "div":
        return args[0] / args[1]
    if n == "mod":
        return args[0] % args[1]
    return z3.Function(n, *([z3.IntSort()] * len(args)), z3.IntSort())(*args)


def zcond(c, side):
    """translate; side collects the index atoms used"""
    k, a = c.k, c.a
    if k == "true":
        return z3.BoolVal(True)
    if k == "false":
        return z3.BoolVal(False)
    if k == "le":
        side.append(a)
        return zix(a) <= 0
    if k == "eq":
        side.append(a)
        return zix(a) == 0
    if k == "not":
        return z3.Not(zcond(a, side))
    if k == "and":
        return z3.And(*[zcond(x, side) for x in a])
    if k == "or":
        return z3.Or(*[zcond(x, side) for x in a])
    if k == "b":
        side.extend(a[1])
        side.append(("b", a))
        if not a[1]:
            return z3.Bool(a[0])
        return z3.Function(a[0], *([z3.IntSort()] * len(a[1])), z3.BoolSort())(*[zix(x) for x in a[1]])
    if k == "ec":
        from . import term as T

        l, r = T.zreal(a[1], side), T.zreal(a[2], side)
        if a[0] == "==":
            li, ri = T.zimag(a[1], side), T.zimag(a[2], side)
            return z3.And(l == r, li == ri)
        return {"<": l < r, "<=": l <= r}[a[0]]
    raise AssertionError(k)


# --------------------------------------------------------------------------
# path context
# --------------------------------------------------------------------------
CTX = []
BFUN = {}  # boolean atom axioms: name -> callable(args) -> [Cond]
REALAX = {}  # real atom axioms: atom name -> callable(args) -> [z3 bool]
STATS = dict(queries=0, solver_s=0.0, unknown=0)


def has_ec(c):
    if c.k == "ec":
        return True
    if c.k == "not":
        return has_ec(c.a)
    if c.k in ("and", "or"):
        return any(has_ec(x) for x in c.a)
    return False


class Ctx:
    def __init__(self, script=()):
        self.script = list(script)  # decisions to replay
        self.decisions = []  # (key, value, both_feasible)
        self.assume_list = []
        self.cache = {}
        self.pending = []  # alternative scripts discovered
        self.rules = []
        self.unfolds = []  # (rule, reversed rule): tried when an equality is not found
        self.memo = {}
        self.notes = []
        self.temp = 0  # depth of temporary assumptions
        self.sels = []  # selections whose emptiness matters: their rank axiom is instantiated on index variables
        self.generic = []  # stack of generic loop variables
        self.nest = 0
        self.zc = {}
        self.cuts = []  # loops being run from an arbitrary state
        self.solver = z3.Solver()
        self.solver.set("timeout", 4000)

    # -- assumptions
    def assume(self, c):
        if c.k == "true":
            return
        self.assume_list.append(c)
        self.cache = {}

    def _gather(self, conds):
        """z3 assertions for conds plus ranges and axioms of everything they mention"""
        self.nest += 1
        try:
            return self._gather1(conds)
        finally:
            self.nest -= 1

    def facts(self):
        """the assumptions; those about real terms are left out while such a term is being named"""
        return [c for c in self.assume_list if not has_ec(c)] if self.nest else self.assume_list

    def _gather1(self, conds):
        out, side = [], []
        for c in conds:
            z = self.zc.get(c.key)
            if z is None:
                s1 = []
                z = (zcond(c, s1), s1)
                self.zc[c.key] = z
            out.append(z[0])
            side.extend(z[1])
        seenv, seena, seenr = set(), set(), set()
        perms = {}
        todo = list(side)
        while todo:
            x = todo.pop()
            if isinstance(x, tuple) and x and x[0] == "b":
                nm, args = x[1]
                kk = (nm,) + tuple(a.key for a in args)
                if nm in BFUN and kk not in seena:
                    seena.add(kk)
                    for cc in BFUN[nm](args):
                        s2 = []
                        out.append(zcond(cc, s2))
                        todo.extend(s2)
                continue
            if isinstance(x, tuple) and x and x[0] == "r":
                _, nm, args = x
                kk = (nm,) + tuple(a.key for a in args)
                if kk in seenr:
                    continue
                seenr.add(kk)
                from . import term as T

                if nm in T.POS:
                    out.append((z3.Real(nm) if not args else z3.Function(nm, *([z3.IntSort()] * len(args)), z3.RealSort())(*[zix(q) for q in args])) > 0)
                if nm in REALAX:
                    for zz, s2 in REALAX[nm](args):
                        out.append(zz)
                        todo.extend(s2)
                todo.extend(args)
                continue
            for v in x.vars():
                if v in seenv:
                    continue
                seenv.add(v)
                for sl in self.sels:
                    if v in RANGE and RANGE[v][1] is not None and RANGE[v][1].key == sl.n.key:
                        for cc in sl.ax_rank((ivar(v),)):
                            s2 = []
                            out.append(zcond(cc, s2))
                            todo.extend(s2)
                if v in RANGE:
                    lo, hi = RANGE[v]
                    out.append(z3.Int(v) >= zix(lo))
                    todo.append(lo)
                    if hi is not None:
                        out.append(z3.Int(v) < zix(hi))
                        todo.append(hi)
            for a in x.atoms():
                if a[0] != "f":
                    continue
                kk = a_key(a)
                if kk in seena:
                    continue
                seena.add(kk)
                for sl in self.sels:
                    if IFUN.get(a[1], {}).get("range") == sl.n.key and not a[1].startswith(sl.name + "."):
                        for cc in sl.ax_rank((IX({(a,): 1}),)):
                            s2 = []
                            out.append(zcond(cc, s2))
                            todo.extend(s2)
                if a[1] in ("div", "mod"):
                    b = zix(a[2][1])
                    p = zix(a[2][0])
                    # help with nonlinear divisors
                    d, m = p / b, p % b
                    out.append(z3.Implies(b > 0, z3.And(m >= 0, m < b, p == b * d + m)))
                    continue
                info = IFUN.get(a[1])
                if info and info.get("pair"):
                    ar = a[2][0]
                    prev = perms.setdefault(a[1], [])
                    for b in prev:
                        for cc in info["pair"](ar, b) + info["pair"](b, ar):
                            s2 = []
                            out.append(zcond(cc, s2))
                            todo.extend(s2)
                    prev.append(ar)
                if info and info.get("axioms"):
                    for cc in info["axioms"](a[2]):
                        s2 = []
                        out.append(zcond(cc, s2))
                        todo.extend(s2)
        return out

    def _check(self, conds):
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*self._gather(self.facts() + list(conds)))
        r = s.check()
        STATS["queries"] += 1
        STATS["solver_s"] += time.time() - t0
        if r == z3.unknown:
            STATS["unknown"] += 1
        return r

    def entails(self, c, extra=()):
        if c.k == "true":
            return True
        if c.k == "false" and not extra:
            return False
        k = (c.key, tuple(e.key for e in extra), self.nest > 0)
        r = self.cache.get(k)
        if r is None:
            r = self._check(list(extra) + [neg(c)]) == z3.unsat
            self.cache[k] = r
        return r

    def quick(self, c):
        return self.entails(c)

    def sat(self, conds):
        k = ("sat", self.nest > 0) + tuple(e.key for e in conds)
        r = self.cache.get(k)
        if r is None:
            r = self._check(list(conds)) != z3.unsat
            self.cache[k] = r
        return r

    def model(self, conds=()):
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*self._gather(self.facts() + list(conds)))
        if s.check() == z3.sat:
            return s.model()
        return None

    # -- branching
    def decide(self, c):
        if c.k == "true":
            return True
        if c.k == "false":
            return False
        if self.entails(c):
            return True
        n = neg(c)
        if self.entails(n):
            return False
        for g in self.generic:
            if g["var"] in c.vars():
                g["forked"] = True
        i = len(self.decisions)
        if i < len(self.script):
            v = self.script[i]
        else:
            v = True
            self.pending.append(self._vals() + [False])
        self.decisions.append((c.key, v))
        self.assume(c if v else n)
        return v

    def _vals(self):
        return [v for _, v in self.decisions]


def ctx():
    if not CTX:
        raise Unsupported("no symbolic context")
    return CTX[-1]


# --------------------------------------------------------------------------
# SymInt / SymBool
# --------------------------------------------------------------------------
def mkint(x):
    """python int when constant, else SymInt"""
    x = ix(x)
    c = x.const
    return c if c is not None else SymInt(x)


class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return ctx().decide(self.c)

    @property
    def __class__(self):
        return bool

    def __and__(self, o):
        return mkbool(conj([self.c, tocond(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(disj([self.c, tocond(o)]))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(neg(self.c))

    def __eq__(self, o):
        a, b = self.c, tocond(o)
        return mkbool(disj([conj([a, b]), conj([neg(a), neg(b)])]))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return 11

    def __repr__(self):
        return f"SymBool({self.c})"

    def __deepcopy__(self, memo):
        return self


def mkbool(c):
    if c.k == "true":
        return True
    if c.k == "false":
        return False
    return SymBool(c)


def tocond(x):
    if type(x) is SymBool:
        return x.c
    if isinstance(x, Cond):
        return x
    return TRUE if x else FALSE


def isint(x):
    import numpy as np

    return type(x) is SymInt or (isinstance(x, (int, np.integer)) and not isinstance(x, bool))


class SymInt:
    __slots__ = ("ix",)
    __array_priority__ = 1e5
    __array_ufunc__ = None

    def __init__(self, x):
        self.ix = x

    @property
    def __class__(self):
        return int

    def _bin(self, o, f, scal):
        if isint(o):
            return mkint(f(self.ix, ix(o)))
        return scal(o)

    def _s(self):
        from .arr import SymScalar
        from . import term as T

        return SymScalar(T.TInt(self.ix))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda o: self._s() + o)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, lambda o: o + self._s())

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda o: self._s() - o)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda o: o - self._s())

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            raise Unsupported("sequence repetition by symbolic count")
        return self._bin(o, lambda a, b: a * b, lambda o: self._s() * o)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            raise Unsupported("sequence repetition by symbolic count")
        return self._bin(o, lambda a, b: b * a, lambda o: o * self._s())

    def __floordiv__(self, o):
        if isint(o):
            _posdiv(ix(o))
            return mkint(idiv(self.ix, ix(o)))
        return self._s() // o

    def __rfloordiv__(self, o):
        if isint(o):
            _posdiv(self.ix)
            return mkint(idiv(ix(o), self.ix))
        return o // self._s()

    def __mod__(self, o):
        if isint(o):
            _posdiv(ix(o))
            return mkint(imod(self.ix, ix(o)))
        raise Unsupported("mod")

    def __truediv__(self, o):
        return self._s() / o

    def __rtruediv__(self, o):
        return o / self._s()

    def __pow__(self, o):
        if isint(o) and ix(o).const is not None and ix(o).const >= 0:
            r = ix(1)
            for _ in range(ix(o).const):
                r = r * self.ix
            return mkint(r)
        return self._s() ** o

    def __rpow__(self, o):
        return o ** self._s()

    def __neg__(self):
        return mkint(-self.ix)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if ctx().decide(le(0, self.ix)) else -self

    def _cmp(self, o, f, sf):
        if isint(o):
            return mkbool(f(self.ix, ix(o)))
        import math

        if isinstance(o, float) and math.isinf(o):
            return {lt: o > 0, le: o > 0}.get(f, None) if f in (lt, le) else (
                False if f is eq else o < 0)
        if isinstance(o, (float,)) or hasattr(o, "term"):
            return sf(self._s(), o)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lt, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, le, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lt(b, a), lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: le(b, a), lambda a, b: a >= b)

    def __eq__(self, o):
        if isint(o):
            return mkbool(eq(self.ix, ix(o)))
        if isinstance(o, float) or hasattr(o, "term"):
            return self._s() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) and type(r) is bool else mkbool(neg(r.c))

    def __bool__(self):
        return ctx().decide(neg(eq(self.ix, 0)))

    def __hash__(self):
        return 7

    def __index__(self):
        v = concretize(self.ix)
        if v is not None:
            return v
        raise Unsupported(f"symbolic integer {self.ix} used where a concrete one is needed")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("float() of symbolic integer")

    def __repr__(self):
        return f"SymInt({self.ix})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    def astype(self, *_a, **_k):
        return self

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        import numpy as np

        return np.dtype(int)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0


def concretize(x):
    """value forced by the path condition, if any"""
    c = ctx()
    m = c.model()
    if m is None:
        return None
    v = m.eval(zix(x), model_completion=True)
    try:
        v = v.as_long()
    except Exception:
        return None
    return v if c.entails(eq(x, v)) else None


def _posdiv(b):
    if not ctx().decide(lt(0, b)):
        if ctx().decide(eq(b, 0)):
            raise ZeroDivisionError("symbolic")
        raise Unsupported("negative divisor")
