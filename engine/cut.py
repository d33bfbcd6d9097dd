"""Loop invariants on the real code.

m.loop("pydmd.mod:Class.func", "while0", inv, fresh) cuts the named loop of the current source of the
function: on entry the invariant is checked, the variables the loop changes are replaced by arbitrary
values satisfying the invariant, one arbitrary iteration runs and has to re-establish it (that path ends
there), and the code after the loop runs from an arbitrary state satisfying invariant and exit condition.
The code object is derived from the source text on every run; only the loop header is rewritten."""
import ast
import json
import os
import types
import warnings

from . import ix as I
from . import models as M
from . import term as T
from .arr import SymArray, SymScalar, _bufid, asarr
from .ix import SymBool, SymInt, Unsupported, ctx, ix, mkint
from .seq import SymSeq


class _Find(ast.NodeTransformer):
    """locate the loops of one function and rewrite their headers"""

    def __init__(self, qual, cuts):
        self.qual, self.cuts = qual.split("."), cuts
        self.done = {}

    def visit_ClassDef(self, node):
        if len(self.qual) > 1 and node.name == self.qual[0]:
            sub = _Find(".".join(self.qual[1:]), self.cuts)
            node.body = [sub.visit(x) for x in node.body]
            self.done.update(sub.done)
        return node

    def visit_FunctionDef(self, node):
        if len(self.qual) == 1 and node.name == self.qual[0]:
            loops = sorted((n for n in ast.walk(node) if isinstance(n, (ast.For, ast.While))), key=lambda n: (n.lineno, n.col_offset))
            found = []
            for which, (key, extra) in self.cuts.items():
                kind, no = which.rstrip("0123456789"), int(which.lstrip("forwhile"))
                mine = [n for n in loops if isinstance(n, ast.For) == (kind == "for")]
                if no < len(mine):
                    names = carried(node, mine[no])
                    names += [x for x in extra if x not in names]
                    self.done[which] = names
                    found.append((mine[no], names, key))
            me = "self" if node.args.args and node.args.args[0].arg == "self" else None
            for loop, names, key in found:
                _Rewrite(loop, names, key, me).visit(node)
        return node


def base(t):
    while isinstance(t, (ast.Subscript, ast.Starred)):
        t = t.value
    return t


def name_of(t):
    if isinstance(t, ast.Name):
        return t.id
    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
        return f"{t.value.id}.{t.attr}"
    return None


def targets(stmts):
    out = []

    def add(t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                add(e)
            return
        nm = name_of(base(t))
        if nm is None:
            raise Unsupported("assignment target in a cut loop")
        if nm not in out:
            out.append(nm)

    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    add(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                add(n.target)
            elif isinstance(n, ast.For):
                add(n.target)
            elif isinstance(n, ast.NamedExpr):
                add(n.target)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "pop", "remove", "clear", "update", "add", "sort", "fill"):
                nm = name_of(base(n.func.value))
                if nm and nm not in out:
                    out.append(nm)
            elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and isinstance(n, ast.FunctionDef):
                if n.name not in out:
                    out.append(n.name)
    return out


def carried(fn, loop):
    """names the loop changes that are bound before it"""
    args = fn.args
    bound = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs} | ({args.vararg.arg} if args.vararg else set()) | ({args.kwarg.arg} if args.kwarg else set())
    before = [s for s in ast.walk(fn) if isinstance(s, ast.stmt) and s is not fn and s.lineno < loop.lineno and not any(x is loop for x in ast.walk(s))]
    bound |= set(targets(before))
    for s in before:
        for n in ast.walk(s):
            if isinstance(n, ast.With):
                pass
    return [t for t in targets(loop.body) if t in bound or ("." in t and t.split(".")[0] in bound)]


def induction(loop, names):
    """variables changed exactly once per iteration, by adding a value the loop does not change: {name: step}"""
    changed = set(targets(loop.body)) | set(targets([loop]) if isinstance(loop, ast.For) else [])
    out = {}
    if any(isinstance(n, (ast.Continue, ast.Break, ast.Return)) for s in loop.body for n in ast.walk(s)):
        return out
    for nm in names:
        hits = [n for s in loop.body for n in ast.walk(s) if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)) and nm in targets([n])]
        if len(hits) != 1 or hits[0] not in loop.body:
            continue
        h = hits[0]
        if isinstance(h, ast.AugAssign) and isinstance(h.op, ast.Add) and name_of(h.target) == nm:
            step = h.value
        elif isinstance(h, ast.Assign) and len(h.targets) == 1 and name_of(h.targets[0]) == nm and isinstance(h.value, ast.BinOp) and isinstance(h.value.op, ast.Add) and name_of(h.value.left) == nm:
            step = h.value.right
        else:
            continue
        if all(isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.operator, ast.expr_context)) for n in ast.walk(step)) and not {name_of(n) for n in ast.walk(step)} & changed:
            out[nm] = step
    return out


def _ref(nm, c):
    if "." in nm:
        a, b = nm.split(".")
        return ast.Attribute(value=ast.Name(id=a, ctx=ast.Load()), attr=b, ctx=c)
    return ast.Name(id=nm, ctx=c)


class _Rewrite(ast.NodeTransformer):
    def __init__(self, loop, names, key, me):
        self.loop, self.names, self.key, self.me = loop, names, key, me

    def cut(self, meth, *args):
        return ast.Call(func=ast.Attribute(value=ast.Subscript(value=ast.Name(id="__cuts__", ctx=ast.Load()), slice=ast.Constant(self.key), ctx=ast.Load()), attr=meth, ctx=ast.Load()), args=list(args), keywords=[])

    def tup(self, c):
        if c is ast.Load:
            return ast.Tuple(elts=[self.cut("val", self.lam(_ref(n, c()))) for n in self.names], ctx=c())
        return ast.Tuple(elts=[_ref(n, c()) for n in self.names], ctx=c())

    def lam(self, e):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)

    def visit(self, node):
        if node is self.loop:
            lam = self.lam(self.tup(ast.Load))
            out = []
            if isinstance(node, ast.While):
                val = self.cut("enter", self.tup(ast.Load))
                node.test = ast.BoolOp(op=ast.And(), values=[self.cut("head", lam), node.test])
            else:
                steps = induction(node, self.names)
                out.append(ast.Expr(self.cut("steps", *[x for nm, e in steps.items() for x in (ast.Constant(nm), self.lam(e))])))
                it = f"__it_{abs(hash(self.key)) % 10**8}"
                out.append(ast.Assign(targets=[ast.Name(id=it, ctx=ast.Store())], value=node.iter))
                val = self.cut("enter_for", ast.Name(id=it, ctx=ast.Load()), self.tup(ast.Load))
                node.iter = self.cut("each", ast.Name(id=it, ctx=ast.Load()), lam)
            out.append(ast.Assign(targets=[self.tup(ast.Store)], value=val) if self.names else ast.Expr(val))
            if self.me:
                out.append(ast.Expr(self.cut("owner", ast.Name(id=self.me, ctx=ast.Load()))))
            out.append(node)
            out.append(ast.Expr(self.cut("leave")))
            return [ast.copy_location(x, node) for x in out]
        return super().visit(node)


class Values(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise Unsupported(f"the loop has no variable {n}")


class Unset:
    """a variable without a value on entry"""


UNSET = Unset()


class Cut:
    def __init__(self, m, label, names, inv, fresh):
        self.m, self.label, self.names, self.inv, self.fresh = m, label, names, inv, fresh or {}

    me = None
    step = {}
    known = None

    def steps(self, *a):
        self.step = {}
        for nm, f in zip(a[::2], a[1::2]):
            v = self.val(f)
            if type(v) in (int, SymInt):
                self.step[nm] = v

    def val(self, f):
        try:
            return f()
        except (NameError, AttributeError):
            return UNSET

    def owner(self, obj):
        """attributes rebound by functions the loop calls have to be among the declared variables"""
        self.me, self.attrs = obj, dict(vars(obj))

    def vals(self, t, index=None):
        v = Values({n.replace("self.", ""): x for n, x in zip(self.names, t)})
        v["index"] = index
        v["count"] = self.count
        v["entry"] = self.entry
        return v

    def check(self, v, when):
        for it in self.inv(v) or []:
            name, rest = it[0], it[1:]
            if len(rest) == 1:
                self.m.holds(f"{self.label}: {name} ({when})", rest[0])
            else:
                self.m.eq(f"{self.label}: {name} ({when})", *rest)

    def assume(self, v):
        for it in self.inv(v) or []:
            name, rest = it[0], it[1:]
            if len(rest) == 1:
                c = rest[0]
                if hasattr(c, "reader"):
                    raise Unsupported("assumed array condition")
                ctx().assume(I.tocond(c))
            else:
                a, b = M.A(rest[0]), M.A(rest[1])
                idx = [I.fresh("h", s) for s in a._shape]
                if T.prove_eq(a.num()(*idx), b.num()(*idx))[0]:
                    continue
                if not M.rule(f"invariant {name}", idx, a.num()(*idx), b.num()(*idx)):
                    raise Unsupported(f"invariant {name} is not a rewrite rule")

    def havoc(self, nm, x, v):
        short = nm.replace("self.", "")
        if short in self.fresh:
            f = self.fresh[short]
            return f(v) if callable(f) else f
        if x is None or x is UNSET:
            return x
        if nm in self.step and type(x) in (int, SymInt) and self.index is not None:
            self.stepped.add(nm)
            return self.at(nm, x, self.index)
        if self.known is not None and nm not in self.known and nm not in self.local:
            # a variable the loop of the unchanged tree does not carry: nothing is known about it
            self.m.unfamiliar = f"loop variable {nm} has no stated invariant"
        if type(x) is SymArray:
            if x.kind == "b":
                raise Unsupported("boolean array changed in a cut loop")
            return M.fresh_arr("hv_" + short, x._shape, real=x.kind in "if")
        if type(x) is SymScalar:
            a = T.atom(f"hv_{short}{next(_bufid)}")
            if x.kind in "fi":
                T.REAL.add(a.a[0])
            return SymScalar(a, x.kind)
        if type(x) in (bool, SymBool):
            return SymBool(I.Cond("b", (f"hv_{short}{next(_bufid)}", ())))
        if type(x) in (int, SymInt):
            return mkint(I.fresh("hv_" + short, 10**8, -(10**8)))
        if type(x) is float:
            a = T.atom(f"hv_{short}{next(_bufid)}")
            T.REAL.add(a.a[0])
            return SymScalar(a, "f")
        raise Unsupported(f"loop variable {nm} of type {type(x).__name__} needs a stated invariant")

    def at(self, nm, x, index):
        return x + index * self.step[nm]

    local = ()

    def _enter(self, t, index):
        self.stepped = set()
        self.before = dict(zip(self.names, t))
        self.index = index
        v = self.vals(t, 0 if index is not None else None)
        self.entry = Values(v)
        v["entry"] = self.entry
        self.check(v, "on entry")
        self.visited = False
        self.index = index
        w = Values(v)
        w["index"] = index
        new = []
        if "*" in self.fresh:
            self.fresh["*"](w)
        for nm, x in zip(self.names, t):
            y = self.havoc(nm, x, w)
            w[nm.replace("self.", "")] = y
            new.append(y)
        self.state = tuple(new)
        self.assume(w)
        self.start = next(_bufid)
        self.allowed = {y.buf.id for y in new if type(y) is SymArray}
        ctx().cuts.append(self)
        if not ctx().sat([]):
            raise I.PathAbort()
        return tuple(new)

    entry = None
    count = None

    def enter(self, t):
        return self._enter(t, None)

    def enter_for(self, it, t):
        if type(it) is SymSeq:
            n = it.n
        elif type(it) is SymArray:
            n = it._shape[0]
        elif isinstance(it, (range, list, tuple)):
            n = ix(len(it))
        else:
            raise Unsupported("iterable of a cut loop")
        self.count = mkint(n)
        self.more = ctx().decide(I.Cond("b", (f"loop:{self.label}:{next(_bufid)}", ())))
        if self.more:
            if not ctx().sat([I.lt(0, n)]):
                raise I.PathAbort()
            ctx().assume(I.lt(0, n))
            i = I.fresh("it", n)
            return self._enter(t, mkint(i))
        return self._enter(t, mkint(n))

    def each(self, it, get):
        if self.more:
            i = ix(self.index)
            if type(it) is SymSeq:
                yield it.f(i)
            elif type(it) is SymArray:
                yield it[mkint(i)]
            elif isinstance(it, range):
                yield mkint(i * it.step + it.start)
            else:
                raise Unsupported("iterable of a cut loop")
            self.maintain(get(), self.index + 1)
        self.leave()

    def head(self, get):
        if self.visited:
            self.maintain(get(), None)
        self.visited = True
        return True

    def leave(self):
        if self in ctx().cuts:
            ctx().cuts.remove(self)

    def maintain(self, t, index):
        self.leave()
        if self.me is not None:
            for a, y in vars(self.me).items():
                if f"self.{a}" not in self.names and self.attrs.get(a, UNSET) is not y:
                    raise Unsupported(f"a function called in the loop changes {a}")
        for nm, x, y in zip(self.names, self.state, t):
            short = nm.replace("self.", "")
            if short in self.fresh:
                continue
            if nm in self.stepped:
                z = self.at(nm, self.before[nm], index)
                if type(y) not in (int, SymInt) or not ctx().entails(I.eq(ix(y), ix(z))):
                    raise Unsupported(f"{nm} is not an induction variable")
                continue
            if x is None and y is not None:
                raise Unsupported(f"the loop gives {nm} a value")
            if type(x) is SymArray and (type(y) is not SymArray or y.ndim != x.ndim or any(not ctx().entails(I.eq(p, q)) for p, q in zip(x._shape, y._shape)) or ("c" not in (x.kind,) and y.kind == "c")):
                raise Unsupported(f"the loop changes the shape or type of {nm}")
            if type(x) is SymScalar and (type(y) not in (SymScalar, SymInt, int, float) or (x.kind != "c" and getattr(y, "kind", "f") == "c")):
                raise Unsupported(f"the loop changes the type of {nm}")
            if type(x) is SymInt and type(y) not in (SymInt, int):
                raise Unsupported(f"the loop changes the type of {nm}")
            if type(x) is SymBool and type(y) not in (SymBool, bool):
                raise Unsupported(f"the loop changes the type of {nm}")
        self.check(self.vals(t, index), "maintained")
        raise I.PathAbort()


def familiar():
    """the variables carried by each annotated loop when its invariant was written"""
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "loops.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def install(m, path, which, inv, fresh):
    import importlib
    import inspect

    extra = [k.lstrip("+") for k in fresh or () if k.startswith(("self.", "+"))]
    fresh = {k: f for k, f in (fresh or {}).items() if not k.startswith("+")}
    fresh = {k.replace("self.", ""): f for k, f in (fresh or {}).items()}
    modname, qual = path.split(":")
    mod = importlib.import_module(modname)
    o = mod
    for p in qual.split("."):
        o = o.__dict__.get(p) if isinstance(o, (type, types.ModuleType)) else None
        if o is None:
            raise Unsupported(f"no {path}")
    f = o.__func__ if isinstance(o, (staticmethod, classmethod)) else (o.fget if isinstance(o, property) else o)
    f = inspect.unwrap(f)
    from .patch import _CompT, _codes, comp

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        tree = ast.parse(open(mod.__file__).read())
        tr = _CompT()
        tr.changed = False
        tree = tr.visit(tree)
        key = f"{path}#{which}"
        cuts = m.__dict__.setdefault("cut_loops", {}).setdefault(path, {})
        cuts[which] = (key, extra)
        fd = _Find(qual, cuts)
        tree = fd.visit(tree)
        if which not in fd.done:
            raise Unsupported(f"no loop {which} in {path}")
        codes = _codes(compile(ast.fix_missing_locations(tree), mod.__file__, "exec"), {})
    c = codes.get((f.__code__.co_qualname, f.__code__.co_firstlineno))
    if c is None or len(c.co_freevars) != len(f.__code__.co_freevars):
        raise Unsupported(f"code of {path} not found")
    cut = mod.__dict__.setdefault("__cuts__", {})[key] = Cut(m, f"loop {which} of {qual}" if which[-4:] not in ("for0", "ile0") else f"loop of {qual}", fd.done[which], inv, fresh)
    known = familiar()
    if os.environ.get("VERIF_LOOPS"):
        with open(os.environ["VERIF_LOOPS"], "a") as fh:
            fh.write(json.dumps([key, cut.names]) + "\n")
    elif key in known:
        cut.known = known[key]
    mod.__dict__["__comp__"] = comp
    m.undo.append((f, "__code__", f.__code__))
    f.__code__ = c
