"""Contract units and the two modes they run in.

A unit is a function of a mode object m.  It states preconditions (m.dim,
m.array, m.choice, m.assume), calls the real code, and states postconditions
(m.eq, m.holds, m.raises).  SymMode: all feasible paths, all sizes and entries,
obligations are proved.  ConMode: one random concrete case on the real code."""
import importlib
import linecache
import random
import sys
import time
import traceback

import numpy as np

UNITS = {}  # property -> [Unit]


class Unit:
    def __init__(self, prop, name, fn, funcs, sym, con, bounded, cases, weight, timeout, frame, split):
        self.prop, self.name, self.fn, self.funcs = prop, name, fn, funcs
        self.sym, self.con, self.bounded = sym, con, bounded
        self.cases, self.weight, self.timeout, self.frame = cases, weight, timeout, frame
        self.split = split

    @property
    def id(self):
        return f"{self.prop}.{self.name}"


def unit(prop, name=None, funcs=(), sym=True, con=True, bounded=None, cases=60, weight=1, timeout=240, frame=False, split=()):
    """bounded: text stating the bound when the unit is not a full proof;
    split: [(choice name, number of options)] explored in separate processes"""

    def deco(fn):
        u = Unit(prop, name or fn.__name__, fn, list(funcs), sym, con, bounded, cases, weight, timeout, frame, split)
        UNITS.setdefault(prop, []).append(u)
        return fn

    return deco


class Skip(Exception):
    """concrete case outside the precondition"""


class Failed(Exception):
    """concrete postcondition failure"""

    def __init__(self, name, detail):
        super().__init__(f"{name}: {detail}")
        self.name, self.detail = name, detail


# --------------------------------------------------------------------------
class ConMode:
    sym = False
    np = np

    def __init__(self, seed, frame=False, fixed=None, big=False):
        self.rng = np.random.default_rng(hash_seed(seed))
        self.pr = random.Random(repr(seed))
        self.opts = {}
        self.dims = {}
        self.inputs = []
        self.fixed = fixed or {}
        self.frame = frame
        self.frame_only = False
        self.nobl = 0
        self.big = big
        self.stubs = []
        self.deferred = []

    def dim(self, name, lo=1, hi=None, near=None):
        hi = (lo + 6 if hi is None else hi)
        v = self.pr.randint(lo, hi)
        self.dims[name] = v
        return v

    def choice(self, name, options):
        if name in self.fixed:
            for o in options:
                if repr(o) == self.fixed[name]:
                    self.opts[name] = o
                    return o
        o = self.pr.choice(list(options))
        self.opts[name] = o
        return o

    def assume(self, c):
        if not c:
            raise Skip()

    def independent_columns(self, a):
        """precondition: the columns of a are linearly independent"""
        if not (a.shape[0] >= a.shape[1] and np.linalg.cond(a) < 1e6):
            raise Skip()

    def kind(self):
        """entry type of the data: complex covers real in proofs"""
        return self.choice("kind", ["f", "c"])

    def array(self, name, shape, kind="f", gen=None, pos=False):
        shape = tuple(int(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        if gen is not None:
            a = gen(self.rng, shape)
        elif kind == "b":
            a = self.rng.random(shape) < 0.5
        else:
            a = self.rng.standard_normal(shape)
            if kind == "c":
                a = a + 1j * self.rng.standard_normal(shape)
            if pos:
                a = np.abs(a) + 0.3
        if gen is None:
            a = self.layout(a)
        self.watch(name, a)
        return a

    def layout(self, a):
        """the same values laid out in memory in some way (results may not depend on it)"""
        import random

        a = np.asarray(a)
        if not a.ndim or not a.size:
            return a
        h = random.Random(repr((a.shape, complex(a.flat[0]))))
        w = h.choice(["C", "C", "F", "strided", "reversed"])
        if w == "F":
            return np.asfortranarray(a)
        if w == "strided":
            b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)[tuple(slice(None, None, 2) for _ in a.shape)]
            b[...] = a
            return b
        if w == "reversed":
            return np.ascontiguousarray(a[::-1])[::-1]
        return a

    def scalar(self, name, kind="f", lo=None, hi=None, gen=None):
        if gen is not None:
            v = gen(self.pr)
        else:
            v = self.pr.uniform(-2 if lo is None else lo, 2 if hi is None else hi)
            if kind == "c":
                v = complex(v, self.pr.uniform(-2, 2))
        self.opts[name] = v
        return v

    def mask(self, name, n):
        a = self.rng.random(int(n)) < 0.6
        self.watch(name, a)
        return a

    def watch(self, name, a):
        import copy

        self.inputs.append((name, a, copy.deepcopy(a)))

    def check_frame(self):
        for name, a, c in self.inputs:
            if not same_data(a, c):
                raise Failed("frame", f"caller's {name} was modified")

    def stub(self, *a, **k):
        pass

    def loop(self, *a, **k):
        pass

    def skip(self, why=""):
        raise Skip()

    # postconditions
    def eq(self, name, a, b, tol=1e-7, atol=None, scale=None):
        self.nobl += 1
        if self.frame_only:
            return
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Failed(name, f"shape {a.shape} != {b.shape}")
        if a.size == 0:
            return
        if a.dtype == bool or b.dtype == bool or a.dtype.kind in "US":
            if not (a == b).all():
                raise Failed(name, f"{a} != {b}")
            return
        fin = np.isfinite(b)
        if not fin.all() or not np.isfinite(a).all():
            if not np.array_equal(np.isfinite(a), fin):
                raise Failed(name, "non-finite values differ")
            a, b = a[fin], b[fin]
            if a.size == 0:
                return
        s = max(np.abs(b).max(), np.abs(a).max(), 1e-12) if scale is None else scale
        err = np.abs(a - b).max()
        if err > tol * s + (atol or 0):
            raise Failed(name, f"max difference {err:.3g} (scale {s:.3g}, tolerance {tol:g})")

    def holds(self, name, c, detail=""):
        self.nobl += 1
        if self.frame_only:
            return
        if not np.all(c):
            raise Failed(name, detail or "condition is false")

    def same(self, name, a, b):
        self.nobl += 1
        if not self.frame_only and not same_data(a, b):
            raise Failed(name, f"{a!r} != {b!r}")

    def raises(self, name, exc, f, *a, **k):
        self.nobl += 1
        try:
            f(*a, **k)
        except exc:
            return
        except Exception as e:
            if self.frame_only:
                return
            raise Failed(name, f"raised {type(e).__name__}: {e} instead of {exc}")
        if not self.frame_only:
            raise Failed(name, f"did not raise {exc}")

    def cover(self, name):
        pass

    def note(self, text):
        pass


def same_data(a, b):
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        return bool(a == b) and isinstance(a, bool) == isinstance(b, bool)
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return a.shape == b.shape and all(same_data(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_data(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_data(a[k], b[k]) for k in a)
    if isinstance(a, float) and a != a:
        return b != b
    try:
        return bool(a == b)
    except Exception:
        return a is b


def run_con(u, seed, fixed=None, frame_only=False):
    """one concrete case -> ('ok'|'skip'|'fail', info)"""
    import warnings

    m = ConMode(seed, u.frame, fixed)
    m.frame_only = frame_only or u.frame
    st = np.random.get_state()
    np.random.seed(abs(hash_seed(seed)) % (2**31))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                try:
                    u.fn(m)
                    if m.frame_only:
                        m.check_frame()
                except Skip:
                    return "skip", None
                except Failed as e:
                    return "fail", dict(obligation=e.name, detail=e.detail, opts=show(m.opts), dims=m.dims)
                except Exception as e:
                    if m.frame_only:
                        try:
                            m.check_frame()
                        except Failed as e2:
                            return "fail", dict(obligation=e2.name, detail=e2.detail, opts=show(m.opts), dims=m.dims)
                        return "skip", None
                    tb = traceback.extract_tb(e.__traceback__)
                    if isinstance(e, (AttributeError, ImportError)) and "/contracts/" in tb[-1].filename and str(getattr(e, "name", "") or "").startswith("_"):
                        return "skip", None  # a private name the contract is anchored to is gone: no verdict
                    where = [f"{f.filename}:{f.lineno} {f.name}" for f in tb[-4:]]
                    if isinstance(e, np.linalg.LinAlgError) and "converge" in str(e):
                        return "skip", None
                    return "fail", dict(obligation="no-exception", detail=f"{type(e).__name__}: {e}", opts=show(m.opts), dims=m.dims, where=where)
    finally:
        np.random.set_state(st)
    return "ok", dict(opts=show(m.opts), dims=m.dims, obligations=m.nobl)


def hash_seed(seed):
    import zlib

    return zlib.crc32(repr(seed).encode())


def show(o):
    return {k: repr(v) if len(repr(v)) < 200 else repr(v)[:200] for k, v in o.items()}


# --------------------------------------------------------------------------
class SymMode:
    sym = True

    def __init__(self, frame=False, shard=None):
        from . import patch

        self.shard = shard or {}
        self.np = patch.np_proxy()
        self.frame = frame
        self.frame_only = frame
        self.opts = {}
        self.results = []  # (name, ok, info)
        self.undo = []
        self.covers = set()
        self.dims = {}
        self.inputs = []

    # -- inputs
    def dim(self, name, lo=1, hi=None, near=None):
        from . import ix as I

        if hi is not None and hi == lo:
            return lo
        v = I.fresh(name, 10**8, lo)  # sizes below 10^8
        self.dims[name] = v
        return I.mkint(v)

    def choice(self, name, options):
        from . import ix as I

        options = list(options)
        if name in self.shard:
            j = self.shard[name]
            if j >= len(options):
                raise I.PathAbort()
            self.opts[name] = options[j]
            return options[j]
        for j, o in enumerate(options[:-1]):
            nm = f"opt:{name}={j}"
            if I.ctx().decide(I.Cond("b", (nm, ()))):
                self.opts[name] = o
                return o
        self.opts[name] = options[-1]
        return options[-1]

    def kind(self):
        return "c"

    def assume(self, c):
        from . import ix as I

        cc = I.tocond(c)
        if cc.k == "false" or not I.ctx().sat([cc]):
            raise I.PathAbort()
        I.ctx().assume(cc)

    def independent_columns(self, a):
        from . import ix as I
        from . import models as M
        from . import term as T

        M.used("precondition: linearly independent columns (pinv is a left inverse)")
        p = M.pinv(a)
        n, k = M.A(a)._shape
        fa, fp = M.A(a).num(), p.num()
        i, j = I.fresh("i", k), I.fresh("j", k)
        M.rule("pinv:P A = I", [i, j], T.tsum(n, lambda q: T.mul(fp(i, q), fa(q, j))), T.ite(I.eq(i, j), T.ONE, T.ZERO), frac=True)

    def in_span(self, a, u):
        """precondition: every column of u is a combination of the columns of a"""
        from . import ix as I
        from . import models as M
        from . import term as T

        M.used("precondition: the columns of one matrix span those of another (A pinv(A) U = U)")
        p = M.pinv(a)
        n, k = M.A(a)._shape
        fa, fp, fu = M.A(a).num(), p.num(), M.A(u).num()
        i, j = I.fresh("i", n), I.fresh("j", M.A(u)._shape[1])
        return M.rule("span:A P U = U", [i, j], T.tsum(k, lambda l: T.tsum(n, lambda q: T.mul(fa(i, l), T.mul(fp(l, q), fu(q, j))))), fu(i, j), frac=True)

    def array(self, name, shape, kind="f", gen=None, pos=False):
        from . import ix as I
        from . import term as T
        from .arr import SymArray

        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        nm = f"{name}"
        c = I.ctx()
        k = c.memo.setdefault(("in", nm), 0)
        c.memo[("in", nm)] = k + 1
        if k:
            nm = f"{nm}.{k}"
        nm = f"{nm}#{'p' if pos else kind}"
        if kind in "fi" or pos:
            T.REAL.add(nm)
        if pos:
            T.POS.add(nm)
        if kind == "b":
            return SymArray.new(shape, "b", lambda *i: I.Cond("b", (nm, tuple(i))), nm, self.frame)
        return SymArray.new(shape, kind, lambda *i: T.atom(nm, *i), nm, self.frame)

    def scalar(self, name, kind="f", lo=None, hi=None, gen=None):
        from . import ix as I
        from . import term as T
        from .arr import SymScalar

        nm = f"{name}#{kind}"
        if kind == "f":
            T.REAL.add(nm)
            if lo is not None and lo > 0:
                T.POS.add(nm)
        t = T.atom(nm)
        if lo is not None:
            I.ctx().assume(I.ecmp("<=", T.lift(lo), t))
        if hi is not None:
            I.ctx().assume(I.ecmp("<=", t, T.lift(hi)))
        return SymScalar(t)

    def mask(self, name, n):
        return self.array(name, (n,), "b")

    def watch(self, name, a):
        pass

    def check_frame(self):
        pass

    def stub(self, path, fn, why=None):
        """callee replaced by its contract (checked in its own unit)"""
        modname, attr = path.split(":")
        o = importlib.import_module(modname)
        parts = attr.split(".")
        for p in parts[:-1]:
            o = getattr(o, p)
        if parts[-1] not in o.__dict__:
            return  # the callee is not reached by this name any more: its real code runs
        raw = o.__dict__[parts[-1]]
        self.undo.append((o, parts[-1], raw))
        setattr(o, parts[-1], staticmethod(fn) if isinstance(raw, staticmethod) else fn)

    def skip(self, why=""):
        from . import ix as I

        raise I.Unsupported(why or "not applicable")

    def loop(self, path, which, inv=None, fresh=None):
        """invariant of a loop of the real code (see engine/cut.py); deductive mode only"""
        from . import cut

        cut.install(self, path, which, inv or (lambda v: []), fresh)

    def uninterpreted(self, *names):
        """use these dependencies as functions about which nothing is known"""
        from . import ix as I

        I.ctx().memo.setdefault("uninterpreted", set()).update(names)

    def sparse(self, a):
        """a as a scipy.sparse value; deductive mode only"""
        from .sparse import SymSparse

        return SymSparse(a)

    def attribute(self, o, name, value):
        """replace a class attribute for the duration of the unit"""
        if name in o.__dict__:
            self.undo.append((o, name, o.__dict__[name]))
        else:
            self.undo.append((o, name, None))
        setattr(o, name, value)

    def cleanup(self):
        for o, a, raw in reversed(self.undo):
            if raw is None:
                delattr(o, a)
            else:
                setattr(o, a, raw)
        self.undo = []

    # -- postconditions
    def _rec(self, name, ok, info=None):
        from . import ix as I

        if I.CTX and any("/repo/" in g["where"] or "/pydmd/" in g["where"] for g in I.ctx().generic):
            raise I.Unsupported("early exit from a loop over a symbolic range")
        self.results.append((name, bool(ok), info))

    def eq(self, name, a, b, tol=None, atol=None, scale=None):
        from . import ix as I
        from . import models as M
        from . import term as T

        if self.frame_only:
            return
        try:
            A, B = M.A(a), M.A(b)
        except Exception as e:
            if isinstance(e, I.Unsupported):
                raise
            raise
        if A.ndim != B.ndim:
            return self._rec(name, False, f"ndim {A.ndim} != {B.ndim}")
        c = I.ctx()
        for x, y in zip(A._shape, B._shape):
            if x.key != y.key and not c.entails(I.eq(x, y)):
                return self._rec(name, False, f"shape {A._shape} != {B._shape}")
        idx = []
        for x, y in zip(A._shape, B._shape):
            n = x if x.const is not None else y
            idx.append(I.ix(0) if n.const == 1 else I.fresh("e", n))
        if A.kind == "b" or B.kind == "b":
            x, y = A.reader()(*idx), B.reader()(*idx)
            if A.kind != B.kind:
                x, y = M.A(a).num()(*idx), M.A(b).num()(*idx)
                ok, why = T.prove_eq(x, y)
                return self._rec(name, ok, why and repr(why)[:600])
            ok = c.entails(I.disj([I.conj([x, y]), I.conj([I.neg(x), I.neg(y)])]))
            return self._rec(name, ok, None if ok else f"{x} <-> {y}")
        x, y = A.num()(*idx), B.num()(*idx)
        ok, why = T.prove_eq(x, y)
        if not ok:
            # small constant dimensions: entry by entry
            import itertools

            small = [j for j, i in enumerate(idx) if A._shape[j].const is not None and i.const is None and A._shape[j].const <= 8]
            if small and len(small) <= 2:
                ok = True
                for v in itertools.product(*[range(A._shape[j].const) for j in small]):
                    ii = list(idx)
                    for j, q in zip(small, v):
                        ii[j] = I.ix(q)
                    ok, why = T.prove_eq(A.num()(*ii), B.num()(*ii))
                    if not ok:
                        break
        self._rec(name, ok, None if ok else "residual: " + repr(why)[:800])

    def holds(self, name, cond, detail=""):
        from . import ix as I

        if self.frame_only:
            return
        if hasattr(cond, "reader"):
            idx = [I.fresh("e", s) for s in cond._shape]
            c = cond.reader()(*idx)
        else:
            c = I.tocond(cond)
        ok = I.ctx().entails(c)
        self._rec(name, ok, None if ok else f"not entailed: {c}")

    def same(self, name, a, b):
        if self.frame_only:
            return
        r = sym_same(a, b)
        self._rec(name, r, None if r else f"{a!r} vs {b!r}")

    def raises(self, name, exc, f, *a, **k):
        from . import ix as I

        depth = len(I.ctx().generic)
        try:
            f(*a, **k)
        except exc:
            del I.ctx().generic[depth:]
            if not self.frame_only:
                self._rec(name, True)
            return
        if not self.frame_only:
            self._rec(name, False, f"did not raise {exc}")

    def cover(self, name):
        self.covers.add(name)

    def note(self, text):
        pass


def sym_same(a, b):
    from . import ix as I
    from .arr import SymArray

    if type(a) is I.SymInt or type(b) is I.SymInt:
        if not (I.isint(a) and I.isint(b)):
            return False
        return I.ctx().entails(I.eq(I.ix(a), I.ix(b)))
    if type(a) is SymArray or type(b) is SymArray:
        m = SymMode.__new__(SymMode)
        m.results, m.frame_only = [], False
        m.eq("x", a, b)
        return m.results[0][1]
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(sym_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(sym_same(a[k], b[k]) for k in a)
    r = a == b
    return I.ctx().entails(I.tocond(r))


def intentional(e):
    """exception raised on purpose by a model (numpy semantics) or by pydmd itself"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    fn = last.tb_frame.f_code.co_filename
    line = linecache.getline(fn, last.tb_lineno).strip()
    if "/engine/" in fn or "/contracts/" in fn:
        return line.startswith("raise ") and "/engine/" in fn and not isinstance(e, AssertionError)
    if isinstance(e, (AttributeError, TypeError)) and not line.startswith(("raise", "assert")) and "Sym" in str(e):
        return False  # an operation the symbolic stand-in lacks
    return "/pydmd/" in fn or "/repo/" in fn


def run_sym(u, max_paths=600, budget=200, shard=None):
    from . import ix as I
    from . import models as M
    from . import patch
    from . import term as T
    from .arr import FrameViolation

    patch.patch_all()
    t0 = time.time()
    todo = [[]]
    paths = 0
    aborted = 0
    failed = []
    undecided = []
    obls = {}
    vac = 0
    covers = set()
    n_obl = 0
    while todo:
        script = todo.pop()
        if paths >= max_paths or time.time() - t0 > budget:
            undecided.append(("path budget", f"{len(todo) + 1} paths left after {paths}"))
            break
        c = I.Ctx(script)
        I.CTX.append(c)
        m = SymMode(u.frame, shard)
        status = "ok"
        try:
            try:
                u.fn(m)
                paths += 1
            except I.PathAbort:
                aborted += 1
                status = "abort"
            except FrameViolation as e:
                paths += 1
                c.generic.clear()
                m._rec("frame", False, str(e)) if u.frame else undecided.append(("internal", "frame violation in a unit without frame"))
            except (I.Unsupported, RecursionError, NotImplementedError) as e:
                if __import__("os").environ.get("VERIF_TB"): traceback.print_exc()
                paths += 1
                status = "undecided"
                fr = traceback.extract_tb(e.__traceback__)
                loc = [f for f in fr if "/pydmd/" in f.filename or "/contracts/" in f.filename]
                undecided.append(("unsupported", f"{e} at {loc[-1].filename}:{loc[-1].lineno}" if loc else str(e), show(m.opts)))
            except Exception as e:
                paths += 1
                tbs = traceback.format_exc()[-1500:]
                c.generic.clear()
                if intentional(e) and c.sat([]):
                    if not u.frame:
                        m._rec("no-exception", False, f"{type(e).__name__}: {e}\n{tbs}")
                    else:
                        m._rec("frame", True)
                else:
                    status = "undecided"
                    undecided.append(("internal", f"{type(e).__name__}: {e}\n{tbs}", show(m.opts)))
        finally:
            m.cleanup()
            I.CTX.pop()
        if status == "ok" and u.frame and not any(r[0] == "frame" for r in m.results):
            m.results.append(("frame", True, None))
        todo.extend(c.pending)
        if m.results:
            I.CTX.append(c)
            r = c._check([])
            I.CTX.pop()
            import z3

            if r == z3.unsat:
                vac += 1
                continue
        covers |= m.covers
        for name, ok, info in m.results:
            n_obl += 1
            o = obls.setdefault(name, [0, 0])
            o[0] += 1
            o[1] += ok
            if not ok and getattr(m, "unfamiliar", None):
                undecided.append(("unsupported", f"{m.unfamiliar}: {name}", show(m.opts)))
                n_obl -= 1
                o[0] -= 1
            elif not ok:
                failed.append(dict(obligation=name, info=info, opts=show(m.opts), path=[d[0] for d in c.decisions][:40]))
    return dict(
        unit=u.id, paths=paths, aborted=aborted, vacuous=vac, obligations=n_obl, discharged=n_obl - len(failed),
        obls=obls, failed=failed[:20], nfailed=len(failed), undecided=undecided[:10], wall=time.time() - t0,
        queries=I.STATS["queries"], solver_s=I.STATS["solver_s"], unknown=I.STATS["unknown"], used=dict(M.USED), rules=dict(T.RULE_USES), covers=sorted(covers),
    )
