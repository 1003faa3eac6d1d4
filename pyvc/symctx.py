"""Symbolic contract context: inputs are arbitrary, checks become proof obligations."""
import importlib
import json
import math
import sys
import time
from fractions import Fraction

import numpy as _np
import z3

from . import arr, core, loader, npshim, loops
from .arr import SymArray, SymSel, asarr
from .core import (Ctx, Obligation, PathEnd, Sym, SymBool, SymNum, Unsupported, bterm, cell_cmp, cell_fn, cell_ite,
                   iterm, mkb, num, realval, zval)


NEAR = float(__import__("os").environ.get("PYVC_NEAR", "1e-4"))


class Shared:
    def __init__(self, name, budget, ob_ms, max_paths, tol=None):
        self.name = name
        self.deadline = time.time() + budget
        self.enum = {}
        self.rerun = False
        self.obs = []                 # list of Obligation
        self.labels = {}
        self.ob_ms = ob_ms
        self.max_paths = max_paths
        self.paths = 0
        self.done_paths = 0
        self.solver_s = 0.0
        self.backends = {}
        self.failed = None
        self.stop_on_fail = 3

    def obligation(self, label, cond):
        c = core.CTX
        if c.mute:
            return
        t0 = time.time()
        ob = Obligation(label)
        self.obs.append(ob)
        t = bterm(cond) if not isinstance(cond, z3.BoolRef) else cond
        self.labels[label] = self.labels.get(label, 0) + 1
        if z3.is_true(t) or z3.is_true(z3.simplify(t)):
            ob.status = "proved"
            ob.backend = "simplify"
            self.backends["simplify"] = self.backends.get("simplify", 0) + 1
            return
        neg = z3.Not(t)
        r, model, be = decide(c, neg, self.ob_ms, min(self.deadline, time.time() + 4 * self.ob_ms / 1000.0))
        ob.time = time.time() - t0
        self.solver_s += ob.time
        ob.backend = be
        if r == "unsat":
            ob.status = "proved"
            self.backends[be] = self.backends.get(be, 0) + 1
        elif r == "sat":
            ob.status = "refuted"
            ob.detail = "solver model of the negated obligation"
            try:
                ob.inputs = c.contract.concretize(neg, model)
            except (PathEnd, Unsupported) as e:
                ob.detail += "; no concrete inputs (%s)" % e
        else:
            ob.status = "unknown"
            ob.detail = "solver gave no answer"
        if ob.status != "proved":
            bad = [o for o in self.obs if o.status == "refuted"]
            if len(bad) >= self.stop_on_fail:
                raise StopProof()


class StopProof(BaseException):
    pass


def decide(c, neg, ms, deadline):
    c.flush([neg])
    t0 = time.time()
    s = c.solver
    s.push()
    s.add(neg)
    s.set("timeout", min(ms, 8000))
    try:
        r = s.check()
        if r == z3.unsat:
            return "unsat", None, "z3"
        m = s.model() if r == z3.sat else None
    except z3.Z3Exception:
        r, m = z3.unknown, None
    finally:
        s.pop()
        s.set("timeout", c.limits["branch_ms"])
    if r == z3.sat:
        return "sat", m, "z3"
    # a fresh, non-incremental solver
    f = z3.Solver()
    f.set("timeout", ms)
    f.add(*c.pc)
    f.add(neg)
    try:
        r = f.check()
    except z3.Z3Exception:
        r = z3.unknown
    if r == z3.unsat:
        return "unsat", None, "z3"
    if r == z3.sat:
        return "sat", f.model(), "z3"
    # only facts connected to the goal, arithmetic abstraction through purification + nlsat
    for tac in ("qfnra", "qfufnra"):
        if time.time() > deadline:
            break
        try:
            tt = z3.Then("simplify", "propagate-values", "solve-eqs", "ackermannize_bv" if False else "simplify", "smt") \
                if tac == "qfufnra" else z3.Then("simplify", "solve-eqs", "smt")
            g = tt.solver()
            g.set("timeout", ms)
            g.add(*relevant(c.pc, neg))
            g.add(neg)
            r = g.check()
            if r == z3.unsat:
                return "unsat", None, "z3"
        except z3.Z3Exception:
            pass
        break
    r = cvc5_check(f.to_smt2(), ms)
    if r == "unsat":
        return "unsat", None, "cvc5"
    try:
        r = nlsat(c, neg, ms)
        if r == "unsat":
            return "unsat", None, "z3-nlsat"
    except z3.Z3Exception:
        pass
    return "unknown", None, "z3+cvc5"


def _consts(t, seen, acc):
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name() if x.num_args() == 0 else x.sexpr())
        for k in range(x.num_args()):
            st.append(x.arg(k))


def relevant(pc, goal):
    gs = set()
    _consts(goal, set(), gs)
    infos = []
    for p in pc:
        a = set()
        _consts(p, set(), a)
        infos.append(a)
    used = [False] * len(pc)
    ch = True
    while ch:
        ch = False
        for i, a in enumerate(infos):
            if not used[i] and (a & gs or not a):
                used[i] = True
                if not a <= gs:
                    gs |= a
                    ch = True
    return [p for p, u in zip(pc, used) if u]


def nlsat(c, neg, ms):
    """replace uninterpreted applications by fresh real constants (plus congruence) and use the nonlinear solver"""
    fs = relevant(c.pc, neg) + [neg]
    apps = core.collect_apps(fs)
    sub = []
    alla = []
    for nme, lst in apps.items():
        alla += lst
    alla.sort(key=lambda a: -len(a.sexpr()))
    for k, a in enumerate(alla):
        sub.append((a, z3.Const("app!%d" % k, a.sort())))
    g = [z3.substitute(f, *sub) if sub else f for f in fs]
    if any(core.collect_apps([x]) for x in g):
        # nested applications: substitute repeatedly
        for _ in range(4):
            g = [z3.substitute(f, *sub) for f in g]
    s = z3.Tactic("qfnra-nlsat").solver() if False else z3.Then("simplify", "purify-arith", "simplify", "qfnra-nlsat").solver()
    s.set("timeout", ms)
    s.add(*g)
    return str(s.check())


def cvc5_check(smt, ms):
    """cvc5 in a child process (its own time limit does not bound preprocessing)"""
    import os
    import select
    import signal
    try:
        import cvc5  # noqa
    except ImportError:
        return "unknown"
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = "unknown"
        try:
            os.close(r)
            out = _cvc5_run(smt, ms)
        finally:
            os.write(w, out.encode())
            os._exit(0)
    os.close(w)
    out = "unknown"
    try:
        if select.select([r], [], [], ms / 1000.0 + 2)[0]:
            out = os.read(r, 20).decode() or "unknown"
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    return out


def _cvc5_run(smt, ms):
    import cvc5
    try:
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        s = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        s.setOption("tlimit", str(ms))
        s.setLogic("ALL")
        p = cvc5.InputParser(s)
        txt = smt
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "ob")
        sm = p.getSymbolManager()
        out = "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            r = cmd.invoke(s, sm).strip()
            if r in ("sat", "unsat", "unknown"):
                out = r
        return out
    except Exception:
        return "unknown"


class SymContext(object):
    symbolic = True

    def __init__(self, ctx, shared):
        self.ctx = ctx
        self.shared = shared
        ctx.contract = self
        self.np = npshim.NUMPY
        self.inputs = []
        self.pi = math.pi

    # -------------------------------------------------- code under contract
    def mod(self, name):
        return loader.get_module(name)

    def fn(self, target):
        m, q = target.split(":")
        o = self.mod(m)
        for p in q.split("."):
            o = getattr(o, p)
        return o

    @property
    def iris(self):
        return loader.get_module("iris")

    def unit(self, s, calendar=None):
        return loader.get_module("cf_units").Unit(s, calendar)

    def loop(self, key, inv):
        self.ctx.loops[key] = inv

    def forall(self, shape, f, hint=None):
        return loops.Forall(shape, f, hint)

    def cut(self, target, repl):
        """replace a callee by its contract for the rest of this path"""
        m, q = target.split(":")
        o = self.mod(m)
        ps = q.split(".")
        for p in ps[:-1]:
            o = getattr(o, p)
        old = o.__dict__[ps[-1]] if isinstance(o, type) else getattr(o, ps[-1])
        self.ctx.undo.append(lambda: setattr(o, ps[-1], old))
        setattr(o, ps[-1], staticmethod(repl) if isinstance(old, staticmethod) else repl)

    def replace(self, target, repl):
        """a callee stood in for by its contract, in the proof and in the runs of the real code alike"""
        self.cut(target, repl)

    def std_by_range(self):
        """let standard deviations be known only through the range of their values (sound, and easier than the definition)"""
        self.ctx.std_by_range = True

    # -------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None, dt=None, nan=False):
        v = z3.Real(name)
        n = z3.Bool(name + ".nan") if nan else None
        self.inputs.append(("real", name, v, n))
        if lo is not None:
            self.ctx.assume(v >= self._t(lo))
        if hi is not None:
            self.ctx.assume(v <= self._t(hi))
        return SymNum(v, n, _np.dtype(dt) if dt else None)

    def int(self, name, lo=None, hi=None, dt=None):
        v = z3.Int(name)
        self.inputs.append(("int", name, v, None))
        if lo is not None:
            self.ctx.assume(v >= iterm(lo))
        if hi is not None:
            self.ctx.assume(v <= iterm(hi))
        return SymNum(v, None, _np.dtype(dt) if dt else None)

    def dim(self, name, lo=1, hi=None, small=4):
        v = z3.Int(name)
        self.inputs.append(("dim", name, v, None))
        self.ctx.assume(v >= iterm(lo))
        if hi is not None:
            self.ctx.assume(v <= iterm(hi))
        return core.mki(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs.append(("bool", name, v, None))
        return SymBool(v)

    def flag(self, name):
        """a python bool: both values explored"""
        return self.choice(name, [False, True])

    def choice(self, name, options):
        options = list(options)
        for k, o in enumerate(options[:-1]):
            if self.ctx.branch(z3.Bool("%s=%d" % (name, k))):
                self.inputs.append(("choice", name, k, None))
                return o
        self.inputs.append(("choice", name, len(options) - 1, None))
        return options[-1]

    def array(self, name, shape, dtype="float32", lo=None, hi=None, mask=False, nan=False, cell=None, values=None,
              grid=None, sorted=None, often=None):
        """cell: idx -> extra condition on the cell's value (assumed of every cell)
        sorted: ("lt" or "le", axis): increasing along the axis
        values: the only values that occur;  often: values worth trying (no restriction)"""
        shape = tuple(core.mki(s) if isinstance(s, z3.ArithRef) else s for s in
                      (shape if isinstance(shape, (tuple, list)) else (shape,)))
        dt = _np.dtype(dtype)
        nd = len(shape)
        ints = [z3.IntSort()] * nd
        srt = z3.BoolSort() if dt.kind == "b" else z3.IntSort() if dt.kind in "iu" else z3.RealSort()
        f = z3.Function(name, *(ints + [srt]))
        nf = z3.Function(name + ".nan", *(ints + [z3.BoolSort()])) if nan else None
        mf = z3.Function(name + ".mask", *(ints + [z3.BoolSort()])) if mask else None

        def mk(app, args):
            n = nf(*args) if nf is not None else None
            return mkb(app) if dt.kind == "b" else SymNum(app, n, dt)

        def ax(app):
            out = []
            args = [app.arg(k) for k in range(nd)]
            if lo is not None:
                out.append(app >= self._t(lo, app))
            if hi is not None:
                out.append(app <= self._t(hi, app))
            if values is not None:
                out.append(z3.Or(*[app == self._t(v, app) for v in values]))
            if cell is not None:
                self.ctx.in_spec += 1
                try:
                    out.append(bterm(cell(mk(app, args), *[SymNum(a) for a in args])))
                finally:
                    self.ctx.in_spec -= 1
            if sorted is not None:
                strict, axis = sorted[0] == "lt", sorted[1] % nd
                n = iterm(shape[axis])
                i = args[axis]
                for o in seen[-40:]:
                    oa = [o.arg(k) for k in range(nd)]
                    same = [x == y for k, (x, y) in enumerate(zip(args, oa)) if k != axis]
                    j = oa[axis]
                    inr = z3.And(i >= 0, j >= 0, i < n, j < n, *same)
                    if strict:
                        out.append(z3.Implies(inr, z3.And((i < j) == (app < o), (j < i) == (o < app))))
                    else:
                        out.append(z3.Implies(inr, z3.And(z3.Implies(i <= j, app <= o), z3.Implies(j <= i, o <= app))))
                seen.append(app)
            return out
        seen = []
        if lo is not None or hi is not None or cell is not None or values is not None or sorted is not None:
            self.ctx.uf_ax[name] = ax
        else:
            self.ctx.uf_ax[name] = lambda app: []
        if isinstance(lo, (int, float)) and lo > 0 and nd:
            self.ctx.nonzero_ufs.add(name)
        self.ctx.uf_ax[name + ".nan"] = self.ctx.uf_ax[name + ".mask"] = lambda app: []
        if nd == 0:
            # 0-d: plain constant
            v = z3.Const(name, srt)
            for a in ax(v) if (lo is not None or hi is not None or values is not None or cell is not None) else []:
                self.ctx.assume(a)
            n0 = z3.Bool(name + ".nan") if nan else None
            m0 = z3.Bool(name + ".mask") if mask else None
            self.inputs.append(("array", name, (shape, v, n0, m0, dt), None))
            a = SymArray((), lambda idx: mkb(v) if dt.kind == "b" else SymNum(v, n0, dt), dt)
            if mask:
                a._m, a._isma = (lambda idx: mkb(m0)), True
            return a

        def g(idx):
            args = [iterm(arr.it(i)) for i in idx]
            return mk(f(*args), args)
        a = SymArray(shape, arr.memo(g), dt)
        if mask:
            a._m = arr.memo(lambda idx: mkb(mf(*[iterm(arr.it(i)) for i in idx])))
            a._isma = True
            a.fill_value = _np.ma.default_fill_value(dt)
        self.inputs.append(("array", name, (shape, f, nf, mf, dt), None))
        return a

    def from_fn(self, shape, fn, dtype="float32"):
        """an array given by a function of the index"""
        dt = _np.dtype(dtype)
        return SymArray(tuple(shape), arr.memo(lambda idx: core.cell_astype(fn(*[core.mki(iterm(arr.it(i))) for i in idx]), dt)), dt)

    def masked_array(self, data, mask):
        return self.np.ma.masked_array(data, mask=mask)

    def const(self, values, dtype="float32"):
        return asarr(_np.array(values, dtype=dtype))

    def _t(self, v, like=None):
        if isinstance(v, SymNum):
            t = v.t
        elif isinstance(v, (Sym, SymArray)):
            t = num(v).t
        elif like is not None and like.is_int():
            t = z3.IntVal(int(v))
        else:
            t = realval(v)
        if like is not None and not like.is_int() and t.is_int():
            t = z3.ToReal(t)
        return t

    # -------------------------------------------------- logic
    def and_(self, *a):
        return mkb(z3.And(*[bterm(x) for x in a])) if a else True

    def or_(self, *a):
        return mkb(z3.Or(*[bterm(x) for x in a])) if a else False

    def not_(self, a):
        return mkb(z3.Not(bterm(a)))

    def implies(self, a, b):
        return mkb(z3.Implies(bterm(a), bterm(b)))

    def iff(self, a, b):
        return mkb(bterm(a) == bterm(b))

    def ite(self, c, a, b):
        c = mkb(bterm(c))
        return cell_ite(c, a, b)

    def when(self, cond, fn):
        """implication whose right side is evaluated lazily"""
        return self.implies(cond, fn())

    def _s(self, x):
        if isinstance(x, SymArray):
            return x._as_scalar()
        return x

    def eq(self, a, b, tol=None, atol=None):
        a, b = self._s(a), self._s(b)
        if isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(b, (SymBool, bool, _np.bool_)):
            return mkb(bterm(a) == bterm(b))
        if core.is_special(a) or core.is_special(b):
            return cell_cmp("eq", a, b) if isinstance(a, Sym) or isinstance(b, Sym) else a == b
        na, nb = num(a), num(b)
        r = cell_cmp("eq", na, nb)
        return r

    def near(self, a, b, tol, loose=False):
        """|a-b| <= tol: a tolerance that is part of the specification if loose, otherwise the allowance for floating point (which
        the symbolic values, being reals, hardly need)"""
        a, b = self._s(a), self._s(b)
        return self.le(core.cell_abs(num(a) - num(b)), tol if loose else tol * NEAR)

    def le(self, a, b, tol=None):
        return cell_cmp("le", self._s(a), self._s(b))

    def lt(self, a, b, tol=None):
        return cell_cmp("lt", self._s(a), self._s(b))

    def ge(self, a, b, tol=None):
        return cell_cmp("ge", self._s(a), self._s(b))

    def gt(self, a, b, tol=None):
        return cell_cmp("gt", self._s(a), self._s(b))

    def isnan(self, a):
        return core.cell_isnan(self._s(a))

    def finite_part(self, a):
        """the number a cell holds when it is not NaN"""
        n = num(self._s(a))
        return SymNum(n.t, None, n.dt)

    def finite(self, a):
        return self.not_(core.cell_isnan(self._s(a)))

    def max(self, a, b):
        return core.cell_max(self._s(a), self._s(b))

    def min(self, a, b):
        return core.cell_min(self._s(a), self._s(b))

    def abs(self, a):
        return core.cell_abs(self._s(a))

    def f(self, name, *x):
        x = [self._s(v) for v in x]
        if name == "pow":
            return core.cell_bin("pow", num(x[0]), x[1] if isinstance(x[1], Sym) else x[1])
        if name == "arctan2":
            return core.cell_atan2(*x)
        if name == "floor":
            return SymNum(core.floor_t(num(x[0]).t))
        if name == "trunc":
            return SymNum(core.trunc_t(num(x[0]).t))
        if name in ("ndtr", "ndtri") and not isinstance(x[0], Sym):
            return cell_fn(name, x[0])
        return cell_fn(name, num(x[0]))

    def same_angle(self, a, b):
        """angles less than two turns apart with equal sines and cosines differ by a whole number of turns"""
        a, b = num(self._s(a)), num(self._s(b))
        co = lambda t: num(cell_fn("cos", t)).real()
        si = lambda t: num(cell_fn("sin", t)).real()
        A, B, T = a.real(), b.real(), core._PI * 2
        self.ctx.assume(z3.Implies(z3.And(co(a) == co(b), si(a) == si(b), A - B < T * 2, B - A < T * 2),
                                   z3.Or(A == B, A == B + T, B == A + T)))

    def opaque(self, name, *x):
        """an arbitrary function of the arguments (stands for a callee whose contract is stated elsewhere)"""
        xs = [core.num(v).real() if hasattr(core.num(v), "real") and callable(core.num(v).real) else core.num(v).t for v in x]
        xs = [z3.ToReal(t) if t.is_int() else t for t in xs]
        fn = z3.Function("op_" + name, *([z3.RealSort()] * (len(xs) + 1)))
        return SymNum(fn(*xs), None, _np.dtype("float64"))

    def idiv(self, a, b):
        return a // b

    # -------------------------------------------------- arrays
    def at(self, a, *idx):
        """value stored at idx"""
        if isinstance(a, SymSel):
            a = a.materialise()
        if not isinstance(a, SymArray):
            a = asarr(a)
        return a.get(self._idx(a, idx))

    def _idx(self, a, idx):
        idx = idx[0] if len(idx) == 1 and isinstance(idx[0], tuple) else idx
        out = []
        for i, n in zip(idx, a.shape):
            if isinstance(i, int) and i < 0:
                i = core.mki(z3.simplify(iterm(n) + i))
            out.append(i)
        if len(idx) != a.ndim:
            raise IndexError("wrong number of indices in contract: %r for shape %r" % (idx, a.shape))
        return tuple(arr.it(i) if not isinstance(i, int) else i for i in out)

    def split_at(self, a, *idx):
        """the cell, case-splitting on which assignment wrote it"""
        self.ctx.splitting = True
        try:
            return self.at(a, *idx)
        finally:
            self.ctx.splitting = False

    def name_bounds(self):
        """name the integer results of min() and max() from here on"""
        self.ctx.naming = True

    def masked(self, a, *idx):
        if isinstance(a, SymSel):
            a = a.materialise()
        if not isinstance(a, SymArray):
            a = asarr(a)
        m = a.mget(self._idx(a, idx))
        return m if isinstance(m, (bool, SymBool)) else mkb(bterm(m))

    def isma(self, a):
        return isinstance(a, (SymArray, SymSel)) and bool(a.isma)

    def shape(self, a):
        return tuple(a.shape)

    def same_shape(self, a, b):
        a, b = (x if isinstance(x, tuple) else tuple(x.shape) for x in (a, b))
        if len(a) != len(b):
            return False
        return self.and_(*[mkb(iterm(x) == iterm(y)) for x, y in zip(a, b)]) if a else True

    def dtype_is(self, a, dt):
        return a.dtype == _np.dtype(dt)

    def snap(self, a):
        """contents now (arrays are mutable)"""
        return a.copy()

    def sum_list(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def sum(self, n, fn):
        return self.from_term(npshim.sum_term(n if isinstance(n, int) else core.iterm(n), lambda k: num(fn(SymNum(k))).real()))

    def from_term(self, t):
        return SymNum(t)

    def asum(self, shape, fn):
        """sum over a box of indices"""
        shape = list(shape)

        def rec(pre, rest):
            if not rest:
                return num(fn(*pre)).real()
            d = rest[0]
            return npshim.sum_term(d if isinstance(d, int) or z3.is_expr(d) else core.iterm(d), lambda k: rec(pre + [core.mki(k) if zval(k) is not None else SymNum(k)], rest[1:]))
        return SymNum(rec([], shape))

    # -------------------------------------------------- checks
    def assume(self, cond):
        if isinstance(cond, (bool, _np.bool_)):
            if not cond:
                raise PathEnd()
            return
        self.ctx.assume(bterm(cond))
        if not self.ctx.limits.get("lazy_assume"):
            if self.ctx.solver.check() == z3.unsat:
                raise PathEnd()

    def assume_all(self, shape, fn):
        shape = [shape] if not isinstance(shape, (tuple, list)) else list(shape)

        def cond(tup):
            self.ctx.in_spec += 1
            try:
                return fn(*[core.mki(t) for t in tup])
            finally:
                self.ctx.in_spec -= 1
        if all(isinstance(s, int) for s in shape) and _np.prod(shape) <= 64:
            for ix in _np.ndindex(*shape):
                self.ctx.assume(bterm(cond([z3.IntVal(i) for i in ix])))
            return
        self.ctx.add_universal(tuple(shape), cond)

    def use_index(self, *idx):
        """name an index at which assumed universal facts are needed"""
        self.ctx.add_index(tuple(iterm(i) for i in idx))
        self.ctx.flush([])

    def check(self, label, cond):
        self.shared.obligation(label, cond)

    def lemma(self, label, cond):
        """an intermediate assertion: an obligation, and a fact from here on"""
        self.shared.obligation(label, cond)
        if self.shared.obs[-1].status == "proved":
            self.ctx.assume(bterm(cond))

    def ghost(self, x):
        """a fresh name for a value (kept opaque to the solver but for its definition)"""
        x = core.num(x)
        t = x.t
        v = self.ctx.fresh_int("g") if t.is_int() else self.ctx.fresh_real("g")
        self.ctx.assume(v == t)
        return SymNum(v, x.nan, x.dt)

    def skolem(self, shape, base="i"):
        """an arbitrary index of a (non-empty) box; None when the box is empty"""
        shape = [shape] if not isinstance(shape, (tuple, list)) else list(shape)
        out = []
        for n in shape:
            if isinstance(n, (int, _np.integer)) and n == 1:
                out.append(0)
                continue
            if isinstance(n, (int, _np.integer)):
                if n <= 0:
                    return None
            elif not self.ctx.branch(iterm(n) > 0):
                return None
            i = self.ctx.fresh_int(base)
            self.ctx.assume(z3.And(i >= 0, i < iterm(n)))
            out.append(SymNum(i))
        self.use_index(*out)
        return tuple(out)

    def check_all(self, label, shape, fn):
        idx = self.skolem(shape)
        if idx is None:
            return
        cond = fn(*idx)
        self.shared.obligation(label, cond)

    def index(self, label, shape):
        """an arbitrary index, fixed for the rest of the contract (concretely: each in turn)"""
        idx = self.skolem(shape, label)
        if idx is None:
            raise PathEnd()
        return idx

    def raises(self, exc, fn):
        try:
            r = fn()
        except exc:
            return True, None
        return False, r

    def cover(self, label):
        self.shared.labels.setdefault("cover:" + label, 0)
        if self.ctx.solver.check() != z3.unsat:
            self.shared.labels["cover:" + label] += 1

    # -------------------------------------------------- counterexamples
    def concretize(self, neg, model0):
        c = self.ctx
        dims = [i[2] for i in self.inputs if i[0] == "dim"]
        best = None
        for cap in (2, 3, 4, 6, 10, None):
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(*c.pc)
            s.add(neg)
            if cap is not None:
                for d in dims:
                    s.add(d <= cap)
            if s.check() == z3.sat:
                best = s.model()
                # instantiate universal facts on the whole (small) model
                if c.universals and dims and cap is not None:
                    c2 = []
                    vals = {d.get_id(): zval(best.eval(d, model_completion=True)) for d in dims}
                    for d in dims:
                        s.add(d == vals[d.get_id()])
                    for u in c.universals:
                        sh = [zval(z3.simplify(best.eval(iterm(n), model_completion=True))) for n in u.shape]
                        if any(x is None for x in sh) or _np.prod(sh) > 200:
                            continue
                        for ix in _np.ndindex(*[int(x) for x in sh]):
                            try:
                                body = bterm(u.cond(tuple(z3.IntVal(i) for i in ix)))
                            except BaseException:
                                continue
                            c2.append(body if u.guard is None else z3.Implies(u.guard, body))
                    got = []
                    c.instantiate(c2, got.append)
                    s.add(*c2)
                    s.add(*got)
                    if s.check() == z3.sat:
                        best = s.model()
                    else:
                        continue
                break
        m = best if best is not None else model0
        if m is None:
            return None
        return self.dump(m)

    def dump(self, m):
        ev = lambda t: zval(m.eval(t, model_completion=True))

        def real_of(t):
            x = m.eval(t, model_completion=True)
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            v = zval(x)
            return None if v is None else (float(v) if not isinstance(v, (int, bool)) else v)
        out = {}
        for kind, name, v, n in self.inputs:
            if kind == "choice":
                out[name] = v
            elif kind in ("int", "dim"):
                out[name] = ev(v)
            elif kind == "bool":
                out[name] = bool(ev(v))
            elif kind == "real":
                out[name] = "nan" if n is not None and z3.is_true(m.eval(n, model_completion=True)) else real_of(v)
            elif kind == "array":
                shape, f, nf, mf, dt = v
                sh = [int(s) if isinstance(s, (int, _np.integer)) else int(ev(iterm(s))) for s in shape]
                if _np.prod(sh) > 4000:
                    return None
                # bound axioms hold only for instantiated applications: instantiate for every cell
                data, mask = [], []
                for ix in _np.ndindex(*sh):
                    args = [z3.IntVal(i) for i in ix]
                    t = f(*args) if args else f
                    x = real_of(t)
                    if nf is not None and z3.is_true(m.eval(nf(*args) if args else nf, model_completion=True)):
                        x = "nan"
                    data.append(x)
                    if mf is not None:
                        mask.append(bool(z3.is_true(m.eval(mf(*args) if args else mf, model_completion=True))))
                out[name] = {"shape": sh, "data": data, "mask": mask if mf is not None else None}
        return out


class Slots(object):
    """processor slots shared by every exploring process"""

    def __init__(self, n):
        import multiprocessing as mp
        self.sem = mp.Semaphore(n)
        self.stop = None

    def new_stop(self):
        import multiprocessing as mp
        self.stop = mp.Event()


_SUM = ("paths", "done_paths", "solver_s")


def _child_result(shared):
    d = {k: getattr(shared, k) for k in _SUM}
    d.update(obs=[(o.label, o.status, o.detail, o.inputs, getattr(o, "backend", None), getattr(o, "time", 0)) for o in shared.obs],
             labels=shared.labels, backends=shared.backends, rerun=shared.rerun, error=shared.error,
             trace=getattr(shared, "trace", None), exc_inputs=getattr(shared, "exc_inputs", None),
             mods={k: v for k, v in shared.enum.items() if isinstance(k, tuple) and k and k[0] == "loopmods"})
    return d


def _merge(shared, d):
    for k in _SUM:
        setattr(shared, k, getattr(shared, k) + d[k])
    for label, status, detail, inputs, be, tm in d["obs"]:
        o = Obligation(label)
        o.status, o.detail, o.inputs, o.backend, o.time = status, detail, inputs, be, tm
        shared.obs.append(o)
    for k, v in d["labels"].items():
        shared.labels[k] = shared.labels.get(k, 0) + v
    for k, v in d["backends"].items():
        shared.backends[k] = shared.backends.get(k, 0) + v
    for k, v in d["mods"].items():
        shared.enum.setdefault(k, set()).update(v)
    shared.rerun = shared.rerun or d["rerun"]
    if d["error"] and not shared.error:
        shared.error = d["error"]
        shared.trace = d["trace"]
    if d["exc_inputs"] is not None and getattr(shared, "exc_inputs", None) is None:
        shared.exc_inputs = d["exc_inputs"]


def explore(fn, budget=60.0, ob_ms=10000, branch_ms=2000, max_paths=400, max_branches=400, concretize=40, muted=False,
            slots=None):
    """run contract fn over every path; returns Shared with obligations.
    slots: idle processors take over part of the unexplored paths (by forking)"""
    import os
    import pickle
    sys.setrecursionlimit(20000)
    enum0 = {}
    for attempt in range(6):
        shared = Shared(fn.__name__, budget, ob_ms, max_paths)
        if attempt:
            shared.enum = {k: v for k, v in enum0.items() if isinstance(k, tuple) and k and k[0] == "loopmods"}
        todo = [[]]
        core.WATCH_S[0] = ob_ms / 1000.0 + 2
        limits = {"branch_ms": branch_ms, "max_branches": max_branches, "concretize": concretize}
        shared.error = None
        kids, up, boss = [], None, os.getppid()
        try:
            while todo:
                prefix = todo.pop()
                shared.paths += 1
                if shared.paths > max_paths:
                    raise Unsupported("too many paths")
                if time.time() > shared.deadline:
                    raise Unsupported("time budget exhausted")
                if up is not None and os.getppid() != boss:
                    slots.sem.release()
                    os._exit(1)
                if slots is not None and slots.stop is not None and slots.stop.is_set():
                    raise StopProof()
                ctx = Ctx(prefix, limits, shared)
                ctx.mute = muted
                ctx.undo = []
                core.set_ctx(ctx)
                sc = SymContext(ctx, shared)
                try:
                    fn(sc)
                    if ctx.solver.check() != z3.unsat:
                        shared.done_paths += 1
                except PathEnd:
                    pass
                except Exception:
                    infeasible = False
                    try:
                        infeasible = ctx.sat(z3.BoolVal(True), 5000) == z3.unsat
                    except BaseException:
                        pass
                    if infeasible:
                        todo.extend(ctx.pending)
                        if shared.rerun:
                            break
                        continue
                    try:
                        shared.exc_inputs = sc.concretize(z3.BoolVal(True), None)
                    except BaseException:
                        shared.exc_inputs = None
                    raise
                finally:
                    for u in reversed(ctx.undo):
                        u()
                    core.set_ctx(None)
                todo.extend(ctx.pending)
                if shared.rerun:
                    break
                while slots is not None and len(todo) >= 2 and slots.sem.acquire(block=False):
                    give = todo[::2]
                    r, w = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        os.close(r)
                        for _, q in kids:
                            os.close(q)
                        if up is not None:
                            os.close(up)
                        kids, up, boss = [], w, os.getppid()
                        todo = give
                        shared.obs, shared.labels, shared.backends = [], {}, {}
                        for k in _SUM:
                            setattr(shared, k, 0)
                        break
                    os.close(w)
                    kids.append((pid, r))
                    todo = todo[1::2]
        except StopProof:
            if slots is not None and slots.stop is not None:
                slots.stop.set()
        except Unsupported as e:
            shared.error = "unsupported: %s" % e
        except RecursionError as e:
            shared.error = "engine recursion limit"
        except z3.Z3Exception as e:
            import traceback
            shared.trace = traceback.format_exc()
            shared.error = "engine: %s" % e
            shared.exc = e
        except Exception as e:     # an exception escaping the code under contract (or the contract)
            import traceback
            import vc
            if vc.helper_gone(e):
                shared.error = "unsupported: a helper the contract is about is not there (%s)" % e
            else:
                shared.error = "exception: %s: %s" % (type(e).__name__, e)
            shared.trace = traceback.format_exc()
        if slots is not None and (kids or up is not None):
            slots.sem.release()                      # idle from here on
            for pid, r in kids:
                if shared.rerun:
                    try:
                        os.kill(pid, 9)
                        slots.sem.release()
                    except OSError:
                        pass
                    os.close(r)
                else:
                    with os.fdopen(r, "rb") as f:
                        b = f.read()
                    try:
                        _merge(shared, pickle.loads(b))
                    except Exception:
                        shared.error = shared.error or "unsupported: an exploring process ended early"
                try:
                    os.waitpid(pid, 0)
                except OSError:
                    pass
            if up is not None:
                with os.fdopen(up, "wb") as f:
                    f.write(pickle.dumps(_child_result(shared)))
                os._exit(0)
            slots.sem.acquire(block=True, timeout=20)
        if not shared.rerun:
            return shared
        enum0 = shared.enum
    return shared
