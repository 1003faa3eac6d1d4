"""Core of the verification-condition generator: symbolic scalars, path exploration, solver queries.

Floats are mathematical reals carrying an optional "not finite" flag; integers are unbounded.
"""
import math
import os
import time
from fractions import Fraction

import numpy as _np
import threading

import z3

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)


WATCH_S = [14.0]
_check = z3.Solver.check


def _watched(self, *a):
    """z3's own timeout is not honoured by every tactic: interrupt the call when it overruns"""
    t = threading.Timer(WATCH_S[0], z3.main_ctx().interrupt)
    t.daemon = True
    t.start()
    try:
        return _check(self, *a)
    finally:
        t.cancel()


z3.Solver.check = _watched


class Unsupported(BaseException):
    """The engine cannot represent this construct: the function is outside the verifier's reach."""


class PathEnd(BaseException):
    """End of the current path (infeasible assumption or cut loop body)."""


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------- literals
def frac(x):
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, _np.floating):
        x = x.item() if x.dtype == _np.float64 else float(str(x))
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("non-finite literal")
        return Fraction(repr(x))
    raise Unsupported("literal %r" % type(x))


def realval(x):
    f = frac(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def is_conc_num(x):
    return isinstance(x, (int, float, bool, _np.number, _np.bool_, Fraction))


def is_special(x):
    return isinstance(x, (float, _np.floating)) and (math.isnan(x) or math.isinf(x))


def is_inf(x):
    return isinstance(x, (float, _np.floating)) and math.isinf(x)


def zval(e):
    """python value of a constant z3 term, or None."""
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


# ---------------------------------------------------------------- scalars
class Sym:
    __slots__ = ()


def _or(*xs):
    xs = [x for x in xs if x is not None and not z3.is_false(x)]
    if not xs:
        return None
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*xs)


class SymBool(Sym):
    __slots__ = ("t",)
    dtype = _np.dtype(bool)
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self.t)

    def __and__(self, o):
        from .arr import SymArray
        if isinstance(o, SymArray) or isinstance(o, _np.ndarray):
            return NotImplemented
        return mkb(z3.And(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        from .arr import SymArray
        if isinstance(o, SymArray) or isinstance(o, _np.ndarray):
            return NotImplemented
        return mkb(z3.Or(self.t, bterm(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.Xor(self.t, bterm(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkb(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, _np.bool_)):
            return mkb(self.t == bterm(o))
        return num(self) == o

    def __ne__(self, o):
        return ~mksb(self.__eq__(o))

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "SymBool(%s)" % self.t

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def astype(self, dt, **k):
        return cell_astype(self, dt)

    def item(self):
        return self

    def __add__(self, o):
        return num(self) + o

    def __radd__(self, o):
        return o + num(self)

    def __mul__(self, o):
        return num(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return num(self) - o

    def __rsub__(self, o):
        return o - num(self)

    def __int__(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return 1 if bool(self) else 0


def mksb(x):
    return x if isinstance(x, SymBool) else SymBool(z3.BoolVal(bool(x)))


def mkb(t):
    """bool cell from z3 term: constant-folds."""
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    s = t
    if z3.is_app(t) and t.num_args() and t.num_args() <= 3:
        # cheap folding
        k = t.decl().kind()
        if k == z3.Z3_OP_NOT:
            a = t.arg(0)
            if z3.is_true(a):
                return False
            if z3.is_false(a):
                return True
            if z3.is_not(a):
                return mkb(a.arg(0))
        elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            s = z3.simplify(t)
        elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            if all(zval(t.arg(i)) is not None for i in range(t.num_args())) or t.arg(0).eq(t.arg(1)):
                s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SymBool(s if s is not t else t)


def bterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SymNum):
        return nonzero(x)
    if is_conc_num(x):
        return z3.BoolVal(x != 0)
    if isinstance(x, z3.BoolRef):
        return x
    if hasattr(x, "_as_scalar"):
        return bterm(x._as_scalar())
    raise Unsupported("bool of %r" % type(x))


def nonzero(x):
    t = x.t != 0
    return t if x.nan is None else z3.Or(x.nan, t)


class SymNum(Sym):
    """Symbolic number.  t: z3 Int/Real term; nan: z3 Bool or None; dt: numpy dtype or None (python scalar)."""

    __slots__ = ("t", "nan", "dt")
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, t, nan=None, dt=None):
        self.t = t
        self.nan = nan
        self.dt = dt

    @property
    def dtype(self):
        if self.dt is not None:
            return self.dt
        return _np.dtype(int) if self.isint else _np.dtype(float)

    @property
    def isint(self):
        return self.t.sort_kind() == z3.Z3_INT_SORT if hasattr(self.t, "sort_kind") else self.t.is_int()

    def real(self):
        return z3.ToReal(self.t) if self.t.is_int() else self.t

    def const(self):
        return zval(self.t) if self.nan is None else None

    # conversions
    def __bool__(self):
        return CTX.branch(nonzero(self))

    def __index__(self):
        if not self.t.is_int():
            raise TypeError("not an integer")
        return CTX.concretize(self.t)

    def __int__(self):
        return CTX.concretize(self.t if self.t.is_int() else trunc_t(self.t))

    def __float__(self):
        c = self.const()
        if c is None:
            c = CTX.known_const(self.t)
        if c is None:
            raise Unsupported("float() of a symbolic number")
        return float(c)

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "Sym(%s)" % (self.t,)

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    # arithmetic
    def _bin(self, op, o, r=False):
        if not (isinstance(o, (SymNum, SymBool)) or is_conc_num(o)):
            return NotImplemented
        return cell_bin(op, o, self) if r else cell_bin(op, self, o)

    def __add__(self, o):
        return self._bin("add", o)

    def __radd__(self, o):
        return self._bin("add", o, True)

    def __sub__(self, o):
        return self._bin("sub", o)

    def __rsub__(self, o):
        return self._bin("sub", o, True)

    def __mul__(self, o):
        return self._bin("mul", o)

    def __rmul__(self, o):
        return self._bin("mul", o, True)

    def __truediv__(self, o):
        return self._bin("div", o)

    def __rtruediv__(self, o):
        return self._bin("div", o, True)

    def __floordiv__(self, o):
        return self._bin("fdiv", o)

    def __rfloordiv__(self, o):
        return self._bin("fdiv", o, True)

    def __mod__(self, o):
        return self._bin("mod", o)

    def __rmod__(self, o):
        return self._bin("mod", o, True)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        return self._bin("pow", o)

    def __rpow__(self, o):
        return self._bin("pow", o, True)

    def __neg__(self):
        return SymNum(-self.t, self.nan, self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        return cell_abs(self)

    def _cmp(self, op, o):
        if not (isinstance(o, (SymNum, SymBool)) or is_conc_num(o)):
            return NotImplemented
        return cell_cmp(op, self, o)

    def __lt__(self, o):
        return self._cmp("lt", o)

    def __le__(self, o):
        return self._cmp("le", o)

    def __gt__(self, o):
        return self._cmp("gt", o)

    def __ge__(self, o):
        return self._cmp("ge", o)

    def __eq__(self, o):
        r = self._cmp("eq", o)
        return False if r is NotImplemented and not hasattr(o, "shape") else r

    def __ne__(self, o):
        r = self._cmp("ne", o)
        return True if r is NotImplemented and not hasattr(o, "shape") else r

    def __round__(self, n=None):
        if n in (None, 0):
            r = SymNum(round_half_even(self.real()), self.nan, None)
            return r
        s = 10 ** n
        return SymNum(z3.ToReal(round_half_even(self.real() * s)) / s, self.nan, self.dt)

    def __trunc__(self):
        return SymNum(trunc_t(self.real()))

    def __floor__(self):
        return SymNum(floor_t(self.t))

    def __ceil__(self):
        return SymNum(-floor_t(-self.t))

    def astype(self, dt, **k):
        return cell_astype(self, dt)

    def item(self):
        return SymNum(self.t, self.nan, None)

    def is_integer(self):
        return mkb(z3.IsInt(self.real()))

    def copy(self):
        return self

    def all(self, *a, **k):
        return mkb(nonzero(self))

    any = all

    def flatten(self):
        from .arr import asarr
        return asarr(self).flatten()

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    def min(self, *a, **k):
        return self

    max = sum = mean = min

    def squeeze(self):
        return self

    def total_seconds(self):  # never
        raise AttributeError

    def clip(self, lo, hi, **k):
        return cell_min(cell_max(self, lo), hi)


def floor_t(t):
    return t if t.is_int() else z3.ToInt(t)


def trunc_t(t):
    if t.is_int():
        return t
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def round_half_even(t):
    if t.is_int():
        return t
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    return z3.If(d < z3.RealVal("1/2"), f,
                 z3.If(d > z3.RealVal("1/2"), f + 1, z3.If(f % 2 == 0, f, f + 1)))


def num(x):
    """SymNum for x (bool -> int)."""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return SymNum(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)), None, None)
    if isinstance(x, (bool, _np.bool_)):
        return SymNum(z3.IntVal(int(x)))
    if isinstance(x, (int, _np.integer)):
        return SymNum(z3.IntVal(int(x)), None, x.dtype if isinstance(x, _np.generic) else None)
    if isinstance(x, (float, _np.floating)):
        dt = x.dtype if isinstance(x, _np.generic) else None
        if math.isnan(x) or math.isinf(x):
            return SymNum(z3.RealVal(0), z3.BoolVal(True), dt)
        return SymNum(realval(x), None, dt)
    if isinstance(x, Fraction):
        return SymNum(realval(x))
    if hasattr(x, "_as_scalar"):
        return num(x._as_scalar())
    raise Unsupported("number from %r" % type(x))


_RANK = {"b": 0, "i": 1, "u": 1, "f": 2, "c": 3, "O": 4, "M": 5, "m": 5}


def dt_of(x):
    """(dtype, strong) of a scalar cell; python scalars are weak."""
    if isinstance(x, SymNum):
        return x.dt
    if isinstance(x, _np.generic):
        return x.dtype
    return None


def promote(a, b, ascal=True, bscal=True):
    """numpy-1.x promotion of two dtypes, where xscal tells a scalar operand.  None = python scalar."""
    if a is None and b is None:
        return None
    if a is None or (ascal and not bscal):
        if b is None:
            return a
        ka = _RANK[a.kind] if a is not None else 1
        if a is None:
            return b
        if _RANK[a.kind] <= _RANK[b.kind]:
            return b
        return _np.promote_types(_np.dtype({"f": "float16", "i": "int8"}.get(a.kind, a)), b) if b.kind != "i" and b.kind != "u" and b.kind != "b" else _np.promote_types(a, b)
    if b is None or (bscal and not ascal):
        return promote(b, a, bscal, ascal)
    return _np.promote_types(a, b)


def _pydt(x):
    """dtype kind for python-scalar weak operand."""
    if isinstance(x, SymNum):
        return "i" if x.t.is_int() else "f"
    if isinstance(x, (bool, _np.bool_, SymBool)):
        return "b"
    if isinstance(x, (int, _np.integer)):
        return "i"
    return "f"


def res_dt(a, b, ascal=True, bscal=True, div=False):
    da, db = dt_of(a), dt_of(b)
    if da is None and db is None:
        return None
    r = promote(da, db, ascal, bscal)
    if r is not None and r.kind in "iub":
        if div or "f" in (_pydt(a) if da is None else "", _pydt(b) if db is None else ""):
            r = _np.dtype("float64") if r.itemsize > 2 or r.kind != "b" else _np.dtype("float64")
        elif r.kind == "b":
            r = None
    return r


def cell_bin(op, a, b):
    """binary arithmetic on cells"""
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return _conc_bin(op, a, b)
    na, nb = num(a), num(b)
    ta, tb = na.t, nb.t
    nan = _or(na.nan, nb.nan)
    dt = res_dt(a, b, div=(op == "div"))
    if op in ("add", "sub", "mul"):
        if ta.is_int() != tb.is_int():
            ta, tb = na.real(), nb.real()
        if op == "add":
            t = tb if _z(ta) == 0 else ta if _z(tb) == 0 else ta + tb
        elif op == "sub":
            t = ta if _z(tb) == 0 else ta - tb
        else:
            if _z(ta) == 1:
                t = tb
            elif _z(tb) == 1:
                t = ta
            elif _z(ta) == 0 or _z(tb) == 0:
                t = z3.IntVal(0) if ta.is_int() else z3.RealVal(0)
            else:
                t = ta * tb
        return SymNum(t, nan, dt)
    if op == "div":
        ta, tb = na.real(), nb.real()
        c = zval(tb)
        if c is not None:
            if c == 0:
                if dt is None:
                    raise ZeroDivisionError("division by zero")
                return SymNum(z3.RealVal(0), z3.BoolVal(True), dt)
            return SymNum(ta / tb if c != 1 else ta, nan, dt)
        if dt is None:
            if CTX.branch(tb == 0):
                raise ZeroDivisionError("float division by zero")
            return SymNum(ta / tb, nan, dt)
        return SymNum(ta / tb, nan if _never_zero(tb) else _or(nan, tb == 0), dt)
    if op in ("fdiv", "mod"):
        if not (ta.is_int() and tb.is_int()):
            ta, tb = na.real(), nb.real()
            if dt is None and zval(tb) is None and CTX.branch(tb == 0):
                raise ZeroDivisionError("float modulo")
            q = z3.ToInt(ta / tb)
            if op == "fdiv":
                return SymNum(z3.ToReal(q), nan if zval(tb) else _or(nan, tb == 0), dt)
            return SymNum(ta - z3.ToReal(q) * tb, nan if zval(tb) else _or(nan, tb == 0), dt)
        c = zval(tb)
        if c is None:
            if CTX.branch(tb == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            pos = CTX.branch(tb > 0)
        else:
            if c == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            pos = c > 0
        if pos:
            return SymNum(ta / tb if op == "fdiv" else ta % tb, nan, dt)
        if op == "fdiv":
            return SymNum((-ta) / (-tb), nan, dt)
        return SymNum(-((-ta) % (-tb)), nan, dt)
    if op == "pow":
        return cell_pow(na, nb, nan, dt, b)
    raise Unsupported("op " + op)


def _z(t):
    return zval(t)


def _conc_bin(op, a, b):
    import operator as o
    f = {"add": o.add, "sub": o.sub, "mul": o.mul, "div": o.truediv, "fdiv": o.floordiv, "mod": o.mod,
         "pow": o.pow}[op]
    if op in ("div", "fdiv", "mod") and (isinstance(a, _np.generic) or isinstance(b, _np.generic)):
        with _np.errstate(all="ignore"):
            return f(a, b)
    with _np.errstate(all="ignore"):
        return f(a, b)


def _never_zero(t):
    """terms nonzero by what is known of every cell: products of positive functions and of inputs stated to be positive"""
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return not z3.is_true(z3.simplify(t == 0))
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        return t.decl().name() in ("ndtr", "exp") or t.decl().name() in CTX.nonzero_ufs
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL, z3.Z3_OP_UMINUS):
        return all(_never_zero(c) for c in t.children())
    return False


def cell_pow(na, nb, nan, dt, braw):
    c = zval(nb.t)
    if c is not None and c == int(c) and 0 <= c <= 8:
        n = int(c)
        base = na.t
        if not nb.t.is_int():
            base = na.real()
        if n == 0:
            return SymNum(z3.IntVal(1) if base.is_int() else z3.RealVal(1), None, dt)
        t = base
        for _ in range(n - 1):
            t = t * base
        return SymNum(t, nan, dt)
    if c is not None and c == int(c) and -8 <= c < 0:
        p = cell_pow(na, num(-c), nan, dt, None)
        return cell_bin("div", _np.float64(1.0) if dt is not None else 1.0, p)
    if c is not None and c == Fraction(1, 2):
        return cell_fn("sqrt", na)
    t = uf("pow", na.real(), nb.real())
    if c is None and zval(na.t) is not None and zval(na.t) > 0:
        bad = None
    else:
        bad = na.t < 0 if c is None or c > 0 else na.t <= 0
    return SymNum(t, _or(nan, bad), dt)


def cell_cmp(op, a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        import operator as o
        return bool({"lt": o.lt, "le": o.le, "gt": o.gt, "ge": o.ge, "eq": o.eq, "ne": o.ne}[op](a, b))
    if is_inf(a) or is_inf(b):
        # finite symbolic against an infinity
        s, inf, flip = (a, b, False) if is_inf(b) else (b, a, True)
        big = inf > 0
        lt = big if not flip else not big   # a < b ?
        nan = num(s).nan
        r = {"lt": lt, "le": lt, "gt": not lt, "ge": not lt, "eq": False, "ne": True}[op]
        if nan is None:
            return r
        return mkb(z3.Not(nan)) if r and op != "ne" else r
    if op in ("eq", "ne") and isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(b, (SymBool, bool, _np.bool_)):
        t = bterm(a) == bterm(b)
        return mkb(t if op == "eq" else z3.Not(t))
    na, nb = num(a), num(b)
    ta, tb = na.t, nb.t
    if ta.is_int() != tb.is_int():
        ta, tb = na.real(), nb.real()
    t = {"lt": lambda: ta < tb, "le": lambda: ta <= tb, "gt": lambda: ta > tb, "ge": lambda: ta >= tb,
         "eq": lambda: ta == tb, "ne": lambda: ta != tb}[op]()
    nan = _or(na.nan, nb.nan)
    if nan is not None:
        if z3.is_true(nan):
            return op == "ne"
        t = z3.Or(nan, t) if op == "ne" else z3.And(z3.Not(nan), t)
    return mkb(t)


def cell_ite(c, a, b):
    """if c then a else b, pointwise; c a bool cell"""
    if isinstance(c, (SymNum,)) or (is_conc_num(c) and not isinstance(c, (bool, _np.bool_))):
        c = mkb(bterm(c))
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    if a is b:
        return a
    ba, bb = isinstance(a, (SymBool, bool, _np.bool_)), isinstance(b, (SymBool, bool, _np.bool_))
    if ba and bb:
        ta, tb = bterm(a), bterm(b)
        return mkb(ta) if ta.eq(tb) else mkb(z3.simplify(z3.If(c.t, ta, tb)))
    if isinstance(a, CplxCell) or isinstance(b, CplxCell):
        a, b = cplx(a), cplx(b)
        return CplxCell(cell_ite(c, a.re, b.re), cell_ite(c, a.im, b.im))
    if not (isinstance(a, Sym) or is_conc_num(a)) or not (isinstance(b, Sym) or is_conc_num(b)):
        if a == b:
            return a
        raise Unsupported("ite of non-numeric cells")
    na, nb = num(a), num(b)
    ta, tb = na.t, nb.t
    if ta.is_int() != tb.is_int():
        ta, tb = na.real(), nb.real()
    t = ta if ta.eq(tb) else z3.If(c.t, ta, tb)
    nan = None
    if na.nan is not None or nb.nan is not None:
        x = na.nan if na.nan is not None else z3.BoolVal(False)
        y = nb.nan if nb.nan is not None else z3.BoolVal(False)
        nan = x if x.eq(y) else z3.simplify(z3.If(c.t, x, y))
        if z3.is_false(nan):
            nan = None
    return SymNum(t, nan, promote(dt_of(a), dt_of(b)))


def cell_max(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return max(a, b)
    if is_inf(a):
        return a if a > 0 else b
    if is_inf(b):
        return b if b > 0 else a
    c = cell_cmp("ge", num_nn(a), num_nn(b))
    return _nanprop(cell_ite(c, a, b), a, b)


def cell_min(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return min(a, b)
    if is_inf(a):
        return b if a > 0 else a
    if is_inf(b):
        return a if b > 0 else b
    c = cell_cmp("le", num_nn(a), num_nn(b))
    return _nanprop(cell_ite(c, a, b), a, b)


def num_nn(a):
    n = num(a)
    return SymNum(n.t, None, n.dt) if n.nan is not None else n


def _nanprop(r, a, b):
    nan = _or(num(a).nan, num(b).nan)
    if isinstance(r, SymNum):
        return SymNum(r.t, nan, r.dt)
    if nan is not None:
        r = num(r)
        return SymNum(r.t, nan, r.dt)
    return r


def cell_abs(a):
    if isinstance(a, CplxCell):
        return cell_fn("sqrt", cell_bin("add", cell_bin("mul", a.re, a.re), cell_bin("mul", a.im, a.im)))
    if not isinstance(a, Sym):
        return abs(a)
    a = num(a)
    return SymNum(z3.If(a.t >= 0, a.t, -a.t), a.nan, a.dt)


def cell_neg(a):
    if isinstance(a, CplxCell):
        return CplxCell(cell_neg(a.re), cell_neg(a.im))
    return -num(a) if isinstance(a, Sym) else -a


def cell_not(a):
    if isinstance(a, SymBool):
        return ~a
    if isinstance(a, (bool, _np.bool_)):
        return not a
    if isinstance(a, SymNum):
        return mkb(z3.Not(nonzero(a)))
    return a == 0


def cell_and(a, b):
    return mkb(z3.And(bterm(a), bterm(b))) if isinstance(a, Sym) or isinstance(b, Sym) else (bool(a) and bool(b))


def cell_or(a, b):
    return mkb(z3.Or(bterm(a), bterm(b))) if isinstance(a, Sym) or isinstance(b, Sym) else (bool(a) or bool(b))


def cell_isnan(a):
    if isinstance(a, CplxCell):
        return cell_or(cell_isnan(a.re), cell_isnan(a.im))
    if isinstance(a, SymNum):
        return False if a.nan is None else mkb(a.nan)
    if isinstance(a, (float, _np.floating)):
        return math.isnan(a)
    if isinstance(a, (complex, _np.complexfloating)):
        return bool(_np.isnan(a))
    return False


def _wrap(t, n, dt):
    """a cast to a one- or two-byte or unsigned integer wraps round (wider signed integers: mathematical)"""
    sd = _np.dtype(n.dt) if n.dt is not None else None
    if not (dt.itemsize <= 2 or dt.kind == "u") or sd is not None and (sd.kind == "b" or _np.can_cast(sd, dt)):
        return t
    t = z3.simplify(t)
    info = _np.iinfo(dt)
    lo, hi = int(info.min), int(info.max)
    if z3.is_int_value(t):
        return z3.IntVal((t.as_long() - lo) % (hi - lo + 1) + lo)
    if _small_leaves(t, lo, hi):
        return t
    return z3.If(z3.And(t >= lo, t <= hi), t, (t - lo) % (hi - lo + 1) + lo)


def _small_leaves(t, lo, hi):
    if z3.is_int_value(t):
        return lo <= t.as_long() <= hi
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return _small_leaves(t.arg(1), lo, hi) and _small_leaves(t.arg(2), lo, hi)
    return False


def cell_astype(a, dt):
    dt = _np.dtype(dt)
    if isinstance(a, CplxCell):
        if dt.kind == "c":
            return a
        raise Unsupported("complex cast")
    if dt.kind == "b":
        return mkb(bterm(a)) if isinstance(a, Sym) else bool(a)
    if dt.kind == "O":
        return a
    if not isinstance(a, Sym):
        if dt.kind == "c":
            return CplxCell(a, 0.0)
        with _np.errstate(all="ignore"):
            return dt.type(a)
    n = num(a)
    if dt.kind in "iu":
        return SymNum(_wrap(trunc_t(n.t), n, dt), n.nan, dt)
    if dt.kind == "f":
        return SymNum(n.real(), n.nan, dt)
    if dt.kind == "c":
        return CplxCell(SymNum(n.real(), n.nan, _np.dtype(float)), 0.0)
    raise Unsupported("astype %s" % dt)


class CplxCell(Sym):
    """complex number cell (re, im)"""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    def __add__(self, o):
        o = cplx(o)
        return CplxCell(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = cplx(o)
        return CplxCell(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return cplx(o) - self

    def __mul__(self, o):
        if not isinstance(o, CplxCell) and not isinstance(o, (complex, _np.complexfloating)):
            return CplxCell(self.re * o, self.im * o)
        o = cplx(o)
        return CplxCell(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return CplxCell(cell_bin("div", self.re, o), cell_bin("div", self.im, o))

    def __neg__(self):
        return CplxCell(-self.re, -self.im)

    def __abs__(self):
        return cell_abs(self)

    def __eq__(self, o):
        o = cplx(o)
        return cell_and(cell_cmp("eq", self.re, o.re), cell_cmp("eq", self.im, o.im))

    def __ne__(self, o):
        return cell_not(self == o)

    def __hash__(self):
        return hash((self.re, self.im))


def cplx(x):
    if isinstance(x, CplxCell):
        return x
    if isinstance(x, (complex, _np.complexfloating)):
        return CplxCell(float(x.real), float(x.imag))
    return CplxCell(x, 0.0)


# ---------------------------------------------------------------- uninterpreted functions and their axioms
_UFS = {}


def uf(name, *args):
    key = (name, len(args))
    if key not in _UFS:
        _UFS[key] = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
    return _UFS[key](*args)


_PI = realval(math.pi)
PIF = frac(math.pi)


def cell_fn(name, a):
    if isinstance(a, CplxCell):
        raise Unsupported("complex " + name)
    if not isinstance(a, Sym):
        if name in ("ndtr", "ndtri"):
            from statistics import NormalDist
            a = float(a)
            if name == "ndtr":
                return _np.float64(1.0 if a == math.inf else 0.0 if a == -math.inf else NormalDist().cdf(a))
            return _np.float64(NormalDist().inv_cdf(a) if 0 < a < 1 else math.inf if a == 1 else -math.inf if a == 0 else math.nan)
        with _np.errstate(all="ignore"):
            return getattr(_np, name)(a)
    n = num(a)
    dt = n.dt
    if dt is not None and dt.kind in "iub":
        dt = _np.dtype(float)
    x = n.real()
    nan = n.nan
    if name == "ndtr":
        return SymNum(uf(name, x), nan, dt)
    if name == "ndtri":
        return SymNum(uf(name, x), _or(nan, z3.Or(x <= 0, x >= 1)), dt)
    if name == "sqrt":
        c = zval(x)
        if c is not None and c >= 0:
            r = math.isqrt(c.numerator), math.isqrt(c.denominator) if isinstance(c, Fraction) else 1
            c = Fraction(c)
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rn * rn == c.numerator and rd * rd == c.denominator:
                return SymNum(realval(Fraction(rn, rd)), nan, dt)
        return SymNum(uf("sqrt", x), _or(nan, x < 0), dt)
    if name in ("log", "log10", "log2"):
        return SymNum(uf(name, x), _or(nan, x <= 0), dt)
    if name in ("arcsin", "arccos"):
        return SymNum(uf(name, x), _or(nan, z3.Or(x < -1, x > 1)), dt)
    if name in ("deg2rad", "radians"):
        return SymNum(x * _PI / 180, nan, dt)
    if name in ("rad2deg", "degrees"):
        return SymNum(x * 180 / _PI, nan, dt)
    if name in ("floor", "ceil", "rint", "trunc"):
        t = {"floor": lambda: z3.ToInt(x), "ceil": lambda: -z3.ToInt(-x), "rint": lambda: round_half_even(x),
             "trunc": lambda: trunc_t(x)}[name]()
        return SymNum(z3.ToReal(t), nan, dt)
    if name == "square":
        return SymNum(x * x, nan, dt)
    if name == "sign":
        return SymNum(z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0))), nan, n.dt)
    if name in ("exp", "sin", "cos", "tan", "arctan", "expm1", "log1p"):
        return SymNum(uf(name, x), nan, dt)
    raise Unsupported("function " + name)


def cell_atan2(a, b):
    na, nb = num(a), num(b)
    return SymNum(uf("arctan2", na.real(), nb.real()), _or(na.nan, nb.nan), promote(dt_of(a), dt_of(b)))


def _ax_single(name, app):
    a = [app.arg(i) for i in range(app.num_args())]
    x = a[0] if a else None
    out = []
    if name == "exp":
        out += [app > 0, z3.Implies(x == 0, app == 1), z3.Implies(x < 0, app < 1), z3.Implies(x > 0, app > 1),
                app >= 1 + x]
    elif name == "log":
        out += [z3.Implies(x == 1, app == 0), z3.Implies(z3.And(x > 0, x < 1), app < 0), z3.Implies(x > 1, app > 0)]
    elif name in ("log10", "log2"):
        out += [z3.Implies(x == 1, app == 0), z3.Implies(z3.And(x > 0, x < 1), app < 0), z3.Implies(x > 1, app > 0)]
    elif name == "sqrt":
        out += [z3.Implies(x >= 0, z3.And(app >= 0, app * app == x)), z3.Implies(x > 0, app > 0)]
    elif name == "sin":
        out += [app >= -1, app <= 1, z3.Implies(x == 0, app == 0)]
        c = uf("cos", x)
        out += [app * app + c * c == 1]
    elif name == "cos":
        out += [app >= -1, app <= 1, z3.Implies(x == 0, app == 1)]
        s = uf("sin", x)
        out += [app * app + s * s == 1]
    elif name == "arccos":
        out += [z3.Implies(z3.And(x >= -1, x <= 1),
                           z3.And(app >= 0, app <= _PI, uf("cos", app) == x))]
    elif name == "arcsin":
        out += [z3.Implies(z3.And(x >= -1, x <= 1),
                           z3.And(app >= -_PI / 2, app <= _PI / 2, uf("sin", app) == x))]
    elif name == "arctan":
        out += [app > -_PI / 2, app < _PI / 2, z3.Implies(x > 0, app > 0), z3.Implies(x < 0, app < 0),
                z3.Implies(x == 0, app == 0)]
        if not (z3.is_app(x) and x.decl().name() == "tan"):
            out += [uf("tan", app) == x]
    elif name == "tan":
        inr = z3.And(x > -_PI / 2, x < _PI / 2)
        out += [uf("cos", x) * app == uf("sin", x), z3.Implies(inr, uf("cos", x) > 0)]
        if not (z3.is_app(x) and x.decl().name() == "arctan"):
            out += [z3.Implies(inr, uf("arctan", app) == x)]
    elif name == "arctan2":
        y, x = a
        r = uf("sqrt", x * x + y * y)
        out += [app >= -_PI, app <= _PI]
        out += [z3.Implies(z3.Or(x != 0, y != 0), z3.And(r * uf("cos", app) == x, r * uf("sin", app) == y))]
    elif name == "ndtr":                       # standard normal distribution function
        out += [app > 0, app < 1, z3.Implies(x == 0, app == z3.Q(1, 2))]
        if not (z3.is_app(x) and x.decl().name() == "ndtri"):
            out += [uf("ndtri", app) == x]
        m = z3.simplify(-x)
        if m.sexpr() < z3.simplify(x).sexpr():
            out += [app == 1 - uf("ndtr", m)]
    elif name == "ndtri":
        inr = z3.And(x > 0, x < 1)
        out += [z3.Implies(x == z3.Q(1, 2), app == 0)]
        if not (z3.is_app(x) and x.decl().name() == "ndtr"):
            out += [z3.Implies(inr, uf("ndtr", app) == x)]
    elif name == "pow":
        b, e = a
        out += [z3.Implies(b > 0, app > 0), z3.Implies(z3.And(b >= 0, e > 0), app >= 0), z3.Implies(e == 0, app == 1),
                z3.Implies(e == 1, app == b), z3.Implies(b == 1, app == 1),
                *_pow_more(app, b, e),
                z3.Implies(z3.And(b == 0, e > 0), app == 0),
                z3.Implies(z3.And(b > 1, e > 0), app > 1),
                z3.Implies(z3.And(b > 0, b < 1, e > 0), app < 1),
                z3.Implies(z3.And(b > 1, e < 0), app < 1),
                z3.Implies(z3.And(b > 0, b < 1, e < 0), app > 1)]
    return out


def _pow_more(app, b, e):
    """(x**y)**z == x**(y*z) for positive x, and exponents within 1e-9 of one change b by less than 1e-7 (b in [1e-3, 1e3])"""
    out = []
    if z3.is_app(b) and b.decl().name() == "pow":
        out.append(z3.Implies(b.arg(0) > 0, app == uf("pow", b.arg(0), z3.simplify(b.arg(1) * e))))
    ev = zval(e)
    if ev is not None and ev != 1 and abs(Fraction(ev) - 1) < Fraction(1, 10 ** 9):
        k = Fraction(1, 10 ** 7)
        out.append(z3.Implies(z3.And(b >= z3.Q(1, 1000), b <= 1000), z3.And(app >= b * realval(1 - k), app <= b * realval(1 + k))))
    return out


_MONO = {"exp", "log", "log10", "log2", "sqrt", "arctan", "arcsin", "ndtr", "ndtri"}


def _ax_pair(name, p, q):
    if name in _MONO:
        x, y = p.arg(0), q.arg(0)
        dom = z3.BoolVal(True)
        if name in ("log", "log10", "log2"):
            dom = z3.And(x > 0, y > 0)
        elif name == "sqrt":
            dom = z3.And(x >= 0, y >= 0)
        elif name == "ndtri":
            dom = z3.And(x > 0, y > 0, x < 1, y < 1)
        elif name == "arcsin":
            dom = z3.And(x >= -1, y >= -1, x <= 1, y <= 1)
        out = [z3.Implies(z3.And(dom, x < y), p < q), z3.Implies(z3.And(dom, y < x), q < p)]
        if name == "ndtr":
            out.append(z3.Implies(x + y == 0, p + q == 1))
        return out
    if name == "pow":
        b, e, c, d = p.arg(0), p.arg(1), q.arg(0), q.arg(1)
        out = []
        if e.eq(d):
            for (u, v, P, Q) in ((b, c, p, q), (c, b, q, p)):
                out += [z3.Implies(z3.And(u >= 0, u < v, e > 0), P < Q), z3.Implies(z3.And(u > 0, u < v, e < 0), P > Q)]
        if b.eq(c):
            for (u, v, P, Q) in ((e, d, p, q), (d, e, q, p)):
                out += [z3.Implies(z3.And(b > 1, u < v), P < Q), z3.Implies(z3.And(b > 0, b < 1, u < v), P > Q)]
        return out
    return []


def collect_apps(terms, seen=None):
    """all uninterpreted applications in terms: dict name -> list of apps"""
    out = {}
    seen = set() if seen is None else seen
    stack = list(terms)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.setdefault(t.decl().name(), []).append(t)
            for k in range(t.num_args()):
                stack.append(t.arg(k))
    return out


# ---------------------------------------------------------------- context
class Obligation:
    __slots__ = ("label", "status", "detail", "time", "model", "inputs", "backend")

    def __init__(self, label):
        self.label = label
        self.status = "?"
        self.detail = ""
        self.time = 0.0
        self.model = None
        self.inputs = None
        self.backend = "z3"


def const_names(t):
    seen, out, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    return out


class Universal:
    """forall idx in box(shape): guard -> cond(idx)"""
    __slots__ = ("shape", "cond", "guard", "done")

    def __init__(self, shape, cond, guard):
        self.shape, self.cond, self.guard = shape, cond, guard
        self.done = set()


class Ctx:
    def __init__(self, prefix, limits, shared):
        self.prefix = prefix
        self.taken = []
        self.pending = []
        self.pc = []
        self.cache = {}
        self.n = {}
        self.shared = shared            # accumulates obligations over paths
        self.limits = limits
        self.uf_ax = {}                 # uf name -> fn(app) -> [axioms]
        self.nonzero_ufs = set()        # input arrays stated to be positive
        self.app_seen = {}              # name -> list of apps already axiomatised
        self.ast_seen = set()
        self.universals = []
        self.index_tuples = {}          # arity -> {key: tuple of int terms}
        self.solver = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
        self.solver.set("timeout", limits["branch_ms"])
        self.inputs = []                # (name, kind, info) for concretisation
        self.lemmas_mode = False
        self.inst_stack = []
        self.index_origin = {}
        self.keep = []                  # keep z3 asts alive (ids stable)
        self.in_spec = 0
        self.writes = []
        self.roots = []
        self.loops = {}
        self.sumdefs = {}

    # --- names
    def fresh(self, base, sort):
        k = self.n.get(base, 0)
        self.n[base] = k + 1
        return z3.Const(f"{base}!{k}", sort)

    def fresh_int(self, base="i"):
        return self.fresh(base, z3.IntSort())

    def fresh_real(self, base="r"):
        return self.fresh(base, z3.RealSort())

    def fresh_bool(self, base="b"):
        return self.fresh(base, z3.BoolSort())

    def fresh_fun(self, base, *sorts):
        k = self.n.get("F" + base, 0)
        self.n["F" + base] = k + 1
        return z3.Function(f"{base}!f{k}", *sorts)

    # --- axiom instantiation
    splitting = False
    naming = False

    def may_split(self, c):
        """case-split on a write's condition instead of building an if-then-else (only where a contract asks)"""
        if not self.splitting or self.in_spec > 1:
            return False
        from . import npshim
        if npshim._SUM_DEPTH[0]:
            return False
        return not any("#" in x for x in const_names(bterm(c)))

    def name_int(self, x):
        """a fresh constant standing for an integer term"""
        if not self.naming or not isinstance(x, SymNum) or x.nan is not None or not x.t.is_int() \
                or not z3.is_app_of(x.t, z3.Z3_OP_ITE):
            return x
        v = self.fresh_int("m")
        self.assume(v == x.t)
        return SymNum(v, None, x.dt)

    def kept_id(self, t):
        """identity of a term up to simplification; the term is kept, as identities are used again once a term is gone"""
        t = z3.simplify(t)
        self.keep.append(t)
        return t.get_id()

    def add_index(self, tup):
        tup = tuple(z3.IntVal(x) if isinstance(x, int) else x for x in tup)
        d = self.index_tuples.setdefault(len(tup), {})
        key = tuple(x.get_id() for x in tup)
        # indices made while a universal is instantiated do not feed that universal again
        org = frozenset().union(*self.inst_stack) if self.inst_stack else frozenset()
        if key not in d:
            d[key] = tup
            self.index_origin[key] = org
            self.keep.extend(tup)
        elif self.index_origin.get(key):
            self.index_origin[key] = self.index_origin[key] & org

    def instantiate(self, terms, solver_add, depth=4):
        """add axiom instances for every new application reachable from terms"""
        todo = list(terms)
        for _ in range(depth):
            if not todo:
                break
            self.keep.extend(todo)
            apps = collect_apps(todo, self.ast_seen)
            todo = []
            for name, lst in apps.items():
                old = self.app_seen.setdefault(name, [])
                for app in lst:
                    new = []
                    if name in self.uf_ax:
                        new += self.uf_ax[name](app)
                    else:
                        new += _ax_single(name, app)
                        if (name in _MONO or name == "pow") and len(old) < 14:
                            for o in old:
                                new += _ax_pair(name, o, app)
                    old.append(app)
                    for a in new:
                        if not z3.is_true(a):
                            solver_add(a)
                            todo.append(a)
            for u in self.universals:
                for key, tup in list(self.index_tuples.get(len(u.shape), {}).items()):
                    if key in u.done:
                        continue
                    org = self.index_origin.get(key, frozenset())
                    if id(u) in org:
                        continue
                    u.done.add(key)
                    inr = [z3.And(0 <= i, i < iterm(n)) for i, n in zip(tup, u.shape)]
                    self.inst_stack.append(org | {id(u)})
                    try:
                        body = bterm(u.cond(tup))
                    finally:
                        self.inst_stack.pop()
                    a = z3.Implies(z3.And(*(inr + ([u.guard] if u.guard is not None else []))), body)
                    solver_add(a)
                    todo.append(a)

    def add_universal(self, shape, cond, guard=None):
        self.universals.append(Universal(shape, cond, guard))
        self.flush([])

    def flush(self, terms):
        self.instantiate(terms, self._add_fact)

    def _add_fact(self, a):
        self.pc.append(a)
        self.solver.add(a)

    def assume(self, t):
        t = bterm(t) if not isinstance(t, z3.BoolRef) else t
        if z3.is_true(t):
            return
        self._add_fact(t)
        self.flush([t])

    # --- deciding
    def sat(self, t, ms=None):
        self.flush([t])
        s = self.solver
        s.push()
        s.add(t)
        if ms:
            s.set("timeout", ms)
        r = s.check()
        if ms:
            s.set("timeout", self.limits["branch_ms"])
        s.pop()
        return r

    def entails(self, t, ms=None):
        return self.sat(z3.Not(t), ms) == z3.unsat

    def branch(self, t):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        self.keep.append(t)
        k = t.get_id()
        if k in self.cache:
            return self.cache[k]
        if self.in_spec:
            raise Unsupported("contract expression branches on a symbolic condition")
        i = len(self.taken)
        if i < len(self.prefix):
            d, forced = self.prefix[i]
        else:
            if time.time() > self.shared.deadline:
                raise Unsupported("time budget exhausted")
            if i >= self.limits["max_branches"]:
                raise Unsupported("too many branches on one path")
            ft = self.sat(t) != z3.unsat
            ff = self.sat(z3.Not(t)) != z3.unsat
            if not ft and not ff:
                raise PathEnd()
            d = ft
            forced = not (ft and ff)
            if not forced:
                self.pending.append(list(self.taken) + [(False, False)])
        self.taken.append((d, forced))
        c = t if d else z3.Not(t)
        self._add_fact(c)
        self.flush([c])
        self.cache[k] = d
        nt = z3.simplify(z3.Not(t))
        self.keep.append(nt)
        self.cache[nt.get_id()] = not d
        return d

    def known_const(self, t):
        v = zval(z3.simplify(t))
        if v is not None:
            return v
        if self.solver.check() != z3.sat:
            return None
        v = self.solver.model().eval(t, model_completion=True)
        if zval(v) is None:
            return None
        if self.entails(t == v):
            return zval(v)
        return None

    def concretize(self, t, limit=None):
        """return a python int for t, enumerating its feasible values by forking (small domains only)"""
        v = zval(z3.simplify(t))
        if v is not None:
            return int(v)
        limit = limit or self.limits["concretize"]
        self.flush([t])
        for _ in range(limit + 1):
            i = len(self.taken)
            if i < len(self.prefix):
                d, forced = self.prefix[i]
                v = self.shared.enum.get((tuple(self.prefix[:i]), t.sexpr()))
                if v is None:
                    raise Unsupported("lost enumeration value")
            else:
                r = self.solver.check()
                if r == z3.unsat:
                    raise PathEnd()
                if r != z3.sat:
                    raise Unsupported("cannot enumerate an integer")
                # prefer the smallest value
                m = self.solver.model().eval(t, model_completion=True)
                if zval(m) is None:
                    raise Unsupported("cannot enumerate an integer")
                v = zval(m)
                while True:
                    self.solver.push()
                    self.solver.add(t < v)
                    ok = self.solver.check() == z3.sat
                    if ok:
                        nv = zval(self.solver.model().eval(t, model_completion=True))
                    self.solver.pop()
                    if not ok or nv is None:
                        break
                    if nv < v - 1000:
                        raise Unsupported("unbounded integer used where a concrete one is needed")
                    v = nv
                self.shared.enum[(tuple(self.taken), t.sexpr())] = v
            if self.branch_eq(t, v):
                return int(v)
        raise Unsupported("integer with too many feasible values used where a concrete one is needed")

    def branch_eq(self, t, v):
        # like branch, but never simplified away so that prefix positions stay aligned
        c = t == z3.IntVal(v)
        i = len(self.taken)
        if i < len(self.prefix):
            d, forced = self.prefix[i]
        else:
            other = self.sat(z3.Not(c)) != z3.unsat
            d, forced = True, not other
            if other:
                self.pending.append(list(self.taken) + [(False, False)])
        self.taken.append((d, forced))
        f = c if d else z3.Not(c)
        self._add_fact(f)
        self.flush([f])
        return d


def known_small(n, lim=64):
    """the constant value of a length term, if it is one and small"""
    v = zval(n)
    if v is None:
        v = CTX.known_const(n)
    return int(v) if v is not None and v <= lim else None


def iterm(x):
    """z3 Int term of a python int / SymNum int"""
    if isinstance(x, SymNum):
        if x.t.is_int():
            return x.t
        return z3.ToInt(x.t)
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, SymBool):
        return num(x).t
    raise TypeError("not an integer: %r" % type(x))


def mki(t):
    """python int if constant else SymNum"""
    v = zval(t)
    if v is None:
        s = z3.simplify(t)
        v = zval(s)
        if v is None:
            return SymNum(s, None, None)
    return int(v)


import numbers as _numbers  # noqa: E402
_numbers.Number.register(SymNum)
SymNum.__iter__ = None
