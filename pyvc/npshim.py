"""Symbolic stand-in for the numpy module: the assumed contracts of the numpy functions used by the code under proof."""
import builtins
import itertools
import math
import sys
import types

import numpy as _np
import z3

from . import core, arr
from .arr import (EXPAND, FlatIdx, SymArray, SymIdx, SymSel, asarr, bget, bshape, broadcast_to, dim, dterm, from_cells,
                  full, has_sym, ieq, it, masked, memo, norm_dtype, pick, prod, same_dim, surely_same, _MaskView)
from .core import (CplxCell, Sym, SymBool, SymNum, Unsupported, bterm, cell_abs, cell_and, cell_astype, cell_atan2,
                   cell_bin, cell_cmp, cell_fn, cell_isnan, cell_ite, cell_max, cell_min, cell_neg, cell_not, cell_or,
                   is_conc_num, iterm, mkb, mki, num, zval)


# ---------------------------------------------------------------- types and constants
_REAL_TYPES = ["float16", "float32", "float64", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
               "complex64", "complex128", "bool_", "datetime64", "timedelta64", "str_", "object_", "bytes_"]


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, (SymNum,)):
            return x.dt is not None and issubclass(x.dt.type, cls._real)
        if isinstance(x, SymBool):
            return cls._real is _np.bool_
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, sub):
        sub = getattr(sub, "_real", sub)
        try:
            return issubclass(sub, cls._real)
        except TypeError:
            return False

    def __call__(cls, x=0, *a, **k):
        if isinstance(x, (Sym,)):
            return cell_astype(x, cls._real)
        if isinstance(x, (SymArray, SymSel)):
            r = x.astype(cls._real)
            return r.get(()) if isinstance(r, SymArray) and r.ndim == 0 else r
        if isinstance(x, (list, tuple)) and has_sym(x):
            return asarr(x, cls._real)
        r = cls._real(x, *a, **k)
        return asarr(r) if isinstance(r, _np.ndarray) else r

    def __eq__(cls, o):
        o = getattr(o, "_real", o)
        return o is cls._real or (isinstance(o, _np.dtype) and o == _np.dtype(cls._real))

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)


def _mk(n):
    r = getattr(_np, n)
    ns = {"_real": r, "_real_dtype": r}
    return _TypeMeta(n, (), ns)


for _n in _REAL_TYPES:
    globals()[_n] = _mk(_n)
int_ = _mk("int64")
intp = int64        # noqa
double = float64    # noqa
single = float32    # noqa
string_ = bytes_    # noqa
unicode_ = str_     # noqa
float_ = float64    # noqa
complex_ = complex128  # noqa
for _n in ("integer", "floating", "complexfloating", "number", "generic", "signedinteger", "unsignedinteger",
           "inexact", "character"):
    globals()[_n] = _mk(_n)


class _DtypeFn:
    def __call__(self, x=None, *a, **k):
        x = getattr(x, "_real_dtype", x)
        return _np.dtype(x, *a, **k)

    def __instancecheck__(self, x):
        return isinstance(x, _np.dtype)


class _DtypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _np.dtype)

    def __call__(cls, x=None, *a, **k):
        return norm_dtype(x) if not a else _np.dtype(x, *a, **k)


class dtype(metaclass=_DtypeMeta):
    pass


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymArray, _np.ndarray, SymSel))

    def __call__(cls, shape, dtype=float64, **k):
        return empty(shape, dtype)


class ndarray(metaclass=_NdMeta):
    pass


pi = _np.pi
nan = _np.nan
NaN = NAN = nan
inf = _np.inf
e = _np.e
newaxis = None
bool8 = bool_  # noqa
VisibleDeprecationWarning = DeprecationWarning
AxisError = getattr(_np, "AxisError", getattr(getattr(_np, "exceptions", None), "AxisError", ValueError))


def __getattr__(name):
    if name in ("int", "bool", "object", "str", "complex"):
        return getattr(builtins, name)
    if name.startswith("__"):
        raise AttributeError(name)
    f = getattr(_np, name, None)
    if f is None:
        raise AttributeError("module 'numpy' has no attribute %r" % name)
    if callable(f) and not isinstance(f, type):
        return lift(f, name)
    return f


def unwrap(x):
    """concrete twin of an argument; Unsupported when symbolic"""
    if isinstance(x, SymArray):
        c = x.conc()
        if c is None:
            raise Unsupported("symbolic argument to an unmodelled numpy function")
        return c
    if isinstance(x, SymSel):
        return unwrap(x.materialise())
    if isinstance(x, Sym):
        if isinstance(x, SymNum) and x.const() is not None:
            v = x.const()
            return builtins.int(v) if x.t.is_int() else builtins.float(v)
        raise Unsupported("symbolic argument to an unmodelled numpy function")
    if isinstance(x, list):
        return [unwrap(y) for y in x]
    if isinstance(x, tuple):
        return tuple(unwrap(y) for y in x)
    if isinstance(x, type) and hasattr(x, "_real"):
        return x._real
    if isinstance(x, dict):
        return {k: unwrap(v) for k, v in x.items()}
    return x


def wrap(x):
    if isinstance(x, _np.ndarray):
        return asarr(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(wrap(y) for y in x)
    if isinstance(x, list):
        return [wrap(y) for y in x]
    return x


def lift(f, name):
    def g(*a, **k):
        try:
            ua, uk = [unwrap(x) for x in a], {q: unwrap(v) for q, v in k.items()}
        except Unsupported:
            raise Unsupported("numpy.%s on symbolic data" % name)
        with _np.errstate(all="ignore"):
            return wrap(f(*ua, **uk))
    g.__name__ = name
    return g


def allconc(*xs):
    """concrete twins of all arguments, or None"""
    try:
        return [unwrap(x) for x in xs]
    except Unsupported:
        return None


# ---------------------------------------------------------------- elementwise machinery
def is_operand(o):
    return isinstance(o, (SymArray, SymSel, Sym, _np.ndarray, _np.generic, builtins.int, builtins.float, builtins.bool,
                          builtins.complex, list, tuple, core.Fraction)) or o is masked


_CMP = {"lt", "le", "gt", "ge", "eq", "ne"}


def scal(x):
    return not isinstance(x, (SymArray, SymSel))


def _is_scalar_like(x):
    return not isinstance(x, SymArray) or x.ndim == 0


def op_dtype(op, a, b):
    if op in _CMP:
        return _np.dtype(builtins.bool)

    def d(x):
        if isinstance(x, (SymArray,)):
            return x.dt
        if isinstance(x, _np.generic):
            return x.dtype
        if isinstance(x, SymNum) and x.dt is not None:
            return x.dt
        return None
    da, db = d(a), d(b)
    sa, sb = _is_scalar_like(a), _is_scalar_like(b)

    def weak(x):
        if isinstance(x, SymNum):
            return _np.dtype("int8" if x.t.is_int() else "float16")
        if isinstance(x, (SymBool, builtins.bool)):
            return _np.dtype(builtins.bool)
        if isinstance(x, (CplxCell, builtins.complex)):
            return _np.dtype("complex64")
        if isinstance(x, builtins.int):
            return _np.dtype("int8")
        return _np.dtype("float16")
    if da is None and db is None:
        r = None
    elif da is None or (sa and not sb):
        r = _pscal(da or weak(a), db)
    elif db is None or (sb and not sa):
        r = _pscal(db or weak(b), da)
    else:
        r = _np.promote_types(da, db)
    if r is not None and r.kind == "O":
        return r
    if op in ("and", "or", "xor"):
        return r if r is not None else _np.dtype(builtins.bool)
    if r is not None and r.kind in "iub" and op in ("div", "atan2"):
        r = _np.dtype(builtins.float)
    if r is not None and r.kind == "b" and op in ("add", "sub", "mul", "max", "min"):
        r = r if op in ("add", "mul", "max", "min") else _np.dtype(builtins.int)
    return r


_KR = {"b": 0, "u": 1, "i": 1, "f": 2, "c": 3}


def _pscal(s, a):
    """numpy-1.x: scalar dtype s against array dtype a"""
    if s.kind not in _KR or a.kind not in _KR:
        return _np.promote_types(s, a)
    if _KR[s.kind] <= _KR[a.kind]:
        return a
    if s.kind == "f":
        return _np.promote_types(a, _np.dtype("float16")) if a.itemsize < 8 and a.kind != "b" and False else \
            _np.dtype("float64")
    if s.kind == "c":
        return _np.dtype("complex64") if a == _np.dtype("float32") else _np.dtype("complex128")
    if s.kind in "iu":
        return _np.dtype("int64")
    return _np.promote_types(s, a)


def _cellop(op):
    if op in _CMP:
        return lambda x, y: cell_cmp2(op, x, y)
    if op == "and":
        return cell_and
    if op == "or":
        return cell_or
    if op == "xor":
        return lambda x, y: cell_cmp("ne", mkb(bterm(x)) if isinstance(x, Sym) else builtins.bool(x),
                                     mkb(bterm(y)) if isinstance(y, Sym) else builtins.bool(y))
    if op == "max":
        return cell_max
    if op == "min":
        return cell_min
    if op == "atan2":
        return cell_atan2

    def f(x, y):
        if isinstance(x, (CplxCell, builtins.complex, _np.complexfloating)) or isinstance(
                y, (CplxCell, builtins.complex, _np.complexfloating)):
            import operator as o
            x = core.cplx(x) if not isinstance(x, (Sym, builtins.float, builtins.int)) else x
            y = core.cplx(y) if isinstance(y, (builtins.complex, _np.complexfloating)) else y
            if op == "div" and isinstance(y, CplxCell):
                raise Unsupported("complex division")
            if not isinstance(x, CplxCell):
                x = core.cplx(x)
            return {"add": o.add, "sub": o.sub, "mul": o.mul, "div": o.truediv}[op](x, y)
        return cell_bin(op, x, y)
    return f


def cell_cmp2(op, x, y):
    if isinstance(x, CplxCell) or isinstance(y, CplxCell):
        r = core.cplx(x) == core.cplx(y)
        return r if op == "eq" else cell_not(r)
    if not isinstance(x, Sym) and not isinstance(y, Sym):
        import operator as o
        return builtins.bool(getattr(o, op)(x, y))
    return cell_cmp(op, x, y)


def _strong(c, dt):
    """tag cell with dtype so that division never raises"""
    if isinstance(c, SymNum) and c.dt is None:
        return SymNum(c.t, c.nan, dt)
    if not isinstance(c, Sym) and not isinstance(c, _np.generic) and dt is not None and dt.kind in "iuf" and is_conc_num(c):
        return dt.type(c) if not (dt.kind in "iu" and not isinstance(c, builtins.int)) else c
    return c


def elementwise2(op, a, b):
    if isinstance(a, _MaskView):
        a = a.as_array()
    if isinstance(b, _MaskView):
        b = b.as_array()
    if a is masked or b is masked:
        o = b if a is masked else a
        if isinstance(o, (SymArray, SymSel)) and not (isinstance(o, SymArray) and o.ndim == 0):
            return SymArray(o.shape, f=lambda i: 0, dt=_np.dtype(builtins.float), m=lambda i: True, isma=True)
        return masked
    if isinstance(a, SymSel) or isinstance(b, SymSel):
        s = a if isinstance(a, SymSel) else b

        def inner(x):
            if isinstance(x, SymSel):
                if x is not s:
                    x.check_mask(s.m)
                return x.inner
            if isinstance(x, (list, tuple, _np.ndarray)):
                x = asarr(x)
            if isinstance(x, SymArray) and x.ndim:
                if all(isinstance(n, builtins.int) and n == 1 for n in x._shape):
                    return x.reshape(())
                d = s.ndim - x.ndim
                at = s.off - d
                if at >= 0 and isinstance(x._shape[at], builtins.int) and x._shape[at] == 1:    # same for every selected point
                    return x.reshape(x._shape[:at] + (1,) * s.m.ndim + x._shape[at + 1:])
                raise Unsupported("selection combined with a full array")
            return x
        return s.like(asarr(elementwise2(op, inner(a), inner(b))))
    if isinstance(a, (list, tuple)):
        a = asarr(a)
    if isinstance(b, (list, tuple)):
        b = asarr(b)
    if isinstance(a, _np.ndarray):
        a = asarr(a)
    if isinstance(b, _np.ndarray):
        b = asarr(b)
    aa, ba = isinstance(a, SymArray), isinstance(b, SymArray)
    dt = op_dtype(op, a, b)
    fn = _cellop(op)
    if not aa and not ba:
        return fn(a, b)
    # concrete fast path
    if (not aa or a.real_ is not None) and (not ba or b.real_ is not None) and not isinstance(a, Sym) and \
            not isinstance(b, Sym) and not (aa and a.isma) and not (ba and b.isma):
        ra = a.real_ if aa else a
        rb = b.real_ if ba else b
        if isinstance(ra, core.Fraction):
            ra = builtins.float(ra)
        if isinstance(rb, core.Fraction):
            rb = builtins.float(rb)
        with _np.errstate(all="ignore"):
            r = _REALOP[op](ra, rb)
        r = _np.asarray(r)
        if dt is not None and dt.kind in "iufb" and r.dtype != dt and r.dtype.kind in "iufb":
            r = r.astype(dt)
        return asarr(r) if r.ndim else r[()]
    sh = bshape(a._shape if aa else (), b._shape if ba else ())
    ag, bg = (a.getter() if aa else None), (b.getter() if ba else None)
    isma = (aa and a.isma and not getattr(a, "_plain", False)) or (ba and b.isma and not getattr(b, "_plain", False))
    am = a.mgetter() if aa and isma and a.isma and not getattr(a, "_plain", False) else None
    bm = b.mgetter() if ba and isma and b.isma and not getattr(b, "_plain", False) else None
    adt = a.dt if aa else None
    bdt = b.dt if ba else None

    def ca(i):
        return _strong(ag(bget(a, i, sh)), adt) if aa else a

    def cb(i):
        return _strong(bg(bget(b, i, sh)), bdt) if ba else b

    def mf(i):
        x = am(bget(a, i, sh)) if am else False
        y = bm(bget(b, i, sh)) if bm else False
        return cell_or(x, y)
    havem = am is not None or bm is not None

    def f(i):
        r = fn(ca(i), cb(i))
        if dt is not None and isinstance(r, SymNum):
            r = SymNum(r.t if not (dt.kind == "f" and r.t.is_int()) else r.real(), r.nan, dt)
        elif dt is not None and not isinstance(r, Sym) and dt.kind in "iuf":
            with _np.errstate(all="ignore"):
                r = dt.type(r)
        if havem and op not in _CMP and op not in ("and", "or", "xor"):
            x = ca(i)
            m = mf(i)
            if not (isinstance(m, builtins.bool) and not m):
                try:
                    r = cell_ite(m, cell_astype(x, dt) if dt is not None else x, r)
                except Unsupported:
                    pass
        return r
    out = SymArray(sh, f=memo(f), dt=dt if dt is not None else _np.dtype(builtins.float), isma=isma)
    if havem:
        out._m = memo(mf)
        out._nomask = False
    if isma and op == "div":
        # numpy.ma masks division by zero
        old = out._m

        def dm(i):
            z = cell_cmp("eq", cb(i), 0)
            return cell_or(old(i) if old else False, z)
        if not (not ba and is_conc_num(b) and b != 0):
            out._m = memo(dm)
            out._nomask = False
    if not sh:
        if isma and out._m is not None:
            m = out._m(())
            if (isinstance(m, builtins.bool) and m) or (not isinstance(m, builtins.bool) and builtins.bool(m)):
                return masked
        return out.get(())
    return out


_REALOP = {"add": _np.add, "sub": _np.subtract, "mul": _np.multiply, "div": _np.true_divide, "fdiv": _np.floor_divide,
           "mod": _np.mod, "pow": lambda a, b: _np.power(a, b), "lt": _np.less, "le": _np.less_equal,
           "gt": _np.greater, "ge": _np.greater_equal, "eq": _np.equal, "ne": _np.not_equal,
           "and": _np.bitwise_and, "or": _np.bitwise_or, "xor": _np.bitwise_xor, "max": _np.maximum,
           "min": _np.minimum, "atan2": _np.arctan2}


def elementwise1(fn, a, name="", dt=None):
    if isinstance(a, _MaskView):
        a = a.as_array()
    if isinstance(a, SymSel):
        return a.like(elementwise1(fn, a.inner, name, dt))
    if a is masked:
        return masked
    if isinstance(a, (list, tuple, _np.ndarray)):
        a = asarr(a)
    if not isinstance(a, SymArray):
        r = fn(a)
        return r
    g = a.getter()
    adt = a.dt
    rdt = dt or adt

    def f(i):
        r = fn(_strong(g(i), adt))
        if isinstance(r, SymNum):
            r = SymNum(r.t, r.nan, rdt)
        return r
    out = SymArray(a._shape, f=memo(f), dt=rdt)
    if a.isma and not getattr(a, "_plain", False):
        out._isma = True
        out._m = a.mgetter()
        out._nomask = getattr(a.root(), "_nomask", True)
    if a.real_ is not None and not out._isma:
        c = out._conc_try()
        if c is not None:
            out = SymArray(a._shape, real=c, dt=c.dtype if dt is None and name != "neg" else rdt)
            if not out._shape:
                return out.get(())
            return out
    if not out._shape:
        return out.get(())
    return out


def _store(out, r, where_=None):
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        return r
    if where_ is not None and not (isinstance(where_, builtins.bool)):
        r = where(where_, r, out)
    out[...] = r
    return out


def _mk2(op):
    def g(a, b, out=None, where=None, dtype=None, casting=None, **k):
        if where is not None and where is not True and out is None:
            w = asarr(where)
            r = elementwise2(op, a, b)
            # positions outside `where` are uninitialised
            e_ = empty(asarr(r)._shape, asarr(r).dt)
            return _where3(w, r, e_)
        r = elementwise2(op, a, b)
        if dtype is not None:
            r = r.astype(norm_dtype(dtype))
        return _store(out, r, where)
    return g


class _Ufunc:
    def __init__(self, f, red=None, name=""):
        self.f = f
        self.red = red
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def reduce(self, a, axis=0, **k):
        return self.red(a, axis=axis)

    def outer(self, a, b):
        a, b = asarr(a), asarr(b)
        return self.f(a.reshape(a._shape + (1,) * b.ndim), b)

    def accumulate(self, a, axis=0):
        raise Unsupported("ufunc accumulate")


add = _Ufunc(_mk2("add"), lambda a, axis: sum_(a, axis=axis), "add")
subtract = _Ufunc(_mk2("sub"), None, "subtract")
multiply = _Ufunc(_mk2("mul"), lambda a, axis: prod_(a, axis=axis), "multiply")
divide = true_divide = _Ufunc(_mk2("div"), None, "divide")
floor_divide = _mk2("fdiv")
mod = remainder = _mk2("mod")
power = _mk2("pow")
maximum = _Ufunc(_mk2("max"), lambda a, axis: amax(a, axis=axis), "maximum")
minimum = _Ufunc(_mk2("min"), lambda a, axis: amin(a, axis=axis), "minimum")
arctan2 = _mk2("atan2")
less, less_equal, greater, greater_equal, equal, not_equal = (
    _mk2("lt"), _mk2("le"), _mk2("gt"), _mk2("ge"), _mk2("eq"), _mk2("ne"))


def _boolify(x):
    if isinstance(x, (SymArray, SymSel)):
        return x if x.dt.kind == "b" else x.astype(builtins.bool)
    if isinstance(x, (list, tuple, _np.ndarray)):
        return asarr(x).astype(builtins.bool)
    return x


def logical_and(a, b, **k):
    return _store(k.get("out"), elementwise2("and", _boolify(a), _boolify(b)))


def logical_or(a, b, **k):
    return _store(k.get("out"), elementwise2("or", _boolify(a), _boolify(b)))


logical_and = _Ufunc(logical_and, lambda a, axis: all_(a, axis=axis))
logical_or = _Ufunc(logical_or, lambda a, axis: any_(a, axis=axis))


def logical_xor(a, b):
    return elementwise2("xor", _boolify(a), _boolify(b))


bitwise_and, bitwise_or = logical_and, logical_or


def logical_not(a, **k):
    return elementwise1(cell_not, a if not isinstance(a, (list, tuple)) else asarr(a), "not", _np.dtype(builtins.bool))


invert = logical_not


def _mk1(name):
    def g(a, out=None, where=None, dtype=None, **k):
        if isinstance(a, (list, tuple, _np.ndarray)):
            a = asarr(a)
        fl = None
        if isinstance(a, (SymArray, SymSel)):
            fl = a.dt if a.dt.kind == "f" else _np.dtype(builtins.float)
        r = elementwise1(lambda c: cell_fn(name, c), a, name, fl)
        if where is not None and where is not True:
            if out is None:
                out = empty_like(a)
            r = _where3(asarr(where), r, out)
        return _store(out, r)
    return g


for _n in ("exp", "log", "log10", "log2", "sqrt", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "deg2rad",
           "rad2deg", "radians", "degrees", "floor", "ceil", "rint", "trunc", "expm1", "log1p"):
    globals()[_n] = _mk1(_n)


def square(a):
    return elementwise1(lambda c: cell_bin("mul", c, c), a, "square")


def sign(a):
    return elementwise1(lambda c: cell_fn("sign", c), a, "sign")


def negative(a):
    return elementwise1(cell_neg, a, "neg")


def absolute(a, out=None):
    dt = None
    if isinstance(a, (SymArray, SymSel)) and a.dt.kind == "c":
        dt = _np.dtype("float32" if a.dt.itemsize == 8 else "float64")
    return _store(out, elementwise1(cell_abs, a, "abs", dt))


fabs = absolute


def isnan(a):
    if a is masked:
        return masked
    if isinstance(a, (SymArray, SymSel)) and a.dt.kind in "MmOSU":
        return asarr(_np.isnan(unwrap(a)))
    return elementwise1(cell_isnan, a, "isnan", _np.dtype(builtins.bool))


def isfinite(a):
    def f(c):
        if not isinstance(c, Sym):
            return builtins.bool(_np.isfinite(c))
        return cell_not(cell_isnan(c))
    return elementwise1(f, a, "isfinite", _np.dtype(builtins.bool))


def isinf(a):
    def f(c):
        if not isinstance(c, Sym):
            return builtins.bool(_np.isinf(c))
        return False
    return elementwise1(f, a, "isinf", _np.dtype(builtins.bool))


def nan_to_num(a, copy=True, nan=0.0, **k):
    return elementwise1(lambda c: cell_ite(cell_isnan(c), nan, core.num_nn(c) if isinstance(c, SymNum) else c), a, "n2n")


def real(a):
    return asarr(a).real


def imag(a):
    return asarr(a).imag


def iscomplexobj(a):
    if isinstance(a, (SymArray, SymSel)):
        return a.dt.kind == "c"
    return _np.iscomplexobj(a)


def angle(a, deg=False):
    a = asarr(a)
    r = arctan2(a.imag, a.real)
    return rad2deg(r) if deg else r


def isreal(a):
    a = asarr(a)
    return elementwise2("eq", a.imag, 0) if a.dt.kind == "c" else full(a._shape, True, builtins.bool)


def _fine_round(x, d):
    """rounding to d decimals, by its contract: within half a unit, order preserving, exact on -1, 0 and 1"""
    ctx = core.CTX
    name = "round_to_%d" % d
    f = z3.Function(name, z3.RealSort(), z3.RealSort())
    if name not in ctx.uf_ax:
        seen = []

        def ax(app):
            v = app.arg(0)
            h = z3.Q(1, 2 * 10 ** d)
            out = [v - app <= h, app - v <= h]
            for k in (-1, 0, 1):
                out += [z3.Implies(v <= k, app <= k), z3.Implies(v >= k, app >= k)]
            for o in seen[-14:]:
                out += [z3.Implies(o.arg(0) <= v, o <= app), z3.Implies(v <= o.arg(0), app <= o)]
            seen.append(app)
            return out
        ctx.uf_ax[name] = ax
    return f(x)


def around(a, decimals=0, out=None):
    decimals = builtins.int(decimals)
    if isinstance(a, (list, tuple, _np.ndarray)):
        a = asarr(a)

    def f(c):
        if not isinstance(c, Sym):
            return _np.around(c, decimals)
        n = num(c)
        if n.t.is_int() and decimals >= 0:
            return c
        if decimals >= 6:
            return SymNum(_fine_round(n.real(), decimals), n.nan, n.dt)
        s = 10 ** builtins.abs(decimals)
        x = n.real() * s if decimals >= 0 else n.real() / s
        r = z3.ToReal(core.round_half_even(x))
        r = r / s if decimals > 0 else r * s if decimals < 0 else r
        return SymNum(r, n.nan, n.dt)
    return _store(out, elementwise1(f, a, "round"))


round_ = around


def clip(a, a_min=None, a_max=None, out=None, **k):
    if "min" in k:
        a_min = k["min"]
    if "max" in k:
        a_max = k["max"]
    r = a if not isinstance(a, (list, tuple, _np.ndarray)) else asarr(a)
    ma = r.isma if isinstance(r, SymArray) else False
    dt0 = r.dt if isinstance(r, (SymArray, SymSel)) else None
    if a_min is not None:
        r = elementwise2("max", r, a_min)
    if a_max is not None:
        r = elementwise2("min", r, a_max)
    if r is a and isinstance(r, SymArray):
        r = r.copy()
    return _store(out, r)


def _where3(c, x, y):
    if isinstance(c, SymSel) or isinstance(x, SymSel) or isinstance(y, SymSel):
        sels = [v for v in (c, x, y) if isinstance(v, SymSel)]
        s = sels[0]

        def inner(v):
            if isinstance(v, SymSel):
                v.check_mask(s.m)
                return v.inner
            return v
        return s.like(asarr(_where3(inner(c), inner(x), inner(y))))
    c, xa, ya = asarr(c), asarr(x), asarr(y)
    sx = x if scal(x) else xa
    sy = y if scal(y) else ya
    if not isinstance(x, (SymArray, SymNum, SymBool, _np.generic, _np.ndarray, list, tuple)) and xa.dt.kind in "OUSM":
        dt = xa.dt
    dt = op_dtype("where", xa if not is_conc_num(x) or isinstance(x, _np.generic) else x,
                  ya if not is_conc_num(y) or isinstance(y, _np.generic) else y)
    if dt is None:
        dt = _np.result_type(xa.dt, ya.dt)
    sh = bshape(c._shape, xa._shape, ya._shape)
    cg, xg, yg = arr._bool_getter(c), xa.getter(), ya.getter()

    def cast(v):
        return cell_astype(v, dt) if dt.kind in "iufbc" else v
    return SymArray(sh, f=memo(lambda i: cell_ite(cg(bget(c, i, sh)), cast(xg(bget(xa, i, sh))),
                                                  cast(yg(bget(ya, i, sh))))), dt=dt)


def where(c, x=None, y=None):
    if x is None and y is None:
        if isinstance(c, SymArray) and c.isma:      # np.where looks at the data under the mask
            c = c.data
        return nonzero(c)
    cc = allconc(c, x, y)
    if cc is not None and not any(isinstance(v, Sym) for v in (x, y)):
        return wrap(_np.where(*cc))
    return _where3(c, x, y)


def select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = _where3(c, x, r)
    return r


def nonzero(c):
    if isinstance(c, SymSel):
        c = c.materialise()
    c = asarr(c)
    cc = c.conc()
    if cc is not None:
        return tuple(asarr(x) for x in cc.nonzero())
    g, mk = arr._bool_getter(c), _masked_of(c)
    m = SymArray(c._shape, f=g if mk is None else memo(lambda i: cell_and(cell_not(mk(i)), g(i))), dt=builtins.bool)
    return tuple(SymIdx(m, k) for k in range(c.ndim))


class _Argwhere:
    """np.argwhere(mask) of symbolic data"""

    def __init__(self, m):
        self.m = m
        self.idx = [SymIdx(m, k) for k in range(m.ndim)]

    @property
    def size(self):
        n = self.idx[0].count()
        return n * self.m.ndim

    @property
    def shape(self):
        return (self.idx[0].count(), self.m.ndim)

    def _ext(self, kind, axis):
        if axis != 0:
            raise Unsupported("argwhere reduction")
        return from_cells([getattr(s, kind)() for s in self.idx], _np.dtype(builtins.int))

    def min(self, axis=None):
        return self._ext("min", axis)

    def max(self, axis=None):
        return self._ext("max", axis)

    @property
    def T(self):
        return tuple(self.idx)

    def __iter__(self):
        """the positions one by one, deciding each cell"""
        if not builtins.all(isinstance(n, builtins.int) for n in self.m._shape):
            raise Unsupported("positions over a symbolic size")
        for i in itertools.product(*[range(n) for n in self.m._shape]):
            if self.m.get(i):
                yield asarr(_np.array(i))


def nditer(a, op_flags=None, **k):
    """cells of an array of fixed size, as 0-d views"""
    a = asarr(a)
    if k or not builtins.all(isinstance(n, builtins.int) for n in a._shape):
        raise Unsupported("nditer over a symbolic size")
    for idx in itertools.product(*[range(n) for n in a._shape]):
        yield SymArray((), dt=a.dt, base=a, imap=lambda i, idx=idx: idx, rmap=lambda b, idx=idx: b[idx])


def argwhere(c):
    c = asarr(c)
    cc = c.conc()
    if cc is not None:
        return asarr(_np.argwhere(cc))
    return _Argwhere(SymArray(c._shape, f=arr._bool_getter(c), dt=builtins.bool))


def flatnonzero(c):
    return nonzero(asarr(c).ravel())[0]


# ---------------------------------------------------------------- creation
def _cshape(shape):
    if isinstance(shape, SymArray):
        shape = [x for x in shape]
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    return tuple(dim(n) for n in shape)


def zeros(shape, dtype=float64, order=None, **k):
    return full(_cshape(shape), 0, norm_dtype(dtype) if dtype is not None else _np.dtype(builtins.float))


def ones(shape, dtype=float64, order=None, **k):
    return full(_cshape(shape), 1, norm_dtype(dtype) if dtype is not None else _np.dtype(builtins.float))


def empty(shape, dtype=float64, order=None):
    sh = _cshape(shape)
    dt = norm_dtype(dtype)
    if dt.kind not in "iufb":
        return full(sh, 0 if dt.kind == "c" else None, dt)
    if core.CTX is None:
        return full(sh, 0, dt)
    srt = {"i": z3.IntSort(), "u": z3.IntSort(), "f": z3.RealSort(), "b": z3.BoolSort()}[dt.kind]
    F = core.CTX.fresh_fun("empty", *([z3.IntSort()] * max(1, len(sh)) + [srt]))

    def f(i):
        t = F(*[iterm(it(x)) for x in i]) if i else F(z3.IntVal(0))
        return SymBool(t) if dt.kind == "b" else SymNum(t, None, dt)
    return SymArray(sh, f=memo(f), dt=dt)


def _full(shape, v, dtype=None, **k):
    sh = _cshape(shape)
    if dtype is None:
        dtype = asarr(v).dt
    return full(sh, v, norm_dtype(dtype))


def _like(a, dtype):
    a_ = asarr(a)
    return a_._shape, norm_dtype(dtype) if dtype is not None else a_.dt, a_


def _likema(out, a):
    if a.isma and not getattr(a, "_plain", False):
        out._isma = True
        out._m = a.mgetter()
        out._nomask = getattr(a.root(), "_nomask", True)
    return out


def zeros_like(a, dtype=None, **k):
    if isinstance(a, SymSel):
        return a.like(zeros_like(a.inner, dtype))
    s, d, a = _like(a, dtype)
    return _likema(full(s, 0, d), a)


def ones_like(a, dtype=None, **k):
    if isinstance(a, SymSel):
        return a.like(ones_like(a.inner, dtype))
    s, d, a = _like(a, dtype)
    return _likema(full(s, 1, d), a)


def empty_like(a, dtype=None, **k):
    if isinstance(a, SymSel):
        return a.like(empty_like(a.inner, dtype))
    s, d, a = _like(a, dtype)
    return _likema(empty(s, d), a)


def full_like(a, v, dtype=None, **k):
    if isinstance(a, SymSel):
        return a.like(full_like(a.inner, v, dtype))
    s, d, a = _like(a, dtype)
    return _likema(full(s, v, d), a)


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    if dtype in (builtins.object, object_) and isinstance(x, (list, tuple)) and x \
            and builtins.all(isinstance(e, SymArray) and e.conc() is not None for e in x) \
            and builtins.len({e.conc().shape for e in x}) > 1:
        o = _np.empty(builtins.len(x), dtype=builtins.object)
        for k, e in enumerate(x):
            o[k] = e.conc()
        return o
    if isinstance(x, SymSel):
        return x if dtype is None else x.astype(dtype)
    a = asarr(x)
    a = a.copy() if isinstance(x, SymArray) and copy else a
    if a.isma and not subok:
        a = a.data.copy()
    if dtype is not None:
        a = a.astype(dtype, copy=False)
    while a.ndim < ndmin:
        a = a.reshape((1,) + a._shape)
    return a


def asarray(x, dtype=None, order=None):
    if isinstance(x, SymSel):
        return x if dtype is None else x.astype(dtype)
    a = asarr(x)
    if a.isma:
        a = a.data
    return a.astype(dtype, copy=False) if dtype is not None else a


def asanyarray(x, dtype=None):
    if isinstance(x, SymSel):
        return x
    a = asarr(x)
    return a.astype(dtype, copy=False) if dtype is not None else a


ascontiguousarray = asarray
asfortranarray = asarray


def copy(a, **k):
    return asarr(a).copy()


def arange(start, stop=None, step=None, dtype=None):
    if stop is None:
        start, stop = 0, start
    if step is None:
        step = 1
    c = allconc(start, stop, step)
    if c is not None:
        r = _np.arange(*c, dtype=norm_dtype(dtype))
        return asarr(r)
    if has_sym(step) and not (isinstance(step, SymNum) and False):
        pass
    isint = all(isinstance(v, builtins.int) or (isinstance(v, SymNum) and v.t.is_int()) for v in (start, stop, step))
    if isint and not has_sym(step) and step == 1:
        n = dim(stop - start)
        if n < 0:
            n = 0
        dt = norm_dtype(dtype) or _np.dtype(builtins.int)
        s = start
        return SymArray((n,), f=memo(lambda i: cell_astype(cell_bin("add", mki(iterm(it(i[0]))), s), dt)), dt=dt)
    # ceil((stop-start)/step)
    q = cell_bin("div", cell_bin("sub", stop, start), step)
    n = core.CTX.concretize(-core.floor_t(-num(q).real()))
    dt = norm_dtype(dtype) or (_np.dtype(builtins.int) if isint else _np.dtype(builtins.float))
    return from_cells([cell_astype(cell_bin("add", start, cell_bin("mul", k, step)), dt)
                       for k in range(builtins.max(0, n))], dt)


def linspace(start, stop, num=50, endpoint=True, dtype=None, retstep=False, axis=0):
    c = allconc(start, stop, num)
    if c is not None:
        r = _np.linspace(c[0], c[1], c[2], endpoint=endpoint, dtype=norm_dtype(dtype), retstep=retstep)
        return wrap(r)
    n = dim(num)
    div_ = n - 1 if endpoint else n
    dt = norm_dtype(dtype) or _np.dtype(builtins.float)
    step = None
    if not isinstance(div_, builtins.int):
        span = cell_bin("sub", stop, start)
        if isinstance(span, SymNum) and span.nan is None:
            q = pdiv(poly(z3.simplify(span.real())), _poly_int(z3.simplify(div_.t)))
            if q is not None:
                step = SymNum(pterm(q), None, _np.dtype(builtins.float))
                return SymArray((n,), f=memo(lambda i: cell_astype(cell_bin("add", start, cell_bin(
                    "mul", step, mki(iterm(it(i[0]))))), dt)), dt=dt)

    def f(i):
        k = mki(iterm(it(i[0])))
        v = cell_bin("add", start, cell_bin("div", cell_bin("mul", cell_bin("sub", stop, start), k),
                                            _np.float64(div_) if isinstance(div_, builtins.int) else
                                            SymNum(div_.t, None, _np.dtype(builtins.float))))
        if endpoint and not (isinstance(n, builtins.int) and n == 1):
            v = cell_ite(ieq(i[0], n - 1), stop, v)
        if isinstance(v, SymNum) and isinstance(n, builtins.int) and n == 1:
            v = cell_astype(start, dt)
        return cell_astype(v, dt)
    return SymArray((n,), f=memo(f), dt=dt)


def indices(dims, dtype=builtins.int, sparse=False):
    dims = _cshape(dims)
    nd = len(dims)
    return SymArray((nd,) + dims, f=lambda i: mki(iterm(it(i[1 + it(i[0])]))), dt=_np.dtype(builtins.int))


class _OGrid:
    def __init__(self, sparse):
        self.sparse = sparse

    def __getitem__(self, key):
        if isinstance(key, list):
            key = tuple(key)
        c = allconc(*[x for s in (key if isinstance(key, tuple) else (key,)) for x in (s.start, s.stop, s.step)])
        if c is None:
            key3 = key if isinstance(key, tuple) else (key,)
            if self.sparse or builtins.any(k.step not in (None, 1) or k.start not in (None, 0) for k in key3):
                raise Unsupported("symbolic grid")
            sh = tuple(dim(k.stop) for k in key3)
            return [SymArray(sh, f=lambda i, k=k: mki(iterm(it(i[k]))), dt=_np.dtype(builtins.int)) for k in range(len(sh))]
        key2 = tuple(slice(*c[3 * k:3 * k + 3]) for k in range(len(c) // 3))
        r = (_np.ogrid if self.sparse else _np.mgrid)[key2 if isinstance(key, tuple) else key2[0]]
        return [asarr(x) for x in r] if isinstance(r, (list, tuple)) else asarr(r)


ogrid = _OGrid(True)
mgrid = _OGrid(False)


def meshgrid(*xs, indexing="xy", **k):
    xs = [asarr(x) for x in xs]
    n = len(xs)
    out = []
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    sh = tuple(xs[order[k]].size for k in range(n))
    for q, x in enumerate(xs):
        pos = order.index(q)
        g = x.getter()
        out.append(SymArray(sh, f=memo(lambda i, g=g, pos=pos: g((i[pos],))), dt=x.dt))
    return out


class SymNdIndex(object):
    """every index of a box of symbolic size"""

    def __init__(self, shape):
        self.shape = tuple(shape)

    def __iter__(self):
        # the first index costs only a decision of emptiness; the sizes themselves are needed for a second one
        if builtins.any(builtins.bool(n <= 0) for n in self.shape):
            return
        yield (0,) * len(self.shape)
        its = itertools.product(*[range(n if isinstance(n, builtins.int) else core.CTX.concretize(n.t))
                                  for n in self.shape])
        next(its)
        for i in its:
            yield i


def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    if builtins.any(isinstance(n, Sym) and core.CTX.known_const(n.t) is None for n in shape):
        return SymNdIndex(shape)
    return iter(itertools.product(*[range(n if isinstance(n, builtins.int) else core.CTX.concretize(n.t))
                                    for n in shape]))


def ndenumerate(a):
    a = asarr(a)
    for idx in ndindex(*a._shape):
        yield idx, a[idx]


def eye(n, *a, **k):
    return asarr(_np.eye(builtins.int(n), *a))


identity = eye


# ---------------------------------------------------------------- shape manipulation
def shape(a):
    return asarr(a)._shape if not isinstance(a, SymSel) else a.shape


def ndim(a):
    return a.ndim if hasattr(a, "ndim") else asarr(a).ndim


def size(a, axis=None):
    if axis is not None:
        return shape(a)[axis]
    return a.size if isinstance(a, (SymSel, _Argwhere)) else asarr(a).size


def reshape(a, s, **k):
    return asarr(a).reshape(s)


def ravel(a, **k):
    return asarr(a).ravel()


def transpose(a, axes=None):
    return asarr(a).transpose(axes) if axes is not None else asarr(a).transpose()


def swapaxes(a, x, y):
    return asarr(a).swapaxes(x, y)


def moveaxis(a, s, d):
    a = asarr(a)
    s = [s] if isinstance(s, builtins.int) else list(s)
    d = [d] if isinstance(d, builtins.int) else list(d)
    s = [x % a.ndim for x in s]
    d = [x % a.ndim for x in d]
    order = [n for n in range(a.ndim) if n not in s]
    for dst, src in sorted(zip(d, s)):
        order.insert(dst, src)
    return a.transpose(order)


def rollaxis(a, axis, start=0):
    a = asarr(a)
    axis %= a.ndim
    if axis < start:
        start -= 1
    order = list(range(a.ndim))
    order.remove(axis)
    order.insert(start, axis)
    return a.transpose(order)


def squeeze(a, axis=None):
    return asarr(a).squeeze(axis)


def expand_dims(a, axis):
    a = asarr(a)
    ax = [axis] if isinstance(axis, builtins.int) else list(axis)
    nd = a.ndim + len(ax)
    ax = [x % nd for x in ax]
    key = tuple(None if k in ax else slice(None) for k in range(nd))
    return a[key]


def atleast_1d(*xs):
    out = []
    for a in xs:
        if isinstance(a, SymSel):
            out.append(a)
            continue
        a = asarr(a)
        out.append(a.reshape((1,)) if a.ndim == 0 else a)
    return out[0] if len(out) == 1 else out


def atleast_2d(a):
    a = atleast_1d(a)
    return a if a.ndim >= 2 else a.reshape((1,) + a._shape)


def broadcast_arrays(*xs, **k):
    xs = [asarr(x) for x in xs]
    sh = bshape(*[x._shape for x in xs])
    return [broadcast_to(x, sh) for x in xs]


def _broadcast_to(a, shape, subok=False):
    if isinstance(shape, (builtins.int, SymNum)):
        shape = (shape,)
    return broadcast_to(a, shape)


def broadcast_shapes(*s):
    return bshape(*s)


def stack(xs, axis=0, **k):
    xs = [asarr(x) for x in xs]
    sh = xs[0]._shape
    axis = axis % (len(sh) + 1)
    return concatenate([expand_dims(x, axis) for x in xs], axis=axis)


def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], axis=0)


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)


def dstack(xs):
    out = []
    for x in xs:
        x = atleast_2d(x)
        out.append(x if x.ndim > 2 else expand_dims(x, 2))
    return concatenate(out, axis=2)


def column_stack(xs):
    return concatenate([x.reshape(x._shape + (1,)) if x.ndim == 1 else x for x in map(asarr, xs)], axis=1)


def concatenate(xs, axis=0, out=None, **k):
    ma_any = False
    parts = []
    for x in xs:
        if isinstance(x, SymSel):
            x = x.materialise()
        parts.append(asarr(x))
    if axis is None:
        parts = [p.ravel() for p in parts]
        axis = 0
    if not parts:
        raise ValueError("need at least one array to concatenate")
    nd = parts[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    for p in parts[1:]:
        if p.ndim != nd:
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        for k_ in range(nd):
            if k_ != axis and not same_dim(p._shape[k_], parts[0]._shape[k_]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    dts = [p.dt for p in parts]
    dt = _np.result_type(*dts)
    tot = 0
    offs = []
    for p in parts:
        offs.append(tot)
        tot = dim(tot + p._shape[axis])
    sh = parts[0]._shape[:axis] + (tot,) + parts[0]._shape[axis + 1:]
    if all(p.real_ is not None and not p.isma for p in parts):
        return asarr(_np.concatenate([p.real_ for p in parts], axis=axis))
    gs = [p.getter() for p in parts]
    isma = any(p.isma and not getattr(p, "_plain", False) for p in parts)

    def fetch(getters, idx, cast):
        i = it(idx[axis])

        def at(k_):
            o = offs[k_]
            j = idx[axis] if isinstance(o, builtins.int) and o == 0 else (
                i - o if isinstance(o, builtins.int) else i - o.t)
            if isinstance(j, z3.ArithRef):
                j = z3.simplify(j)
                j = builtins.int(zval(j)) if zval(j) is not None else j
            g = getters[k_]
            if g is None:
                return False
            pn = parts[k_]._shape[axis]
            if isinstance(j, builtins.int) and (j < 0 or isinstance(pn, builtins.int) and j >= pn):
                return _NO                       # not in this piece
            v = g(idx[:axis] + (j,) + idx[axis + 1:])
            return cell_astype(v, dt) if cast and dt.kind in "iufbc" else v
        if isinstance(i, builtins.int) and all(isinstance(o, builtins.int) for o in offs):
            for k_ in range(len(parts) - 1, -1, -1):
                if i >= offs[k_]:
                    return at(k_)
        out_ = at(0)
        for k_ in range(1, len(parts)):
            c = arr.ilt(i, offs[k_])
            if isinstance(c, builtins.bool):
                out_ = out_ if c else at(k_)
                continue
            w = at(k_)
            out_ = w if out_ is _NO else out_ if w is _NO else cell_ite(cell_not(c), w, out_)
        return out_
    r = SymArray(sh, f=memo(lambda idx: fetch(gs, idx, True)), dt=dt)
    if isma:
        ms = [p.mgetter() if not getattr(p, "_plain", False) else None for p in parts]
        r._isma = True
        if any(m is not None for m in ms):
            r._m = memo(lambda idx: fetch(ms, idx, False))
            r._nomask = False
    return r


_NO = object()


def append(a, v, axis=None):
    if axis is None:
        return concatenate([asarr(a).ravel(), asarr(v).ravel()])
    return concatenate([a, v], axis=axis)


def insert(arr, obj, values, axis=None):
    pos, v = obj, values
    a = asarr(arr)
    if axis is None:
        a = a.ravel()
        axis = 0
    if not isinstance(pos, builtins.int):
        c = allconc(a, pos, v)
        if c is None:
            raise Unsupported("insert")
        return asarr(_np.insert(*c, axis=axis))
    pos = pos if pos >= 0 else pos + a._shape[axis]
    sl = [slice(None)] * a.ndim
    sl[axis] = slice(None, pos)
    left = a[tuple(sl)]
    sl[axis] = slice(pos, None)
    right = a[tuple(sl)]
    vs = list(a._shape)
    vs[axis] = 1
    v = asarr(v)
    mid = broadcast_to(expand_dims(v, axis) if v.ndim == a.ndim - 1 and v.ndim else v, vs).astype(a.dt)
    return concatenate([left, mid, right], axis=axis)


def delete(a, pos, axis=None):
    a = asarr(a)
    c = allconc(a, pos)
    if c is not None:
        return asarr(_np.delete(*c, axis=axis))
    n = a._shape[axis or 0]
    keep = [k for k in range(n) if k not in _np.atleast_1d(unwrap(pos) % n)]
    return take(a, keep, axis=axis or 0)


def take(a, indices, axis=None, **k):
    a = asarr(a)
    idx = indices
    if axis is None:
        return a.ravel()[asarr(idx) if not isinstance(idx, (builtins.int, SymNum)) else idx]
    key = [slice(None)] * a.ndim
    key[axis] = asarr(idx) if not isinstance(idx, (builtins.int, SymNum)) else idx
    return a[tuple(key)]


def take_along_axis(a, idx, axis):
    a, idx = asarr(a), asarr(idx)
    axis %= a.ndim
    sh = list(bshape(a._shape[:axis] + (1,) + a._shape[axis + 1:], idx._shape[:axis] + (1,) + idx._shape[axis + 1:]))
    sh[axis] = idx._shape[axis]
    sh = tuple(sh)
    g, ig = a.getter(), idx.getter()
    n = a._shape[axis]

    def f(i):
        c = ig(bget(idx, i, sh))
        j = list(bget(a, i, sh))
        j[axis] = arr.neg_index(c, n)
        return g(tuple(j))
    return SymArray(sh, f=memo(f), dt=a.dt)


def put_along_axis(a, idx, values, axis):
    """in place: for each position along the axis in idx (in order), the cell it names takes the value"""
    idx = asarr(idx)
    if a._flag_readonly() if hasattr(a, "_flag_readonly") else False:
        raise Unsupported("put_along_axis on a read-only array")
    axis %= a.ndim
    n, m = a._shape[axis], idx._shape[axis]
    if not (isinstance(n, builtins.int) and isinstance(m, builtins.int)):
        raise Unsupported("put_along_axis along a symbolic dimension")
    values = asarr(values)
    if values.isma:
        values = asarr(values.data)
    values = broadcast_to(values, idx._shape)
    pre = (slice(None),) * axis
    for q in range(m):
        k = idx[pre + (q,)]
        v = values[pre + (q,)]
        bad = logical_or(less(k, -n), greater_equal(k, n))
        if any_(bad):
            raise IndexError("index out of bounds for put_along_axis")
        k = where(less(k, 0), k + n, k)
        for p in range(n):
            a[pre + (p,)] = where(equal(k, p), v, a[pre + (p,)])


def nextafter(a, b, dtype=None, **k):
    c = allconc(a, b)
    if c is None:
        raise Unsupported("nextafter of symbolic values")
    return wrap(_np.nextafter(*c, dtype=dtype) if dtype is not None else _np.nextafter(*c))


def choose(idx, choices, **k):
    idx = asarr(idx)
    ch = [asarr(c) for c in choices]
    sh = bshape(idx._shape, *[c._shape for c in ch])
    ig = idx.getter()
    gs = [c.getter() for c in ch]

    def f(i):
        c = ig(bget(idx, i, sh))
        return pick([(lambda k=k: gs[k](bget(ch[k], i, sh))) for k in range(len(ch))],
                    c if isinstance(c, Sym) else builtins.int(c))
    return SymArray(sh, f=memo(f), dt=ch[0].dt)


def repeat(a, n, axis=None):
    a = asarr(a)
    c = allconc(a, n)
    if c is not None:
        return asarr(_np.repeat(*c, axis=axis))
    if axis is None:
        a = a.ravel()
        axis = 0
    n = dim(n)
    sh = a._shape[:axis] + (dim(a._shape[axis] * n),) + a._shape[axis + 1:]
    g = a.getter()
    nt = n if isinstance(n, builtins.int) else n.t

    def f(i):
        k = it(i[axis])
        j = k // nt if isinstance(k, builtins.int) and isinstance(nt, builtins.int) else iterm(k) / nt
        return g(i[:axis] + (j,) + i[axis + 1:])
    return SymArray(sh, f=memo(f), dt=a.dt)


def tile(a, reps):
    a = asarr(a)
    c = allconc(a, reps)
    if c is not None:
        return asarr(_np.tile(*c))
    reps = [reps] if isinstance(reps, (builtins.int, SymNum)) else list(reps)
    nd = builtins.max(len(reps), a.ndim)
    reps = [1] * (nd - len(reps)) + reps
    b = a.reshape((1,) * (nd - a.ndim) + a._shape)
    sh = tuple(dim(n * r) for n, r in zip(b._shape, reps))
    g = b.getter()

    def f(i):
        out = []
        for x, n, r in zip(i, b._shape, reps):
            if isinstance(r, builtins.int) and r == 1:
                out.append(x)
            elif isinstance(n, builtins.int) and n == 1:
                out.append(0)
            else:
                x = it(x)
                out.append(x % n if isinstance(n, builtins.int) else iterm(x) % n.t)
        return g(tuple(out))
    return SymArray(sh, f=memo(f), dt=a.dt)


def flip(a, axis=None):
    a = asarr(a)
    ax = range(a.ndim) if axis is None else [axis % a.ndim] if isinstance(axis, builtins.int) else [x % a.ndim for x in axis]
    return a[tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(a.ndim))]


def flipud(a):
    return flip(a, 0)


def fliplr(a):
    return flip(a, 1)


def roll(a, n, axis=None):
    a = asarr(a)
    if axis is None:
        raise Unsupported("roll")
    n = builtins.int(n)
    g = a.getter()
    m = a._shape[axis]

    def f(i):
        k = it(i[axis])
        j = (k - n) % m if isinstance(m, builtins.int) and isinstance(k, builtins.int) else (iterm(k) - n) % dterm(m)
        return g(i[:axis] + (j,) + i[axis + 1:])
    return SymArray(a._shape, f=memo(f), dt=a.dt)


def pad(a, width, mode="constant", **k):
    a = asarr(a)
    if isinstance(width, (builtins.int, SymNum)):
        width = [(width, width)] * a.ndim
    elif isinstance(width, SymArray):
        width = [tuple(x) if isinstance(x, SymArray) else x for x in width]
    width = list(width)
    if len(width) == 1 and a.ndim > 1:
        width = width * a.ndim
    if len(width) == 2 and all(isinstance(w, (builtins.int, SymNum)) for w in width):
        width = [tuple(width)] * a.ndim
    width = [tuple(dim(x) for x in w) for w in width]
    sh = tuple(dim(n + lo + hi) for n, (lo, hi) in zip(a._shape, width))
    c = allconc(a, *[x for w in width for x in w])
    if c is not None:
        return wrap(_np.pad(c[0], width, mode=mode, **{q: unwrap(v) for q, v in k.items()}))
    g = a.getter()
    dt = a.dt
    if mode == "constant":
        cv = k.get("constant_values", 0)
        if isinstance(cv, (tuple, list)) and len(cv) == 2 and not isinstance(cv[0], (tuple, list)) and \
                core.is_conc_num(cv[0]) and core.is_conc_num(cv[1]) and cv[0] == cv[1]:
            cv = cv[0]
        cv = cell_astype(asarr(cv)._as_scalar(), dt)

        def f(i):
            inside = True
            j = []
            for x, n, (lo, hi) in zip(i, a._shape, width):
                if all(isinstance(v, builtins.int) and v == 0 for v in (lo, hi)):
                    j.append(x)
                    continue
                y = it(x) - (lo if isinstance(lo, builtins.int) else lo.t)
                if isinstance(y, z3.ArithRef):
                    y = z3.simplify(y)
                    y = builtins.int(zval(y)) if zval(y) is not None else y
                inside = cell_and(inside, cell_and(cell_not(arr.ilt(y, 0)), arr.ilt(y, n)))
                j.append(y)
            if isinstance(inside, builtins.bool):
                return g(tuple(j)) if inside else cv
            return cell_ite(inside, g(tuple(j)), cv)
        return SymArray(sh, f=memo(f), dt=dt)
    if mode in ("edge", "symmetric", "reflect"):
        def conv(x, n, lo, hi):
            if all(isinstance(v, builtins.int) and v == 0 for v in (lo, hi)):
                return x
            y = iterm(it(x)) - dterm(lo)
            nt = dterm(n)
            r = y
            if mode == "edge":
                r = z3.If(y < 0, z3.IntVal(0), z3.If(y >= nt, nt - 1, y))
            elif mode == "symmetric":
                for _ in range(folds):
                    r = z3.If(r < 0, -r - 1, z3.If(r >= nt, 2 * nt - 1 - r, r))
            else:
                for _ in range(folds):
                    r = z3.If(r < 0, -r, z3.If(r >= nt, 2 * nt - 2 - r, r))
            r = z3.simplify(r)
            return builtins.int(zval(r)) if zval(r) is not None else r
        folds = 1
        if mode != "edge":
            for n, (lo, hi) in zip(a._shape, width):
                lim = n if mode == "symmetric" else n - 1
                while not (lo <= folds * lim) or not (hi <= folds * lim):
                    folds += 1
                    if folds > 4:
                        raise Unsupported("multiple reflections in pad")
        return SymArray(sh, f=memo(lambda i: g(tuple(conv(x, n, lo, hi) for x, n, (lo, hi) in zip(i, a._shape, width)))),
                        dt=dt)
    if mode == "mean":
        # each axis in turn: edge mean over stat_length values
        stat = k.get("stat_length", None)
        out = a
        for ax, (lo, hi) in enumerate(width):
            if all(isinstance(v, builtins.int) and v == 0 for v in (lo, hi)):
                continue
            n = out._shape[ax]
            s = stat
            if isinstance(s, (tuple, list)):
                s = s[ax] if isinstance(s[0], (tuple, list)) else s
                if isinstance(s, (tuple, list)):
                    if not all(core.is_conc_num(x) and x == s[0] for x in s):
                        raise Unsupported("stat_length")
                    s = s[0]
            L = n if s is None or s > n else s
            sl = [slice(None)] * out.ndim
            sl[ax] = slice(0, L)
            left = mean(out[tuple(sl)], axis=ax, keepdims=True)
            sl[ax] = slice(n - L, n)
            right = mean(out[tuple(sl)], axis=ax, keepdims=True)

            def ext(m, w):
                t = list(out._shape)
                t[ax] = w
                return broadcast_to(m, t).astype(dt)
            out = concatenate([ext(left, lo), out, ext(right, hi)], axis=ax)
        return out
    raise Unsupported("pad mode " + str(mode))


# ---------------------------------------------------------------- sums
class SumDef:
    def __init__(self, name, body, nparams, decl):
        self.name, self.body, self.nparams, self.decl = name, body, nparams, decl


_SUMS = {}
_K = z3.Int("K#sum")
_SUM_DEPTH = [0]


class _Poly:
    """polynomial over z3 atoms: {((atom_id, exp), ...): coef}"""


_ATOMS = {}


def _atom(t):
    _ATOMS[t.get_id()] = t
    return {((t.get_id(), 1),): core.Fraction(1)}


def _padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


_IND = {}


def _pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for a, e_ in m2:
                d[a] = d.get(a, 0) + e_
            for a in list(d):
                if a in _IND and d[a] > 1:
                    d[a] = 1
            m = tuple(sorted(d.items()))
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


def _const(c):
    return {(): core.Fraction(c)} if c != 0 else {}


def _ind(c):
    """indicator polynomial of a z3 Bool"""
    c = z3.simplify(c)
    if z3.is_true(c):
        return _const(1)
    if z3.is_false(c):
        return {}
    if z3.is_not(c):
        return _padd(_const(1), _ind(c.arg(0)), -1)
    if z3.is_and(c):
        r = _const(1)
        for x in c.children():
            r = _pmul(r, _ind(x))
        return r
    if z3.is_or(c) and c.num_args() <= 4:
        r = _const(1)
        for x in c.children():
            r = _pmul(r, _padd(_const(1), _ind(x), -1))
        return _padd(_const(1), r, -1)
    k = c.decl().kind()
    # a >= b and a > b are turned into <= forms so that complements share an atom
    t = z3.If(c, z3.RealVal(1), z3.RealVal(0))
    _ATOMS[t.get_id()] = t
    _IND[t.get_id()] = c
    return {((t.get_id(), 1),): core.Fraction(1)}


def poly(t, depth=0):
    v = zval(t)
    if v is not None:
        return _const(core.Fraction(v))
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD:
        r = {}
        for x in t.children():
            r = _padd(r, poly(x))
        return r
    if k == z3.Z3_OP_SUB:
        ch = t.children()
        r = poly(ch[0])
        for x in ch[1:]:
            r = _padd(r, poly(x), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return _padd({}, poly(t.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        r = _const(1)
        for x in t.children():
            r = _pmul(r, poly(x))
        return r
    if k == z3.Z3_OP_DIV:
        c = zval(t.arg(1))
        if c is not None and c != 0:
            return _pmul(poly(t.arg(0)), _const(core.Fraction(1) / core.Fraction(c)))
        d = z3.simplify(t.arg(1))
        return _pmul(poly(t.arg(0)), _atom(z3.RealVal(1) / d))
    if k == z3.Z3_OP_ITE and t.sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT):
        a, b = poly(t.arg(1)), poly(t.arg(2))
        i = _ind(t.arg(0))
        return _padd(b, _pmul(i, _padd(a, b, -1)))
    if k == z3.Z3_OP_TO_REAL:
        x = t.arg(0)
        kk = x.decl().kind()
        if kk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_ITE, z3.Z3_OP_UMINUS) or zval(x) is not None:
            return _poly_int(x)
        return _atom(t)
    return _atom(t)


def pdiv(p, q):
    """exact quotient of two polynomials, None when q does not divide p"""
    atoms = sorted({a for m in list(p) + list(q) for a, _ in m})

    def key(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in atoms)
    if not q or any(a in _IND for m in q for a, _ in m):
        return None
    lq = builtins.max(q, key=key)
    r, p = {}, dict(p)
    while p:
        lp = builtins.max(p, key=key)
        d = dict(lp)
        for a, e_ in lq:
            d[a] = d.get(a, 0) - e_
        if any(e_ < 0 for e_ in d.values()) or len(r) > 50:
            return None
        t = {tuple(sorted((a, e_) for a, e_ in d.items() if e_)): p[lp] / q[lq]}
        r = _padd(r, t)
        p = _padd(p, _pmul(t, q), -1)
    return r


def pterm(p):
    """z3 Real term of a polynomial"""
    t = z3.RealVal(0)
    for m, c in sorted(p.items()):
        x = core.realval(c)
        for a, e_ in m:
            for _ in range(e_):
                x = x * _ATOMS[a]
        t = t + x
    return z3.simplify(t)


def _poly_int(t):
    v = zval(t)
    if v is not None:
        return _const(core.Fraction(v))
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = {}
        for x in t.children():
            r = _padd(r, _poly_int(x))
        return r
    if k == z3.Z3_OP_SUB:
        ch = t.children()
        r = _poly_int(ch[0])
        for x in ch[1:]:
            r = _padd(r, _poly_int(x), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return _padd({}, _poly_int(t.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        r = _const(1)
        for x in t.children():
            r = _pmul(r, _poly_int(x))
        return r
    if k == z3.Z3_OP_ITE:
        a, b = _poly_int(t.arg(1)), _poly_int(t.arg(2))
        i = _ind(t.arg(0))
        return _padd(b, _pmul(i, _padd(a, b, -1)))
    return _atom(z3.ToReal(t))


def _has(t, v, cache):
    i = t.get_id()
    if i in cache:
        return cache[i]
    if t.eq(v):
        r = True
    else:
        r = any(_has(x, v, cache) for x in t.children())
    cache[i] = r
    return r


def _abstract(t, v, cache, params, keys):
    """replace maximal v-free non-constant subterms by parameters"""
    if t.eq(v):
        return _K
    if not _has(t, v, cache):
        if zval(t) is not None or (t.sort().kind() == z3.Z3_BOOL_SORT and (z3.is_true(t) or z3.is_false(t))):
            return t
        i = t.get_id()
        if i not in keys:
            keys[i] = z3.Const("P#%d" % len(params), t.sort())
            params.append(t)
        return keys[i]
    ch = [_abstract(x, v, cache, params, keys) for x in t.children()]
    return t.decl()(*ch)


def _offset(n):
    """n = t0 + constant"""
    n = z3.simplify(n)
    if zval(n) is not None or not z3.is_add(n):
        return n, 0
    k, rest = 0, []
    for x in n.children():
        if zval(x) is not None:
            k += zval(x)
        else:
            rest.append(x)
    t0 = rest[0] if len(rest) == 1 else z3.Sum(rest)
    return z3.simplify(t0), k


def _known_nonneg(ctx, t):
    t = z3.simplify(t)
    key = ("nn", t.get_id())
    ctx.keep.append(t)
    if ctx.sumdefs.get(key):
        return True
    r = ctx.entails(t >= 0)
    if r:
        ctx.sumdefs[key] = True
    return r


def sum_term(n, body):
    """z3 Real term for sum_{0<=k<n} body(k); n int or z3 Int"""
    ctx = core.CTX
    if isinstance(n, builtins.int):
        if n <= EXPAND:
            r = z3.RealVal(0)
            for k in range(n):
                r = r + body(k)
            return r
        n = z3.IntVal(n)
    elif ctx is not None:
        t0, k = _offset(n)
        if k and -12 <= k <= 12:
            lo = t0 if k > 0 else n
            if _known_nonneg(ctx, lo):
                r = sum_term(t0, body)
                for i in range(abs(k)):
                    if k > 0:
                        r = r + body(z3.simplify(t0 + i))
                    else:
                        r = r - body(z3.simplify(t0 - 1 - i))
                return r
    v = z3.Int("k#%d" % _SUM_DEPTH[0])
    _SUM_DEPTH[0] += 1
    try:
        b = body(v)
    finally:
        _SUM_DEPTH[0] -= 1
    b = z3.simplify(b)
    p = poly(b)
    total = z3.RealVal(0)
    cache = {}
    nn = z3.If(n >= 0, n, z3.IntVal(0))
    if ctx is not None and ctx.entails(n >= 0):
        nn = n
    for m, c in sorted(p.items()):
        free, dep = z3.RealVal(1), None
        for a, e_ in m:
            t = _ATOMS[a]
            for _ in range(e_):
                if _has(t, v, cache):
                    dep = t if dep is None else dep * t
                else:
                    free = free * t
        cf = core.realval(c)
        if dep is None:
            total = total + cf * free * z3.ToReal(nn)
            continue
        pd = [(_ATOMS[a], e_) for a, e_ in m if _has(_ATOMS[a], v, cache)]
        if len(pd) == 1 and pd[0][0].eq(z3.ToReal(v)) and pd[0][1] in (1, 2):
            # closed forms of the sums of k and of k squared
            rn = z3.ToReal(nn)
            cl = rn * (rn - 1) / 2 if pd[0][1] == 1 else rn * (rn - 1) * (2 * rn - 1) / 6
            total = total + cf * free * cl
            continue
        params, keys = [], {}
        pat = _abstract(z3.simplify(dep), v, cache, params, keys)
        key = pat.sexpr()
        if key not in _SUMS:
            name = "SUM%d" % len(_SUMS)
            decl = z3.Function(name, z3.IntSort(), *([q.sort() for q in params] + [z3.RealSort()]))
            _SUMS[key] = SumDef(name, pat, len(params), decl)
        d = _SUMS[key]
        if ctx is not None and d.name not in ctx.uf_ax:
            ctx.uf_ax[d.name] = lambda app, d=d, ctx=ctx: sum_axioms(ctx, d, app)
        total = total + cf * free * d.decl(n, *params)
    return z3.simplify(total)


def sum_body(d, app, k):
    subs = [(_K, k)] + [(z3.Const("P#%d" % j, app.arg(j + 1).sort()), app.arg(j + 1)) for j in range(d.nparams)]
    return z3.substitute(d.body, *subs)


def sum_axioms(ctx, d, app):
    n = app.arg(0)
    out = [z3.Implies(n <= 0, app == 0), z3.Implies(n == 1, app == sum_body(d, app, z3.IntVal(0)))]
    # sign of the body over the range
    k = ctx.fresh_int("ks")
    b = sum_body(d, app, k)
    rng = z3.And(k >= 0, k < n)
    old = ctx.limits["branch_ms"]
    if not getattr(ctx, "no_sum_sign", False):
        ctx.no_sum_sign = True
        try:
            ctx.add_index((k,))
            if ctx.entails(z3.Implies(rng, b >= 0), 700):
                out.append(app >= 0)
                if ctx.entails(z3.Implies(rng, b > 0), 700):
                    out.append(z3.Implies(n > 0, app > 0))
            elif ctx.entails(z3.Implies(rng, b <= 0), 700):
                out.append(app <= 0)
        finally:
            ctx.no_sum_sign = False
    # unfolding against other applications of the same sum
    for o in ctx.app_seen.get(d.name, []):
        if all(o.arg(j).eq(app.arg(j)) for j in range(1, app.num_args())):
            m = o.arg(0)
            out.append(z3.Implies(z3.And(n == m + 1, m >= 0), app == o + sum_body(d, app, m)))
            out.append(z3.Implies(z3.And(m == n + 1, n >= 0), o == app + sum_body(d, app, n)))
    return out


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(sorted(builtins.int(x) % nd for x in axis))
    axis = builtins.int(axis)
    if not -nd <= axis < nd:
        raise AxisError("axis %d is out of bounds for array of dimension %d" % (axis, nd))
    return (axis % nd,)


def _reduce_shape(a, axes, keepdims):
    out = tuple(n for k, n in enumerate(a._shape) if k not in axes)
    kd = tuple(1 if k in axes else n for k, n in enumerate(a._shape))
    return out, kd


def _assemble(idx, red, axes, nd):
    out = []
    ii, rr = iter(idx), iter(red)
    for k in range(nd):
        out.append(next(rr) if k in axes else next(ii))
    return tuple(out)


def _fin(out, axes, keepdims, a, outarg=None):
    if keepdims and isinstance(out, SymArray):
        kd = tuple(1 if k in axes else n for k, n in enumerate(a._shape))
        out = out.reshape(kd)
    if outarg is not None:
        outarg[...] = out
        return outarg
    if isinstance(out, SymArray) and out.ndim == 0:
        if out.isma:
            m = out.mget(())
            if builtins.bool(m):
                return masked
        c = out.get(())
        if isinstance(c, SymNum) and c.dt is None:
            c = SymNum(c.t, c.nan, out.dt)
        return c
    return out


def _sum_general(a, axes, cellf, dt, keepdims=False, outarg=None, m=None):
    """sum of cellf(idx) over axes (dropping masked cells when m is given)"""
    nd = a.ndim
    sh = tuple(n for k, n in enumerate(a._shape) if k not in axes)
    ns = [a._shape[k] for k in axes]
    cplx = a.dt.kind == "c"

    def term(idx, part):
        def rec(red, rest):
            if not rest:
                full_idx = _assemble(idx, red, axes, nd)
                c = cellf(full_idx)
                if m is not None:
                    c = cell_ite(m(full_idx), 0, c)
                if cplx:
                    c = core.cplx(c)
                    c = c.re if part == 0 else c.im
                return num(c)
            n = rest[0]
            if isinstance(n, builtins.int) and n <= EXPAND:
                r = num(0)
                for k in range(n):
                    r = cell_bin("add", r, rec(red + (k,), rest[1:]))
                    r = num(r)
                return r
            nt = dterm(n)
            holder = {}

            def body(k):
                c = rec(red + (k,), rest[1:])
                if c.nan is not None:
                    holder["nan"] = True
                return c.real()
            t = sum_term(nt, body)
            nanflag = None
            if holder.get("nan"):
                def nb(i):
                    c = rec(red + (it(i[0]),), rest[1:])
                    return mkb(c.nan) if c.nan is not None else False
                b = any_(SymArray((n,), f=nb, dt=builtins.bool))
                nanflag = bterm(b)
                if z3.is_false(nanflag):
                    nanflag = None
            return SymNum(t, nanflag, None)
        r = rec((), list(ns))
        if dt.kind in "iu" and not r.t.is_int():
            r = SymNum(z3.ToInt(r.t), r.nan, dt)
        if dt.kind == "f":
            r = SymNum(r.real(), r.nan, dt)
        return SymNum(r.t, r.nan, dt if dt.kind != "c" else _np.dtype(builtins.float))

    def f(idx):
        if cplx:
            return CplxCell(term(idx, 0), term(idx, 1))
        return term(idx, 0)
    out = SymArray(sh, f=memo(f), dt=dt)
    return out


def _masked_of(a):
    return a.mgetter() if a.isma and not getattr(a, "_plain", False) else None


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, where=None, initial=None, **k):
    if isinstance(a, _np.ndarray) and a.dtype == builtins.object and axis is None:
        return asarr(_np.sum(a))
    if isinstance(a, SymSel):
        return a.sum(axis, keepdims=keepdims)
    if isinstance(a, (types.GeneratorType,)):
        return builtins.sum(a)
    a = asarr(a)
    if a.dt == object and a.ndim == 1 and axis is None:
        r = 0
        for x in a.real_:
            r = r + x
        return r
    if a.dt == object:
        return wrap(_np.sum(unwrap(a), axis=axis))
    if where is not None:
        a = _where3(where, a, 0)
    dt = norm_dtype(dtype)
    if dt is None:
        dt = a.dt if a.dt.kind in "fc" else _np.dtype(builtins.int)
    m = _masked_of(a)
    if a.real_ is not None and not a.isma:
        r = _np.sum(a.real_, axis=axis, dtype=dt, keepdims=keepdims)
        return _store(out, wrap(r) if isinstance(r, _np.ndarray) else r)
    tele = getattr(a, "_tele", None)
    if tele is not None and tele[0].root()._stamp == tele[1] and a._stamp == tele[2] and not keepdims and out is None:
        # the sum of the differences of a sequence is its last value less its first
        b = tele[0]
        if b._shape[0] >= 1:
            return cell_astype(cell_bin("sub", b[-1], b[0]), dt)
    axes = _axes(axis, a.ndim)
    g = a.getter()
    r = _sum_general(a, axes, g, dt, m=m)
    if m is not None:
        r._isma = True
        mm = asarr(all_(SymArray(a._shape, f=m, dt=builtins.bool), axis=axis))
        r._m = mm.getter()
        r._nomask = False
    elif a.isma and not getattr(a, "_plain", False):
        r._isma = True
    return _fin(r, axes, keepdims, a, out)


def count_nonzero(a, axis=None, **k):
    a = asarr(a) if not isinstance(a, SymSel) else a
    return sum_(_boolify(a).astype(builtins.int), axis=axis)


def nansum(a, axis=None, dtype=None, **k):
    a = asarr(a)
    return sum_(_where3(isnan(a), 0, elementwise1(_strip, a)), axis=axis, dtype=dtype, **k)


def _strip(c):
    return core.num_nn(c) if isinstance(c, SymNum) else c


def prod_(a, axis=None, dtype=None, **k):
    a = asarr(a)
    if a.real_ is not None:
        return wrap(_np.prod(a.real_, axis=axis))
    axes = _axes(axis, a.ndim)
    g = a.getter()
    sh, kd = _reduce_shape(a, axes, False)
    ns = [a._shape[x] for x in axes]
    if not all(isinstance(n, builtins.int) for n in ns):
        raise Unsupported("product over a symbolic axis")

    def f(idx):
        r = 1
        for red in itertools.product(*[range(n) for n in ns]):
            r = cell_bin("mul", r, g(_assemble(idx, red, axes, a.ndim)))
        return r
    return _fin(SymArray(sh, f=memo(f), dt=a.dt), axes, False, a)


def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None, **k):
    if isinstance(a, SymSel):
        return a.mean(axis, keepdims=keepdims)
    a = asarr(a)
    axes = _axes(axis, a.ndim)
    if a.real_ is not None and not a.isma:
        r = _np.mean(a.real_, axis=axis, keepdims=keepdims)
        return _store(out, wrap(r) if isinstance(r, _np.ndarray) else r)
    n = prod([a._shape[x] for x in axes])
    m = _masked_of(a)
    dt = a.dt if a.dt.kind in "fc" else _np.dtype(builtins.float)
    s = sum_(a.astype(dt) if a.dt.kind not in "fc" else a, axis=axis)
    if m is not None:
        cnt = sum_(SymArray(a._shape, f=lambda i: num(cell_not(m(i))), dt=_np.dtype(builtins.int)), axis=axis)
        r = elementwise2("div", s, cnt)
    else:
        r = elementwise2("div", s if isinstance(s, SymArray) else _strong(s, dt), n)
    if isinstance(r, SymArray):
        r.dt = dt
        return _fin(r, axes, keepdims, a, out)
    if isinstance(r, SymNum):
        r = SymNum(r.t, r.nan, dt)
        if keepdims:
            return full((1,) * a.ndim, r, dt)
    return _store(out, r)


def nanmean(a, axis=None, keepdims=False, **k):
    a = asarr(a)
    nn = logical_not(isnan(a))
    s = nansum(a, axis=axis, keepdims=keepdims)
    n = sum_(asarr(nn).astype(builtins.int), axis=axis, keepdims=keepdims)
    return elementwise2("div", s, n)


def average(a, axis=None, weights=None, returned=False):
    a = asarr(a)
    if weights is None:
        return mean(a, axis)
    w = asarr(weights)
    if w.ndim != a.ndim:
        if axis is None or w.ndim != 1:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        ax = axis % a.ndim
        if not same_dim(w._shape[0], a._shape[ax]):
            raise ValueError("Length of weights not compatible with specified axis.")
        w = w.reshape((1,) * ax + (w._shape[0],) + (1,) * (a.ndim - 1 - ax))
    if a.isma and _masked_of(a) is not None:
        w = broadcast_to(w, a._shape)
        m = _masked_of(a)
        w = SymArray(a._shape, f=w.getter(), dt=w.dt, m=m, isma=True)
    sw = sum_(broadcast_to(w, a._shape) if not w.isma else w, axis=axis)
    # numpy raises ZeroDivisionError when any weight sum is zero
    if not a.isma and builtins.bool(any_(elementwise2("eq", sw, 0))):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    num_ = sum_(elementwise2("mul", a, w), axis=axis)
    r = elementwise2("div", num_, sw)
    return (r, sw) if returned else r


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = asarr(a)
    if a.real_ is not None and not a.isma:
        return _store(out, wrap(_np.var(a.real_, axis=axis, ddof=ddof, keepdims=keepdims)))
    d = elementwise2("sub", a, mean(a, axis=axis, keepdims=True))
    m = _masked_of(a)
    if m is None:
        n = prod([a._shape[x] for x in _axes(axis, a.ndim)])
    else:
        n = sum_(SymArray(a._shape, f=lambda i: num(cell_not(m(i))), dt=_np.dtype(builtins.int)), axis=axis, keepdims=keepdims)
    return _store(out, elementwise2("div", sum_(elementwise2("mul", d, d), axis=axis, keepdims=keepdims),
                                    elementwise2("sub", n, ddof) if ddof else n))


def std(a, axis=None, **k):
    return sqrt(var(a, axis=axis, **k))  # noqa


def nanvar(a, axis=None, dtype=None, ddof=0, keepdims=False, **k):
    a = asarr(a)
    d = elementwise2("sub", a, nanmean(a, axis=axis, keepdims=True))
    n = sum_(logical_not(isnan(a)).astype(builtins.int), axis=axis, keepdims=keepdims)
    return elementwise2("div", nansum(elementwise2("mul", d, d), axis=axis, keepdims=keepdims),
                        elementwise2("sub", n, ddof) if ddof else n)


def nanstd(a, axis=None, **k):
    a = asarr(a)
    k.pop("dtype", None)
    if getattr(core.CTX, "std_by_range", False) and not k and a.real_ is None and axis is not None:
        return _std_by_range(a, _axes(axis, a.ndim))
    return sqrt(nanvar(a, axis=axis, **k))  # noqa


def _std_by_range(a, axes):
    """standard deviation of the present values, known only through the range R of n of them: R / sqrt(2 n) <= std <= R"""
    ns = [a._shape[x] for x in axes]
    if not all(isinstance(n, builtins.int) for n in ns):
        raise Unsupported("standard deviation over a symbolic axis")
    lo, hi = nanmin(a, axis=axes), nanmax(a, axis=axes)  # noqa
    root = builtins.int(math.ceil(math.sqrt(2 * prod(ns))))

    def f(idx):
        l, h = num(lo.get(idx)), num(hi.get(idx))
        ctx = core.CTX
        tab = ctx.__dict__.setdefault("std_tab", {})
        key = ctx.kept_id(l.t), ctx.kept_id(h.t)
        if key not in tab:
            v = ctx.fresh_real("std")
            r = h.t - l.t
            ctx.assume(z3.Implies(r >= 0, z3.And(v >= 0, v <= r, root * v >= r)))
            tab[key] = (v, l.t, h.t)
        return SymNum(tab[key][0], h.nan, a.dt)
    return SymArray(lo._shape, f=memo(f), dt=a.dt)


# ---------------------------------------------------------------- any / all / min / max
def any_(a, axis=None, out=None, keepdims=False, **k):
    if isinstance(a, SymSel):
        return a.any()
    if isinstance(a, types.GeneratorType):
        raise Unsupported("np.any over a generator")
    a = asarr(a)
    if a.real_ is not None and not a.isma:
        return wrap(_np.any(a.real_, axis=axis, keepdims=keepdims))
    axes = _axes(axis, a.ndim)
    g = arr._bool_getter(a)
    m = _masked_of(a)
    cond = g if m is None else (lambda i: cell_and(cell_not(m(i)), g(i)))
    sh, kd = _reduce_shape(a, axes, keepdims)
    ns = [a._shape[x] for x in axes]
    r = SymArray(sh, f=memo(lambda idx: _exists(ns, lambda red: cond(_assemble(idx, red, axes, a.ndim)), idx)),
                 dt=builtins.bool)
    return _fin(r, axes, keepdims, a)


def all_(a, axis=None, out=None, keepdims=False, **k):
    if isinstance(a, SymSel):
        return a.all()
    a = asarr(a)
    if a.real_ is not None and not a.isma:
        return wrap(_np.all(a.real_, axis=axis, keepdims=keepdims))
    some = True
    if a.isma and not getattr(a, "_plain", False):
        m = a.mgetter()
        if m is not None and axis is None and not keepdims:   # nothing valid: the result is masked, which is false
            some = any_(SymArray(a._shape, f=lambda i: cell_not(m(i)), dt=builtins.bool))
        g0 = arr._bool_getter(a)
        a = SymArray(a._shape, f=(lambda i: cell_or(m(i), g0(i))) if m is not None else g0, dt=builtins.bool)
    n = logical_not(_boolify(a))
    r = any_(n, axis=axis, keepdims=keepdims)
    if some is not True:
        return cell_and(some, cell_not(r))
    return elementwise1(cell_not, r, "not", _np.dtype(builtins.bool)) if isinstance(r, SymArray) else cell_not(r)


def _exists(ns, cond, outer):
    """bool cell: exists red in box(ns): cond(red)"""
    if builtins.all(isinstance(n, builtins.int) for n in ns):
        tot = prod(ns)
        if tot <= 4 * EXPAND:
            r = False
            for red in itertools.product(*[range(n) for n in ns]):
                c = cond(red)
                r = cell_or(r, c)
                if isinstance(r, builtins.bool) and r:
                    return True
            return r
    ctx = core.CTX
    # constant bodies need no quantifier
    probe = tuple(z3.Int("probe#%d" % k) for k in range(len(ns)))
    c = cond(probe)
    nonempty = z3.And(*[dterm(n) > 0 for n in ns])
    if isinstance(c, builtins.bool):
        return mkb(z3.simplify(nonempty)) if c and not ctx.entails(nonempty) else (c if c else False)
    ckey = (ctx.kept_id(bterm(c)), tuple(ctx.kept_id(dterm(n)) for n in ns))
    tab = getattr(ctx, "exists_tab", None)
    if tab is None:
        tab = ctx.exists_tab = {}
    if ckey in tab:
        return SymBool(tab[ckey][0])
    b = ctx.fresh_bool("any")
    tab[ckey] = (b,)
    w = tuple(ctx.fresh_int("w") for _ in ns)
    ctx.assume(z3.Implies(b, z3.And(*([z3.And(x >= 0, x < dterm(n)) for x, n in zip(w, ns)] + [bterm(cond(w))]))))
    ctx.add_universal(tuple(ns), lambda red: cell_not(cond(red)), z3.Not(b))
    ctx.add_index(w)
    if len(ns) == 2 and isinstance(ns[0], builtins.int) and not isinstance(ns[1], builtins.int):
        ctx.add_index(w[1:])              # rows of a table: facts about a single row apply to its columns
    return SymBool(b)


def extreme(a, kind, axes, where=None, nanskip=False):
    """min/max over axes.  where: bool SymArray of the same shape restricting the cells considered."""
    if axes is None:
        axes = tuple(range(a.ndim))
    g = a.getter()
    m = _masked_of(a)
    wg = where.getter() if where is not None else None
    ns = [a._shape[x] for x in axes]
    sh = tuple(n for k, n in enumerate(a._shape) if k not in axes)
    nd = a.ndim
    best = cell_max if kind == "max" else cell_min
    restricted = m is not None or wg is not None or nanskip

    def ok(i):
        c = True
        if m is not None:
            c = cell_and(c, cell_not(m(i)))
        if wg is not None:
            c = cell_and(c, wg(i))
        if nanskip:
            c = cell_and(c, cell_not(cell_isnan(g(i))))
        return c

    def value(i):
        v = g(i)
        return _strip(v) if nanskip else v

    def f(idx):
        if builtins.all(isinstance(n, builtins.int) for n in ns):
            if prod(ns) == 0:
                raise ValueError("zero-size array to reduction operation %simum which has no identity" % kind)
            if prod(ns) <= 4 * EXPAND:
                cur, have = None, None
                for red in itertools.product(*[range(n) for n in ns]):
                    i = _assemble(idx, red, axes, nd)
                    v, o = value(i), ok(i)
                    if cur is None:
                        cur, have = v, o
                        continue
                    if not restricted:
                        cur = best(cur, v)
                        continue
                    nb = cell_ite(cell_and(have, o), best(cur, v), cell_ite(o, v, cur))
                    cur, have = nb, cell_or(have, o)
                if nanskip and not (isinstance(have, builtins.bool) and have):
                    n_ = num(cur)
                    cur = SymNum(n_.t, bterm(cell_not(have)), n_.dt)
                return cur
        ctx = core.CTX
        if not restricted:
            nonempty = z3.And(*[dterm(n) > 0 for n in ns])
            if not ctx.branch(nonempty):
                raise ValueError("zero-size array to reduction operation %simum which has no identity" % kind)
        probe = tuple(z3.Int("probe#%d" % k) for k in range(len(ns)))
        pv = value(_assemble(idx, probe, axes, nd))
        if not isinstance(pv, Sym) and not restricted:
            return pv
        pn = num(pv)
        po = ok(_assemble(idx, probe, axes, nd))
        key = (kind, ctx.kept_id(pn.t), ctx.kept_id(bterm(po)), tuple(ctx.kept_id(dterm(n)) for n in ns))
        tab = ctx.__dict__.setdefault("ext_tab", {})
        if key in tab:
            return tab[key][0]
        isint = pn.t.is_int()
        v = ctx.fresh_int(kind) if isint else ctx.fresh_real(kind)
        w = tuple(ctx.fresh_int("w") for _ in ns)
        wi = _assemble(idx, w, axes, nd)
        wv, wo = num(value(wi)), ok(wi)
        inr = z3.And(*[z3.And(x >= 0, x < dterm(n)) for x, n in zip(w, ns)])
        nan_ = None
        if pn.nan is not None and not nanskip:
            anyn = _exists(ns, lambda red: cell_and(ok(_assemble(idx, red, axes, nd)),
                                                    cell_isnan(value(_assemble(idx, red, axes, nd)))), idx)
            nan_ = bterm(anyn)
        some = z3.BoolVal(True)
        if restricted:
            some = bterm(_exists(ns, lambda red: ok(_assemble(idx, red, axes, nd)), idx))
            if nanskip:
                nan_ = z3.Not(some)
        base = [inr, wv.t == v, bterm(wo)]
        guard = some if nan_ is None or nanskip else z3.And(some, z3.Not(nan_))
        ctx.assume(z3.Implies(guard, z3.And(*base)))

        def uni(red):
            i = _assemble(idx, red, axes, nd)
            x = num(value(i))
            t = x.t <= v if kind == "max" else x.t >= v
            return mkb(z3.Implies(bterm(ok(i)), t))
        res = SymNum(v, None if nan_ is None or z3.is_false(nan_) else nan_, a.dt)
        tab[key] = (res, pn.t, bterm(po))
        ctx.add_universal(tuple(ns), uni, guard)
        ctx.add_index(w)
        return res
    r = SymArray(sh, f=memo(f), dt=a.dt)
    if not sh:
        return r.get(()) if True else r
    return r


def _ext(kind):
    def g(a, axis=None, out=None, keepdims=False, initial=None, where=None, fill_value=None, **k):
        if initial is not None or where is not None:
            raise Unsupported("np.%s with initial or where" % kind)
        if isinstance(a, SymSel):
            return getattr(a, kind)(axis)
        if isinstance(a, (SymNum,)):
            return a
        a = asarr(a)
        if a.real_ is not None and not a.isma and a.dt.kind != "O":
            r = getattr(_np, "a" + kind)(a.real_, axis=axis, keepdims=keepdims)
            return _store(out, wrap(r) if isinstance(r, _np.ndarray) else r)
        axes = _axes(axis, a.ndim)
        m = _masked_of(a)
        r = extreme(a, kind, axes)
        if m is not None:
            am = all_(SymArray(a._shape, f=m, dt=builtins.bool), axis=axis)
            if not isinstance(r, SymArray):
                if builtins.bool(am):
                    return masked
            else:
                r._isma = True
                r._m = asarr(am).getter()
                r._nomask = False
        if not isinstance(r, SymArray):
            if keepdims:
                r = full((1,) * a.ndim, r, a.dt)
            return _store(out, r)
        return _fin(r, axes, keepdims, a, out)
    return g


amin = _ext("min")
amax = _ext("max")


def _nanext(kind):
    def g(a, axis=None, keepdims=False, **k):
        if isinstance(a, SymSel):
            nn = logical_not(isnan(a.inner))
            return extreme(a.inner, kind, None, where=a.full_mask() & nn)
        a = asarr(a)
        if a.real_ is not None and not a.isma:
            return wrap(getattr(_np, "nan" + kind)(a.real_, axis=axis, keepdims=keepdims))
        axes = _axes(axis, a.ndim)
        probe = a.getter()(tuple(z3.Int("probe#%d" % q) for q in range(a.ndim)))
        skip = not (isinstance(probe, SymNum) and probe.nan is None)
        r = extreme(a, kind, axes, nanskip=skip)
        return _fin(r, axes, keepdims, a) if isinstance(r, SymArray) else r
    return g


nanmin = _nanext("min")
nanmax = _nanext("max")


def ptp(a, axis=None, **k):
    return elementwise2("sub", amax(a, axis=axis), amin(a, axis=axis))


def _argext(kind, skip=False):
    def g(a, axis=None, **k):
        a = asarr(a)
        if a.real_ is not None and not a.isma:
            return wrap(getattr(_np, ("nanarg" if skip else "arg") + kind)(a.real_, axis=axis))
        if axis is None:
            if a.ndim != 1:
                a = a.ravel()
            axis = 0
        axis %= a.ndim
        n = a._shape[axis]
        gg = a.getter()
        sh = a._shape[:axis] + a._shape[axis + 1:]
        boolish = a.dt.kind == "b"
        if skip and a.ndim == 1 and isinstance(n, builtins.int):
            best_ = None                        # one position: decided, so that it can index what is not an array
            for k_ in range(n):
                v = gg((k_,))
                if core.cell_isnan(v):
                    continue
                if best_ is None or cell_cmp("gt" if kind == "max" else "lt", v, gg((best_,))):
                    best_ = k_
            if best_ is None:
                raise ValueError("All-NaN slice encountered")
            return _np.int64(best_)

        def val(c):
            return num(c) if boolish else c

        def f(idx):
            def at(k_):
                return val(gg(idx[:axis] + (k_,) + idx[axis:]))
            if isinstance(n, builtins.int) and n <= EXPAND:
                best_, bi = at(0), 0
                for k_ in range(1, n):
                    v = at(k_)
                    c = cell_cmp("gt" if kind == "max" else "lt", v, best_)
                    vn, bn = core.cell_isnan(v), core.cell_isnan(best_)
                    if skip:
                        if bn is not False:
                            c = core.cell_or(c, bn)
                    elif vn is not False:
                        c = core.cell_or(c, vn if bn is False else core.cell_and(vn, core.cell_not(bn)))
                    best_ = cell_ite(c, v, best_)
                    bi = cell_ite(c, k_, bi)
                if skip and core.cell_isnan(best_):
                    raise ValueError("All-NaN slice encountered")
                return bi
            if skip:
                raise Unsupported("nanarg over a symbolic dimension")
            ctx = core.CTX
            if not ctx.branch(dterm(n) > 0):
                raise ValueError("attempt to get argmax of an empty sequence")
            w = ctx.fresh_int("arg" + kind)
            ctx.assume(z3.And(w >= 0, w < dterm(n)))
            x = num(at(w))

            def uni(red):
                y = num(at(red[0]))
                r_ = it(red[0])
                if kind == "max":
                    return mkb(z3.And(y.t <= x.t, z3.Implies(iterm(r_) < w, y.t < x.t)))
                return mkb(z3.And(y.t >= x.t, z3.Implies(iterm(r_) < w, y.t > x.t)))
            ctx.add_universal((n,), uni)
            ctx.add_index((w,))
            return SymNum(w, None, _np.dtype(builtins.int))
        return _fin(SymArray(sh, f=memo(f), dt=_np.dtype(builtins.int)), (axis,), False, a)
    return g


argmax = _argext("max")
argmin = _argext("min")
nanargmax = _argext("max", True)
nanargmin = _argext("min", True)


# ---------------------------------------------------------------- sorting, cumulative, interpolation
def _axis_cells(a, axis, idx):
    g = a.getter()
    n = a._shape[axis]
    if not isinstance(n, builtins.int):
        raise Unsupported("symbolic-length axis needs a concrete length here")
    return [g(idx[:axis] + (k,) + idx[axis:]) for k in range(n)]


def _vec(a, axis, fn, outn, dt):
    """apply fn(list of cells) -> list of cells along axis"""
    sh = a._shape[:axis] + (outn,) + a._shape[axis + 1:]
    rows = memo(lambda rest: fn(_axis_cells(a, axis, rest)))
    return SymArray(sh, f=memo(lambda i: pick([(lambda c=c: c) for c in rows(i[:axis] + i[axis + 1:])], i[axis])), dt=dt)


def _sortnet(cells):
    cells = list(cells)
    n = len(cells)
    if n > 8:
        raise Unsupported("sorting more than 8 symbolic values")
    if n >= 3 and builtins.all(isinstance(x, SymNum) or core.is_conc_num(x) for x in cells) and not builtins.any(
            isinstance(x, SymNum) and x.nan is not None or core.is_special(x) for x in cells) and builtins.any(
            isinstance(x, SymNum) and not x.t.is_int() for x in cells):
        return _sort_named(cells)
    for i in range(n):
        for j in range(0, n - 1 - i):
            x, y = cells[j], cells[j + 1]
            cells[j], cells[j + 1] = cell_min(x, y), cell_max(x, y)
    return cells


def _sort_named(cells):
    """the sorted values as named constants: every compare-exchange leaves its two values in order"""
    ctx = core.CTX
    n = len(cells)
    dt = core.dt_of(cells[0])
    for x in cells[1:]:
        dt = core.promote(dt, core.dt_of(x))
    t = [num(x).real() for x in cells]
    for i in range(n):
        for j in range(0, n - 1 - i):
            x, y = t[j], t[j + 1]
            lo, hi = ctx.fresh_real("srt"), ctx.fresh_real("srt")
            ctx.assume(z3.Or(z3.And(x <= y, lo == x, hi == y), z3.And(x > y, lo == y, hi == x)))
            t[j], t[j + 1] = lo, hi
    for j in range(1, n):
        ctx.assume(t[j - 1] <= t[j])
    t0 = [num(x).real() for x in cells]
    for k in (0, n - 1):
        ctx.assume(z3.Or(*[t[k] == x for x in t0]))
    for x in t0:
        ctx.assume(z3.And(t[0] <= x, x <= t[n - 1]))
    return [SymNum(x, None, dt) for x in t]


def sort(a, axis=-1, **k):
    a = asarr(a)
    if a.real_ is not None and not a.isma:
        return asarr(_np.sort(a.real_, axis=axis))
    if _masked_of(a) is not None:
        raise Unsupported("sorting masked data")
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    if not isinstance(a._shape[axis], builtins.int):
        return _sort_symbolic(a, axis)
    return _vec(a, axis, _sortnet, a._shape[axis], a.dt)


def _sort_symbolic(a, axis):
    raise Unsupported("sorting along a symbolic axis")


def _perm(keys, axis):
    """np.lexsort / np.argsort along an axis by its contract: a permutation putting the keys (last one first) in order"""
    ctx = core.CTX
    a0 = keys[0]
    sh, nd = a0._shape, a0.ndim
    n = dterm(sh[axis])
    ints = [z3.IntSort()] * (nd + 1)
    sf, pf = ctx.fresh_fun("srti", *ints), ctx.fresh_fun("rank", *ints)
    gs = [k.getter() for k in reversed(keys)]
    wrap_ = lambda t: SymNum(t, None, _np.dtype(builtins.int))

    def other(app):
        return [app.arg(k) for k in range(nd)]

    def ax(f, g):
        def axioms(app):
            i = other(app)
            inr = [z3.And(0 <= i[k], i[k] < dterm(sh[k])) for k in range(nd)]
            j = list(i)
            j[axis] = app
            return [z3.Implies(z3.And(*inr), z3.And(app >= 0, app < n, g(*j) == i[axis]))]
        return axioms
    seen = []

    def before(i, j):
        """index tuple i comes strictly before j (stable)"""
        r = i[axis] < j[axis]
        for g in reversed(gs):
            x, y = g(tuple(mki(t) for t in i)), g(tuple(mki(t) for t in j))
            r = z3.Or(bterm(cell_cmp("lt", x, y)), z3.And(bterm(cell_cmp("eq", x, y)), r))
        return r
    base = ax(pf, sf)

    def rank_ax(app):
        out = base(app)
        i = other(app)
        for o in seen[-12:]:
            j = other(o)
            same = [i[k] == j[k] for k in range(nd) if k != axis]
            inr = [z3.And(0 <= i[axis], i[axis] < n, 0 <= j[axis], j[axis] < n)]
            ctx.in_spec += 1
            try:
                c = before(i, j)
            finally:
                ctx.in_spec -= 1
            out.append(z3.Implies(z3.And(*(same + inr)), z3.And((app == o) == (i[axis] == j[axis]),
                                                                z3.Implies(i[axis] != j[axis], (app < o) == c))))
        seen.append(app)
        return out
    ctx.uf_ax[sf.name()] = ax(sf, pf)
    ctx.uf_ax[pf.name()] = rank_ax
    mk = lambda f: SymArray(sh, f=memo(lambda i: wrap_(f(*[iterm(it(k)) for k in i]))), dt=_np.dtype(builtins.int))
    r, inv = mk(sf), mk(pf)
    r._inv, inv._inv = inv, r
    return r


def argsort(a, axis=-1, **k):
    a = asarr(a)
    if a.real_ is not None:
        return asarr(_np.argsort(a.real_, axis=axis, kind="stable"))
    if axis is None:
        a, axis = a.ravel(), 0
    axis %= a.ndim
    if getattr(a, "_inv", None) is not None:
        return a._inv                       # the permutation that sorts a permutation is its inverse
    return _perm([a], axis)


def lexsort(keys, axis=-1):
    keys = [asarr(k) for k in keys]
    c = allconc(*keys)
    if c is not None:
        return asarr(_np.lexsort(c, axis=axis))
    return _perm([k.data if k.isma else k for k in keys], axis % keys[0].ndim)


def cumsum(a, axis=None, dtype=None, out=None):
    a = asarr(a)
    if a.real_ is not None:
        return wrap(_np.cumsum(a.real_, axis=axis, dtype=norm_dtype(dtype)))
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    g = a.getter()
    dt = norm_dtype(dtype) or (a.dt if a.dt.kind in "fc" else _np.dtype(builtins.int))

    def f(i):
        k = it(i[axis])
        if isinstance(k, builtins.int):
            r = num(0) if dt.kind != "c" else CplxCell(0, 0)
            for j in range(k + 1):
                r = r + g(i[:axis] + (j,) + i[axis + 1:])
            return r
        if dt.kind == "c":
            return CplxCell(
                SymNum(sum_term(iterm(k) + 1, lambda j: num(core.cplx(g(i[:axis] + (j,) + i[axis + 1:])).re).real()), None, _np.dtype(builtins.float)),
                SymNum(sum_term(iterm(k) + 1, lambda j: num(core.cplx(g(i[:axis] + (j,) + i[axis + 1:])).im).real()), None, _np.dtype(builtins.float)))
        t = sum_term(iterm(k) + 1, lambda j: num(g(i[:axis] + (j,) + i[axis + 1:])).real())
        return SymNum(t if dt.kind == "f" else z3.ToInt(t), None, dt)
    return _store(out, SymArray(a._shape, f=memo(f), dt=dt))


def diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    if n != 1 or k:
        c = allconc(a)
        if c is None:
            raise Unsupported("diff")
        return asarr(_np.diff(c[0], n=n, axis=axis, **k))
    axis %= a.ndim
    s1, s0 = [slice(None)] * a.ndim, [slice(None)] * a.ndim
    s1[axis], s0[axis] = slice(1, None), slice(None, -1)
    r = elementwise2("sub", a[tuple(s1)], a[tuple(s0)])
    if a.ndim == 1 and a.real_ is None and not a.isma and isinstance(r, SymArray) and r.base is None:
        r._tele = (a, a.root()._stamp, r._stamp)
    return r


def gradient(a, *h, axis=None, **k):
    raise Unsupported("gradient")


def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    axis %= y.ndim
    s1, s0 = [slice(None)] * y.ndim, [slice(None)] * y.ndim
    s1[axis], s0[axis] = slice(1, None), slice(None, -1)
    d = dx
    if x is not None:
        x = asarr(x)
        d = diff(x)
        if x.ndim == 1:
            sh = [1] * y.ndim
            sh[axis] = d._shape[0]
            d = d.reshape(sh)
    return sum_(d * (y[tuple(s1)] + y[tuple(s0)]) / 2.0, axis=axis)


def interp(x, xp, fp, left=None, right=None, period=None):
    c = allconc(x, xp, fp)
    if c is not None and left is None and right is None:
        return wrap(_np.interp(*c))
    xs = asarr(x)
    xp, fp = asarr(xp), asarr(fp)
    n = xp._shape[0]
    if not isinstance(n, builtins.int):
        return _interp_symbolic(xs, xp, fp, n, left, right)
    if n == 0:
        raise ValueError("array of sample points is empty")
    if not same_dim(n, fp._shape[0]):
        raise ValueError("fp and xp are not of the same length.")
    X = [xp.get((k,)) for k in range(n)]
    F = [cell_astype(fp.get((k,)), builtins.float) for k in range(n)]
    g = xs.getter()
    lo = F[0] if left is None else left
    hi = F[-1] if right is None else right

    def one(v):
        # numpy: largest j with X[j] <= v; exact hits give F[j]
        r = lo
        for j in range(n):
            cj = cell_cmp("ge", v, X[j])
            if j == n - 1:
                val = cell_ite(cell_cmp("eq", v, X[j]), F[j], hi)
            else:
                d = cell_bin("sub", X[j + 1], X[j])
                d = _strong(num(d), _np.dtype(builtins.float)) if isinstance(d, Sym) else _np.float64(d)
                sl = cell_bin("div", cell_bin("sub", F[j + 1], F[j]), d)
                val = cell_bin("add", cell_bin("mul", _strip(sl), cell_bin("sub", v, X[j])), F[j])
            r = cell_ite(cj, val, r)
        if isinstance(r, SymNum):
            nanv = num(v).nan
            nn = core._or(nanv, r.nan)
            return SymNum(name_it(v, r.real()) if lemmas and nn is None else r.real(), nn, _np.dtype(builtins.float))
        return r
    lemmas = n >= 3 and builtins.any(isinstance(q, Sym) for q in X) and builtins.any(
        isinstance(q, Sym) for q in F) and left is None and right is None
    seen = []

    def name_it(v, t):
        """name the value; consequences of interpolating through ordered points (monotone, between its neighbours)"""
        ctx = core.CTX
        r = ctx.fresh_real("interp")
        ctx.assume(r == t)
        tx, tf, tv = [num(q).real() for q in X], [num(q).real() for q in F], num(v).real()
        fs = z3.And(*[tf[j] <= tf[j + 1] for j in range(n - 1)])
        xs_ = z3.And(*[tx[j] <= tx[j + 1] for j in range(n - 1)])
        ctx.assume(z3.Implies(z3.And(fs, xs_), z3.And(tf[0] <= r, r <= tf[n - 1], *[
            z3.And(z3.Implies(tv >= tx[j], r >= tf[j]), z3.Implies(tv < tx[j], r <= tf[j])) for j in range(n)])))
        for w, q in seen[-6:]:
            ctx.assume(z3.Implies(z3.And(fs, xs_), z3.And(z3.Implies(tv <= w, r <= q), z3.Implies(tv >= w, r >= q))))
        seen.append((tv, r))
        return r
    out = SymArray(xs._shape, f=memo(lambda i: one(g(i))), dt=_np.dtype(builtins.float))
    return out if out.ndim else out.get(())


def _interp_symbolic(xs, xp, fp, n, left, right):
    """np.interp over any number of points: the bracketing pair found by bisection (it exists whenever v is at or above the
    first and below the last point, sorted or not)"""
    ctx = core.CTX
    if not same_dim(n, fp._shape[0]):
        raise ValueError("fp and xp are not of the same length.")
    nt = dterm(n)
    if ctx.branch(nt == 0):
        raise ValueError("array of sample points is empty")
    xg, xpg, fpg = xs.getter(), xp.getter(), fp.getter()
    rv = lambda g, k: num(cell_astype(g((mki(k),)), builtins.float)).real()
    seen = []

    def one(v):
        tv = num(v).real()
        X0, XL, F0, FL = rv(xpg, z3.IntVal(0)), rv(xpg, nt - 1), rv(fpg, z3.IntVal(0)), rv(fpg, nt - 1)
        j = ctx.fresh_int("seg")
        r = ctx.fresh_real("interp")
        inside = z3.And(tv >= X0, tv < XL)
        ctx.add_index((j,))
        ctx.add_index((j + 1,))
        xj, xk, fj, fk = rv(xpg, j), rv(xpg, j + 1), rv(fpg, j), rv(fpg, j + 1)
        lo = F0 if left is None else num(left).real()
        hi = FL if right is None else num(right).real()
        ctx.assume(z3.And(j >= 0, j <= nt - 1, z3.Implies(nt >= 2, j <= nt - 2)))
        ctx.assume(z3.Implies(inside, z3.And(xj <= tv, tv < xk)))
        ctx.assume(z3.Implies(tv < X0, r == lo))
        ctx.assume(z3.Implies(tv > XL, r == hi))
        ctx.assume(z3.Implies(tv == XL, r == FL))
        ctx.assume(z3.Implies(inside, z3.And(r == fj + (fk - fj) / (xk - xj) * (tv - xj), z3.Implies(tv == xj, r == fj),
                                             z3.Implies(fj <= fk, z3.And(fj <= r, r <= fk)),
                                             z3.Implies(fj >= fk, z3.And(fj >= r, r >= fk)))))
        # two points in the same segment are ordered as the segment's ends are
        for w, q, j2 in seen[-6:]:
            ctx.add_index((j, j2))
            ctx.add_index((j + 1, j2))
            ctx.add_index((j2 + 1, j))
            same = z3.And(j == j2, inside, w >= X0, w < XL)
            ctx.assume(z3.Implies(z3.And(same, fj <= fk), z3.And(z3.Implies(tv <= w, r <= q), z3.Implies(w <= tv, q <= r))))
        seen.append((tv, r, j))
        return SymNum(r, num(v).nan, _np.dtype(builtins.float))
    out = SymArray(xs._shape, f=memo(lambda i: one(xg(i))), dt=_np.dtype(builtins.float))
    return out if out.ndim else out.get(())


def searchsorted(a, v, side="left", sorter=None):
    c = allconc(a, v)
    if c is not None:
        return wrap(_np.searchsorted(*c, side=side))
    a = asarr(a)
    vs = asarr(v)
    n = a._shape[0]
    g, vg = a.getter(), vs.getter()
    op = "lt" if side == "left" else "le"

    def f(i):
        x = vg(i)
        xnan = core.cell_isnan(x)
        if isinstance(n, builtins.int):
            r = 0
            for k in range(n):
                r = r + num(cell_cmp(op, g((k,)), x))
            if xnan is True:
                return n
            return r if xnan is False else cell_ite(xnan, n, r)     # NaN sorts after every number
        ctx = core.CTX
        p = ctx.fresh_int("ss")
        ctx.assume(z3.And(p >= 0, p <= dterm(n)))

        def uni(red):
            k = iterm(it(red[0]))
            return mkb(bterm(core.cell_or(xnan, cell_cmp(op, g((red[0],)), x))) == (k < p))
        # numpy's contract for sorted input
        ctx.add_universal((n,), uni)
        ctx.add_index((p,))
        ctx.add_index((p - 1,))
        return SymNum(p, None, _np.dtype(builtins.int))
    out = SymArray(vs._shape, f=memo(f), dt=_np.dtype(builtins.int))
    return out if out.ndim else out.get(())


def digitize(x, bins, right=False):
    b = asarr(bins)
    c = allconc(x, bins)
    if c is not None:
        return wrap(_np.digitize(*c, right=right))
    # increasing bins assumed
    return searchsorted(b, x, side="left" if right else "right")


def _quantile_cells(cells, q):
    """linear-interpolation quantile of a list of cells; q concrete or symbolic fraction"""
    s = _sortnet(cells)
    n = len(s)
    if isinstance(q, Sym):
        pos = cell_bin("mul", q, n - 1)
        k = num(cell_fn("floor", num(pos)))
        r = s[n - 1]
        for j in range(n - 2, -1, -1):
            fr = cell_bin("sub", pos, j)
            v = cell_bin("add", s[j], cell_bin("mul", fr, cell_bin("sub", s[j + 1], s[j])))
            r = cell_ite(cell_cmp("lt", pos, j + 1), v, r)
        return r
    pos = core.frac(q) * (n - 1)
    j = math.floor(pos)
    if j >= n - 1:
        return s[n - 1]
    fr = pos - j
    if fr == 0:
        return s[j]
    return cell_bin("add", s[j], cell_bin("mul", fr, cell_bin("sub", s[j + 1], s[j])))


def percentile(a, q, axis=None, out=None, overwrite_input=False, interpolation="linear", method=None, keepdims=False,
               **k):
    c = allconc(a, q)
    if c is not None:
        return _store(out, wrap(_np.percentile(c[0], c[1], axis=axis)))
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    qs = asarr(q)
    sh = a._shape[:axis] + a._shape[axis + 1:]
    qg = qs.getter()
    nq = qs.ndim
    rows = memo(lambda rest: _axis_cells(a, axis, rest))

    def qv(c_):
        return cell_bin("div", c_, 100.0) if isinstance(c_, Sym) else core.frac(c_) / 100

    def f(i):
        return _quantile_cells(rows(i[nq:]), qv(qg(i[:nq])))
    r = SymArray(qs._shape + sh, f=memo(f), dt=_np.dtype(builtins.float) if a.dt.kind != "f" else a.dt)
    return _fin(r, (axis,), False, a, out)


def quantile(a, q, axis=None, **k):
    return percentile(a, asarr(q) * 100, axis=axis)


def median(a, axis=None, **k):
    return percentile(a, 50, axis=axis)


def nanpercentile(a, q, axis=None, **k):
    return lift(_np.nanpercentile, "nanpercentile")(a, q, axis=axis, **k)


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    c = allconc(a)
    if c is not None:
        return wrap(_np.unique(c[0], return_index=return_index, return_inverse=return_inverse,
                               return_counts=return_counts, axis=axis))
    if return_index or return_inverse or return_counts or axis is not None:
        raise Unsupported("np.unique of symbolic data")
    a = asarr(a).ravel()
    n = a._shape[0]
    if not isinstance(n, builtins.int) or n > 8:
        raise Unsupported("np.unique of symbolic data")
    cells = _sortnet([a.get((k,)) for k in range(n)])
    out = cells[:1]
    for c_ in cells[1:]:
        if cell_cmp("ne", c_, out[-1]):
            out.append(c_)
    return from_cells(out, a.dt)


def isin(a, test, invert=False, **k):
    a = asarr(a)
    if isinstance(test, (builtins.int, builtins.float)):
        test = [test]
    t = asarr(list(test) if isinstance(test, (set, range)) else test)
    c = allconc(a, t)
    if c is not None:
        return wrap(_np.isin(*c, invert=invert))
    t = t.ravel()
    n = t._shape[0]
    g, tg = a.getter(), t.getter()

    def f(i):
        x = g(i)
        r = _exists([n], lambda red: cell_cmp2("eq", x, tg(red)), i)
        return cell_not(r) if invert else r
    return SymArray(a._shape, f=memo(f), dt=builtins.bool)


in1d = isin


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    c = allconc(a, b)
    if c is not None:
        return wrap(_np.isclose(*c, rtol=rtol, atol=atol, equal_nan=equal_nan))

    def lit(x):
        return x
    d = absolute(elementwise2("sub", a, b))
    lim = elementwise2("add", atol, elementwise2("mul", rtol, absolute(asarr(b) if not isinstance(b, Sym) else b)))
    r = elementwise2("le", d, lim)
    if equal_nan:
        r = logical_or(r, logical_and(isnan(a), isnan(b)))
    return r


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    return all_(r) if isinstance(r, (SymArray, SymSel)) else r


def array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not same_dim(x, y):
            return False
    r = elementwise2("eq", a, b)
    return all_(r) if isinstance(r, SymArray) else r


def isscalar(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, (SymArray, SymSel)):
        return False
    return _np.isscalar(x)


def isneginf(a):
    return isinf(a)


def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise2("mul", a, b)
    if b.ndim == 1:
        return sum_(a * b, axis=-1)
    # (..., n) . (..., n, m)
    n = a._shape[-1]
    if not same_dim(n, b._shape[-2]):
        raise ValueError("shapes not aligned")
    ag, bg = a.getter(), b.getter()
    if b.ndim != 2 or a.ndim > 2:
        raise Unsupported("dot of high rank")
    sh = a._shape[:-1] + (b._shape[1],)
    big = SymArray(sh + (n,), f=memo(lambda i: cell_bin("mul", ag(i[:-2] + (i[-1],)), bg((i[-1], i[-2])))),
                   dt=_np.promote_types(a.dt, b.dt))
    return sum_(big, axis=-1)


matmul = dot


def einsum(*a, **k):
    raise Unsupported("einsum")


def outer(a, b):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    return a.reshape(a._shape + (1,)) * b


def apply_along_axis(fn, axis, a, *args, **kw):
    a = asarr(a)
    axis %= a.ndim
    others = [k for k in range(a.ndim) if k != axis]
    if not builtins.all(isinstance(a._shape[k], builtins.int) for k in others):
        raise Unsupported("apply_along_axis over symbolic axes")
    res = {}
    for idx in itertools.product(*[range(a._shape[k]) for k in others]):
        key = list(idx)
        key.insert(axis, slice(None))
        res[idx] = asarr(fn(a[tuple(key)], *args, **kw))
    osh = tuple(a._shape[k] for k in others)
    inner = next(iter(res.values()))._shape
    gs = {k: v.getter() for k, v in res.items()}
    pre = axis

    def f(i):
        o = i[:pre] + i[pre + len(inner):]
        return gs[tuple(builtins.int(x) for x in o)](i[pre:pre + len(inner)])
    return SymArray(osh[:pre] + inner + osh[pre:], f=memo(f), dt=next(iter(res.values())).dt)


def vectorize(fn, otypes=None, **kw):
    def g(*xs):
        xs = [asarr(x) for x in xs]
        sh = bshape(*[x._shape for x in xs])
        gs = [x.getter() for x in xs]
        dt = norm_dtype(otypes[0]) if otypes else None
        if builtins.all(x.real_ is not None for x in xs):
            return wrap(_np.vectorize(fn, otypes=[dt] if dt is not None else None)(*[x.real_ for x in xs]))
        return SymArray(sh, f=memo(lambda i: fn(*[q(bget(x, i, sh)) for q, x in zip(gs, xs)])),
                        dt=dt or _np.dtype(builtins.float))
    return g


def unravel_index(i, shape):
    c = allconc(i, shape)
    if c is not None:
        return wrap(_np.unravel_index(*c))
    if isinstance(i, SymArray) and i.ndim:
        raise Unsupported("unravel_index")
    return tuple(mki(iterm(x)) for x in arr._unflat(iterm(num(i).t), _cshape(shape)))


def bincount(x, weights=None, minlength=0):
    return lift(_np.bincount, "bincount")(x, weights=weights, minlength=minlength)


def issubdtype(a, b):
    a = norm_dtype(a) if not (isinstance(a, type) and hasattr(a, "_real")) else a._real
    b = getattr(b, "_real", b)
    return _np.issubdtype(a, b)


def result_type(*a):
    return _np.result_type(*[x.dt if isinstance(x, SymArray) else getattr(x, "_real_dtype", x) for x in a])


def can_cast(a, b, *r):
    return _np.can_cast(a.dt if isinstance(a, SymArray) else getattr(a, "_real_dtype", a), getattr(b, "_real_dtype", b), *r)


def promote_types(a, b):
    return _np.promote_types(norm_dtype(a), norm_dtype(b))


def finfo(d):
    return _np.finfo(norm_dtype(d))


def iinfo(d):
    return _np.iinfo(norm_dtype(d))


def copyto(dst, src, where=True, **k):
    if where is True:
        dst[...] = src
    else:
        s = broadcast_to(asarr(src), dst._shape) if not isinstance(src, Sym) else src
        dst[...] = _where3(where, s, dst)


def fill_diagonal(a, v):
    raise Unsupported("fill_diagonal")


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def seterr(**k):
    return {}


def set_printoptions(**k):
    pass


def array2string(a, **k):
    return str(a)


def triu_indices(*a, **k):
    return tuple(asarr(x) for x in _np.triu_indices(*a, **k))


def shares_memory(a, b):
    return a.root() is b.root()


may_share_memory = shares_memory


class _Lib(types.SimpleNamespace):
    pass


def _as_strided(x, shape=None, strides=None, writeable=True, **k):
    """windows: strides must be those of x repeated per window axis"""
    from .arr import _Strides
    if not isinstance(strides, _Strides):
        c = allconc(x)
        raise Unsupported("as_strided")
    shape = tuple(dim(n) for n in shape)
    axes = strides.axes
    nd = x.ndim

    def imap(idx):
        out = [None] * nd
        for i, a in zip(idx, axes):
            out[a] = i if out[a] is None else (it(out[a]) + it(i))
        res = []
        for v in out:
            if isinstance(v, z3.ArithRef):
                v = z3.simplify(v)
                v = builtins.int(zval(v)) if zval(v) is not None else v
            res.append(0 if v is None else v)
        return tuple(res)
    return SymArray(shape, dt=x.dt, base=x, imap=imap)


def _sliding_window_view(x, window_shape, axis=None, **k):
    x = asarr(x)
    ws = window_shape if isinstance(window_shape, (tuple, list)) else (window_shape,)
    nd, k_ = x.ndim, len(ws)
    axs = tuple(range(nd)) if axis is None else ((axis,) if isinstance(axis, builtins.int) else tuple(axis))
    axs = tuple(a % nd for a in axs)
    sh = list(x._shape)
    for a, w in zip(axs, ws):
        sh[a] = dim(sh[a] - w + 1)
    from .arr import _Strides
    return _as_strided(x, tuple(sh) + tuple(ws), _Strides(x, tuple(range(nd)) + axs))


lib = _Lib(index_tricks=_Lib(ndindex=ndindex), stride_tricks=_Lib(as_strided=_as_strided, sliding_window_view=_sliding_window_view,
                              broadcast_to=_broadcast_to))


class _Missing:
    def __init__(self, name):
        self._n = name

    def __getattr__(self, k):
        real = getattr(_np, self._n)
        if k.startswith("__"):
            raise AttributeError(k)
        return lift(getattr(real, k), self._n + "." + k) if callable(getattr(real, k)) and not isinstance(
            getattr(real, k), type) else getattr(real, k)


linalg = _Missing("linalg")
class RandomState(object):
    """nothing is known of a random value but its range"""

    def __init__(self, seed=None):
        if seed is not None and not isinstance(seed, (builtins.int, _np.integer, SymNum)):
            raise TypeError("Cannot cast to a seed")

    def rand(self, *shape):
        return self.uniform(0.0, 1.0, shape)

    random_sample = lambda self, size=None: self.uniform(0.0, 1.0, size)
    random = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        from .scipy_contracts import fresh_array
        if size is None:
            size = ()
        size = tuple(size) if isinstance(size, (tuple, list)) else (size,)
        return fresh_array("rand", size, "float64", lambda v, i: [v >= low, v <= high])


class _Random(object):
    RandomState = RandomState

    def __getattr__(self, n):
        if hasattr(RandomState, n):
            return getattr(RandomState(), n)
        raise Unsupported("np.random." + n)


random = _Random()
testing = _Missing("testing")
char = _Missing("char")


# ---------------------------------------------------------------- numpy.ma
class _MaMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymArray):
            return x.isma and not getattr(x, "_plain", False)
        if isinstance(x, SymSel):
            return x.inner.isma
        return x is masked or isinstance(x, _np.ma.MaskedArray)

    def __call__(cls, data, mask=None, dtype=None, copy=False, fill_value=None, **k):
        return masked_array(data, mask, dtype, copy, fill_value)


class MaskedArray(metaclass=_MaMeta):
    @staticmethod
    def filled(a, v=None):
        return asarr(a).filled(v)


_np_bool_false = _np.bool_(False)


def _is_nomask(m):
    return m is None or m is _np.ma.nomask or (isinstance(m, _np.bool_) and not m)


def masked_array(data, mask=None, dtype=None, copy=False, fill_value=None, **k):
    if isinstance(data, (list, tuple)) and _is_nomask(mask) and data and \
            builtins.all(isinstance(x, SymArray) and x.ndim for x in data) and builtins.any(x.isma for x in data):
        # the masks of the members of a list are kept
        a = stack([x.data if x.isma else x for x in data])
        return masked_array(a, stack([_ma_getmaskarray(x) for x in data]), dtype, copy, fill_value)
    a = asarr(data)
    out = a.copy()
    if dtype is not None:
        out = out.astype(dtype)
    oldm = a.mgetter() if a.isma and not getattr(a, "_plain", False) else None
    out._isma = True
    out._m = oldm
    out.fill_value = fill_value if fill_value is not None else a.fill_value
    if _is_nomask(mask) and not isinstance(mask, builtins.bool):
        if oldm is None:
            out._nomask = True
        return out
    if isinstance(mask, (builtins.bool, SymBool)):
        mv = full(out._shape, mask, builtins.bool)
    else:
        mv = asarr(mask)
        if mv.ndim != out.ndim or not builtins.all(same_dim(x, y) for x, y in zip(mv._shape, out._shape)):
            if isinstance(mv.size, builtins.int) and mv.size == 1:
                mv = broadcast_to(mv.reshape(()), out._shape)
            elif isinstance(mv.size, builtins.int) and isinstance(out.size, builtins.int) and mv.size == out.size:
                mv = mv.reshape(out._shape)
            else:
                raise core_ma_error("Mask and data not compatible")
    g = arr._bool_getter(mv)
    out._m = memo(g if oldm is None else (lambda i: cell_or(oldm(i), g(i))))
    out._nomask = False
    return out


def core_ma_error(m):
    return _np.ma.MaskError(m)


def _ma_is_masked(x):
    if x is masked:
        return True
    if isinstance(x, SymSel):
        m = _masked_of(x.inner)
        if m is None:
            return False
        return any_(SymArray(x.inner._shape, f=m, dt=builtins.bool) & x.full_mask())
    if isinstance(x, SymArray):
        m = _masked_of(x)
        if m is None:
            return False
        return any_(SymArray(x._shape, f=m, dt=builtins.bool))
    return builtins.bool(_np.ma.is_masked(x))


def _ma_isMA(x):
    return isinstance(x, MaskedArray)


def _ma_getmaskarray(x):
    if isinstance(x, SymSel):
        return x.like(_ma_getmaskarray(x.inner))
    x = asarr(x)
    m = _masked_of(x)
    if m is None:
        return full(x._shape, False, builtins.bool)
    return SymArray(x._shape, f=m, dt=builtins.bool)


def _ma_getmask(x):
    if isinstance(x, SymSel):
        m = _ma_getmask(x.inner)
        return m if m is _np.ma.nomask else x.like(m)
    x = asarr(x)
    if not x.isma or (x.mgetter() is None and getattr(x.root(), "_nomask", True)):
        return _np.ma.nomask
    return _ma_getmaskarray(x)


def _ma_getdata(x, **k):
    x = asarr(x)
    return x.data if x.isma else x


def _ma_filled(x, v=None):
    if isinstance(x, SymSel):
        return x.filled(v)
    if isinstance(x, SymArray):
        return x.filled(v) if x.isma else x
    if x is masked:
        return v
    return asarr(x).filled(v) if isinstance(x, _np.ma.MaskedArray) else x


def _ma_where_cond(cond, x, copy=True):
    x = asarr(x)
    c = asarr(cond)
    cm = _masked_of(c)
    g = arr._bool_getter(c)
    sh = x._shape
    if c.ndim != x.ndim:
        raise IndexError("Inconsistent shape between the condition and the input")
    return masked_array(x, SymArray(sh, f=(lambda i: g(bget(c, i, sh))) if cm is None else
                                    (lambda i: cell_or(cm(i), g(i))), dt=builtins.bool))


def _ma_masked_invalid(x, **k):
    return _ma_where_cond(isnan(x), x)


def _ma_cmp(op):
    def f(x, v, copy=True):
        x = asarr(x)
        c = elementwise2(op, x.data if x.isma else x, v)
        return _ma_where_cond(c, x)
    return f


def _ma_where(c, x=None, y=None):
    if x is None:
        return nonzero(c)
    xa = None if x is masked else asarr(x)
    ya = None if y is masked else asarr(y)
    ca = asarr(c)
    d = _where3(ca, 0 if xa is None else (xa.data if xa.isma else x), 0 if ya is None else (ya.data if ya.isma else y))
    sh = d._shape
    cg, cm = arr._bool_getter(ca), _masked_of(ca)

    def mk(v, a):
        if v is masked:
            return lambda i: True
        m = _masked_of(a)
        return (lambda i: m(bget(a, i, sh))) if m is not None else (lambda i: False)
    xm, ym = mk(x, xa), mk(y, ya)

    def mf(i):
        j = bget(ca, i, sh)
        r = cell_ite(cg(j), xm(i), ym(i))
        return cell_or(r, cm(j)) if cm is not None else r
    return masked_array(d, SymArray(sh, f=memo(mf), dt=builtins.bool))


def _ma_wrap(fn):
    def g(*a, **k):
        r = fn(*a, **k)
        if isinstance(r, SymArray) and not r.isma:
            r = masked_array(r)
        return r
    return g


def _ma_mask_or(a, b, **k):
    if _is_nomask(a):
        return b
    if _is_nomask(b):
        return a
    return logical_or(a, b)


def _ma_allclose(*a, **k):
    return allclose(*a, **{q: v for q, v in k.items() if q != "masked_equal"})


# keywords a wrapper accepts but does not interpret: only those that cannot change a value
_IGNORABLE = {"subok", "kind", "casting", "writeable", "assume_unique", "overwrite_input", "fill_value", "threshold", "precision",
              "suppress", "mode_", "all", "divide", "over", "under", "invalid", "linewidth", "edgeitems", "signature", "cache",
              "otypes", "doc", "dtype", "copy", "requirements", "like", "optimize"}


def _guard(fn):
    import functools
    import inspect
    sp = inspect.getfullargspec(fn)
    known = set(sp.args) | set(sp.kwonlyargs)

    @functools.wraps(fn)
    def g(*a, **k):
        for q in k:
            if q not in known and q not in _IGNORABLE and not (q == "order" and k[q] in (None, "C", "K", "A")) \
                    and not (q == "mode" and k[q] == "raise") and k[q] is not None and k[q] is not False:
                raise Unsupported("keyword %s of numpy.%s" % (q, fn.__name__))
        return fn(*a, **k)
    return g


for _n in ("logical_not nan_to_num reshape ravel stack concatenate take sum_ count_nonzero prod_ mean nanmean var any_ all_ "
           "ptp sort argsort gradient percentile quantile median isin copyto eye nanvar amin amax nanmin nanmax "
           "average").split():
    globals()[_n] = _guard(globals()[_n])

ma = types.SimpleNamespace(
    MaskedArray=MaskedArray, masked_array=MaskedArray, array=masked_array, is_masked=_ma_is_masked,
    isMaskedArray=_ma_isMA, isMA=_ma_isMA, isarray=_ma_isMA, getmaskarray=_ma_getmaskarray, getmask=_ma_getmask,
    getdata=_ma_getdata, filled=_ma_filled, masked_where=_ma_where_cond, masked_invalid=_ma_masked_invalid,
    masked=masked, nomask=_np.ma.nomask, where=_ma_where, masked_equal=_ma_cmp("eq"),
    masked_less=_ma_cmp("lt"), masked_greater=_ma_cmp("gt"), masked_less_equal=_ma_cmp("le"),
    masked_greater_equal=_ma_cmp("ge"), masked_not_equal=_ma_cmp("ne"), concatenate=_ma_wrap(concatenate),
    stack=_ma_wrap(stack), zeros=_ma_wrap(zeros), ones=_ma_wrap(ones), empty=_ma_wrap(empty),
    masked_all_like=lambda x: masked_array(asarr(x), True),
    masked_all=lambda s, dtype=float64: masked_array(zeros(s, dtype), True),
    mask_or=_ma_mask_or, average=average, mean=mean, sum=sum_, max=amax, min=amin, median=median, sqrt=sqrt,  # noqa
    allclose=_ma_allclose, masked_inside=lambda x, a, b: _ma_where_cond(logical_and(x >= a, x <= b), x),
    masked_outside=lambda x, a, b: _ma_where_cond(logical_or(x < a, x > b), x),
    maximum=maximum, minimum=minimum, multiply=multiply, divide=divide, add=add, subtract=subtract,
    count=lambda x, axis=None: asarr(x).count(axis), asarray=lambda x, **k: _ma_wrap(asanyarray)(x),
    asanyarray=lambda x, **k: _ma_wrap(asanyarray)(x), clip=clip, absolute=absolute, expand_dims=expand_dims,
    MaskError=_np.ma.MaskError, make_mask=lambda x, **k: asarr(x).astype(builtins.bool), exp=exp, log=log,  # noqa
    logical_or=logical_or, logical_and=logical_and, transpose=transpose, core=types.SimpleNamespace(MaskedArray=MaskedArray),
    power=power, round=around, default_fill_value=lambda x: 1e20, compressed=lambda x: asarr(x).compressed(),
    set_fill_value=lambda a, v: setattr(a, "fill_value", v), harden_mask=lambda a: a,
    masked_values=lambda x, v, **k: _ma_where_cond(isclose(asarr(x).data, v), x),
    zeros_like=_ma_wrap(zeros_like), ones_like=_ma_wrap(ones_like), empty_like=_ma_wrap(empty_like),
    any=any_, all=all_, vstack=_ma_wrap(vstack), dstack=_ma_wrap(dstack), diff=diff,
)


def facade():
    """the module object repo code sees as numpy"""
    m = types.ModuleType("numpy")
    g = globals()
    for k, v in g.items():
        if not k.startswith("__") and k not in ("core", "arr", "types", "builtins", "itertools", "math", "sys", "z3"):
            m.__dict__[k] = v
    m.__dict__.update({"sum": sum_, "any": any_, "all": all_, "min": amin, "max": amax, "prod": prod_,
                       "product": prod_, "broadcast_to": _broadcast_to, "full": _full, "alltrue": all_,
                       "abs": absolute, "round": around, "float": builtins.float, "__getattr__": __getattr__,
                       "__version__": "1.20.3"})
    return m


NUMPY = facade()
