"""Loads the real modules of /repo/improver for symbolic execution.

The source text executed is the file in /repo, parsed on every run.  The only rewriting is mechanical: every `for`
statement inside a function is routed through a loop object (so that a loop over a symbolic range can be cut at its
invariant), and builtins / third-party modules are resolved to their symbolic stand-ins.
"""
import ast
import builtins
import collections
import datetime as _datetime
import importlib
import math as _math
import operator as _operator
import os
import sys
import types
from fractions import Fraction

import numpy as _np
import z3

from . import arr, core, npshim
from .arr import SymArray, SymIdx, SymSel, asarr, memo
from .arr import it as arr_it
from .core import Sym, SymBool, SymNum, Unsupported, mkb, num, cell_fn, cell_max, cell_min, bterm, is_conc_num, iterm, mki

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(os.path.dirname(HERE), "stubs")
MODS = {}
CUT = {}          # (module, qualname) -> replacement factory: callee contracts
LOOPS = {}        # qualname -> invariant


# ------------------------------------------------------------------ builtins
class _NumMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, SymNum):
            if cls._k == "int":
                return x.dt is None and x.t.is_int()
            if cls._k == "float":
                return (x.dt is None and not x.t.is_int()) or x.dt == _np.float64
            return False
        if isinstance(x, SymBool):
            return cls._k in ("bool", "int")
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, s):
        return issubclass(getattr(s, "_real", s), cls._real)

    def __call__(cls, x=0, *a):
        if isinstance(x, (SymArray,)):
            x = x._as_scalar()
        if isinstance(x, Sym):
            if cls._k == "bool":
                return bool(x)
            n = num(x)
            if cls._k == "int":
                if n.nan is not None and core.CTX.branch(n.nan):
                    raise ValueError("cannot convert float NaN to integer")
                return mki(core.trunc_t(n.t))
            return SymNum(n.real(), n.nan, None)
        if cls._k == "float" and isinstance(x, Fraction):
            return float(x)
        return cls._real(x, *a)

    def __eq__(cls, o):
        return o is cls or o is cls._real or getattr(o, "_real", None) is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


class int_(metaclass=_NumMeta):
    _k, _real = "int", builtins.int


class float_(metaclass=_NumMeta):
    _k, _real = "float", builtins.float


class bool_(metaclass=_NumMeta):
    _k, _real = "bool", builtins.bool


for _c, _n in ((int_, "int"), (float_, "float"), (bool_, "bool")):
    _c.__name__ = _c.__qualname__ = _n


def _len(x):
    if isinstance(x, (SymArray, SymSel)):
        return x.sym_len()
    if hasattr(x, "sym_len"):
        return x.sym_len()
    return builtins.len(x)


class SymRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def length(self):
        s = self.s
        if isinstance(s, SymNum):
            raise Unsupported("range with a symbolic step")
        a, b = iterm(self.a), iterm(self.b)
        n = (b - a + (s - 1)) / s if s > 0 else (a - b + (-s - 1)) / (-s)
        return z3.simplify(z3.If(n > 0, n, 0))

    def item(self, k):
        return mki(z3.simplify(iterm(self.a) + k * self.s))

    def __iter__(self):
        n = core.CTX.concretize(self.length())
        return iter([self.item(z3.IntVal(i)) for i in builtins.range(n)])

    def sym_len(self):
        return mki(self.length())

    def __reversed__(self):
        n = self.length()
        return SymRange(self.item(n - 1), self.item(z3.IntVal(-1)), -self.s)


def _range(*a):
    if builtins.any(isinstance(x, (Sym, SymArray)) for x in a):
        a = [x._as_scalar() if isinstance(x, SymArray) else x for x in a]
        a = [mki(z3.simplify(iterm(x))) if isinstance(x, Sym) else x for x in a]
        if builtins.any(isinstance(x, Sym) for x in a):
            lo, hi, st = (0, a[0], 1) if builtins.len(a) == 1 else (a[0], a[1], a[2] if builtins.len(a) > 2 else 1)
            return SymRange(lo, hi, st)
    return builtins.range(*[builtins.int(x) if isinstance(x, _np.integer) else x for x in a])


def _reversed(x):
    return x.__reversed__() if isinstance(x, SymRange) else builtins.reversed(x)


def _mx(f, cellf):
    def g(*a, **k):
        key = k.get("key")
        if key is None:
            if builtins.len(a) == 1 and isinstance(a[0], SymArray) and a[0].ndim == 1 and not a[0].isma and isinstance(
                    a[0]._shape[0], Sym):
                return a[0].max() if f is builtins.max else a[0].min()
            items = list(a[0]) if builtins.len(a) == 1 else list(a)
            items = [x._as_scalar() if isinstance(x, SymArray) and x.ndim == 0 else x for x in items]
            if builtins.any(isinstance(x, Sym) for x in items):
                r = items[0]
                for x in items[1:]:
                    r = cellf(r, x)
                return core.CTX.name_int(r) if core.CTX is not None else r
            if not items and "default" in k:
                return k["default"]
            return f(items)
        return f(*a, **k)
    return g


def _abs(x):
    return core.cell_abs(x) if isinstance(x, Sym) else builtins.abs(x)


def _sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _any(it):
    if isinstance(it, (SymArray, SymSel)):
        it = it if it.is_concrete() else [npshim.any_(it)]
    items = list(it)
    if builtins.any(isinstance(x, Sym) for x in items):
        return mkb(z3.Or(*[bterm(x) for x in items]))
    return builtins.any(items)


def _all(it):
    if isinstance(it, (SymArray, SymSel)):
        it = it if it.is_concrete() else [npshim.all_(it)]
    items = list(it)
    if builtins.any(isinstance(x, Sym) for x in items):
        return mkb(z3.And(*[bterm(x) for x in items]))
    return builtins.all(items)


def _round(x, n=None):
    if isinstance(x, SymArray) and x.ndim == 0:
        x = x._as_scalar()
    if isinstance(x, SymNum):
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def _isinstance(x, c):
    return builtins.isinstance(x, c)


def _type(*a):
    if builtins.len(a) == 1:
        x = a[0]
        if isinstance(x, SymNum):
            if x.dt is not None:
                return getattr(npshim, x.dt.name, x.dt.type)
            return int_ if x.t.is_int() else float_
        if isinstance(x, SymBool):
            return bool_
        t = builtins.type(x)
        return {builtins.int: int_, builtins.float: float_, builtins.bool: bool_}.get(t, t)
    return builtins.type(*a)


class _TypeShim(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.type)

    def __call__(cls, *a):
        return _type(*a)


def _print(*a, **k):
    pass


def _noopen(*a, **k):
    raise Unsupported("file access")


# ------------------------------------------------------------------ import
def _facade_math():
    m = types.ModuleType("math")
    m.__dict__.update({k: v for k, v in vars(_math).items() if not k.startswith("__")})

    def w(name, cell=None):
        real = getattr(_math, name)

        def f(x, *a):
            if isinstance(x, SymArray):
                x = x._as_scalar()
            if isinstance(x, Sym):
                r = cell_fn(cell or name, num(x))
                return SymNum(r.t, r.nan, None) if isinstance(r, SymNum) else r
            return real(x, *a)
        return f
    for n in ("sqrt", "exp", "sin", "cos", "tan", "log10", "radians", "degrees"):
        setattr(m, n, w(n))
    m.acos, m.asin, m.atan = w("acos", "arccos"), w("asin", "arcsin"), w("atan", "arctan")

    def toint(name, fn):
        real = getattr(_math, name)

        def f(x):
            if isinstance(x, SymArray):
                x = x._as_scalar()
            return mki(fn(num(x).t)) if isinstance(x, Sym) else real(x)
        return f
    m.floor = toint("floor", lambda t: core.floor_t(t))
    m.ceil = toint("ceil", lambda t: -core.floor_t(-t))
    m.trunc = toint("trunc", core.trunc_t)
    m.log = lambda x, *b: w("log")(x) if not b else w("log")(x) / _math.log(*b)
    m.atan2 = lambda y, x: core.cell_atan2(y, x) if isinstance(y, Sym) or isinstance(x, Sym) else _math.atan2(y, x)
    m.isnan = lambda x: core.cell_isnan(x) if isinstance(x, Sym) else _math.isnan(x)
    m.fabs = _abs
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol) if not (isinstance(a, Sym) or isinstance(b, Sym)) else
        _abs(a - b) <= _mx(max, cell_max)(rel_tol * _mx(max, cell_max)(_abs(a), _abs(b)), abs_tol))
    return m


class _Stub(types.ModuleType):
    """a third-party module with no contract: any use other than as a name is outside the verifier's reach"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        full = self.__name__ + "." + n
        if full in MODS:
            return MODS[full]
        v = _StubAttr(full)
        setattr(self, n, v)
        return v


class _StubMeta(type):
    pass


def _StubAttr(full):
    if full in STUB_ATTRS:
        return STUB_ATTRS[full]
    name = full.rsplit(".", 1)[1]

    def new(cls, *a, **k):
        if cls.__dict__.get("_stub_direct"):
            raise Unsupported("call of %s (no contract)" % full)
        return object.__new__(cls)
    return type(name, (), {"__new__": new, "_stub_direct": True, "__module__": full.rsplit(".", 1)[0]})


STUB_ATTRS = {"netCDF4.default_fillvals": {
    "S1": "\x00", "i1": -127, "u1": 255, "i2": -32767, "u2": 65535, "i4": -2147483647, "u4": 4294967295,
    "i8": -9223372036854775806, "u8": 18446744073709551614, "f4": 9.969209968386869e+36, "f8": 9.969209968386869e+36}}
STUB_MODS = ["scipy", "scipy.ndimage", "scipy.ndimage.morphology", "scipy.ndimage.filters", "scipy.interpolate", "scipy.optimize", "scipy.stats",
             "scipy.spatial", "scipy.spatial.ckdtree", "scipy.spatial.distance", "scipy.special", "scipy.spatial.qhull", "scipy.signal", "scipy.stats._distn_infrastructure", "scipy.special._ufuncs",
             "scipy.stats._continuous_distns",
             "netCDF4", "cartopy", "cartopy.crs", "pandas", "dask", "dask.array", "cftime", "clize", "clize.parameters",
             "stratify", "pysteps", "timezonefinder", "pytz", "statsmodels", "statsmodels.api", "sigtools", "sigtools.wrappers", "sphinx",
             "treelite", "treelite_runtime", "lightgbm", "joblib"]
_REALOK = set("datetime warnings collections collections.abc operator copy sys re os typing functools time pathlib "
              "itertools numbers json hashlib abc bisect string random contextlib enum textwrap inspect uuid types "
              "__future__ dataclasses calendar shlex pprint tempfile shutil stat fractions decimal cProfile pstats "
              "tracemalloc queue multiprocessing threading ast _strptime".split())


def _mini(name):
    """load the mini iris / cf_units modules against the symbolic numpy"""
    cf = _exec_file("cf_units", os.path.join(STUBS, "minicf.py"), loops=False)
    cf._copy_of = lambda v: v.copy() if isinstance(v, SymArray) else v
    cf._linear = _linear
    cf._num2date, cf._date2num = _num2date, _date2num
    MODS["cf_units"] = cf
    ir = _exec_file("_miniris", os.path.join(STUBS, "miniris.py"), loops=False)
    MODS["_miniris"] = ir
    MODS.update(ir.modules())
    # the stand-in Unit must treat symbolic time reference values
    return MODS[name]


def _linear(v, a, b):
    if isinstance(v, (list, tuple)):
        v = asarr(v)
    if isinstance(v, SymSel):
        v = v.materialise()
    if isinstance(v, SymArray):
        dt = v.dtype if v.dtype.kind == "f" else _np.dtype(float)
        if v.is_concrete() and not v.isma:
            x = v.conc()
            r = _np.array([_lin1(q, a, b, dt) for q in x.flatten().tolist()], dtype=dt).reshape(x.shape)
            return asarr(r)
        g = v.getter()
        out = SymArray(v.shape, lambda idx: _lin1(g(idx), a, b, dt), dt)
        if v.isma:
            out._m, out._isma = v.mgetter(), True
            out.fill_value = v.fill_value
        return npshim._fix_ma(out, v) if hasattr(npshim, "_fix_ma") else out
    return _lin1(v, a, b, None)


def _lin1(c, a, b, dt):
    if not isinstance(c, Sym):
        if core.is_special(c):
            return c
        r = float(core.frac(c) * a + b)
        return dt.type(r) if dt is not None else r
    n = num(c)
    t = n.real()
    if a != 1:
        t = t * core.realval(a)
    if b != 0:
        t = t + core.realval(b)
    return SymNum(t, n.nan, dt)


def _num2date(u, v):
    if isinstance(v, SymArray):
        if v.ndim == 0:
            return _num2date(u, v._as_scalar())
        if v.is_concrete():
            r = _np.array([_num2date(u, x.item()) for x in v.conc().flatten()], dtype=object).reshape(v.conc().shape)
            return asarr(r)
        if not all(isinstance(n, int) for n in v._shape):
            raise Unsupported("num2date over a symbolic size")
        r = _np.empty(v._shape, dtype=object)
        for i in _np.ndindex(*v._shape):
            r[i] = _num2date(u, v[i] if v.ndim else v._as_scalar())
        return asarr(r)
    if isinstance(v, Sym):
        from . import symdate
        return symdate.SymDate(u._epoch, num(v).real() * core.realval(u._f))
    sec = core.frac(v) * u._f
    return u._epoch + _datetime.timedelta(microseconds=int(round(sec * 1000000)))


def _date2num(u, d):
    if isinstance(d, (list, tuple, SymArray)):
        return asarr([_date2num(u, x) for x in d])
    from . import symdate
    if isinstance(d, symdate.SymDate):
        return d.seconds_since(u._epoch) / u._f
    d = d.replace(tzinfo=None)
    s = d - u._epoch
    us = s.days * 86400 * 10**6 + s.seconds * 10**6 + s.microseconds
    f = Fraction(us, 10**6) / u._f
    return float(f) if f.denominator != 1 else (float(int(f)))


def get_module(name):
    if name in MODS:
        return MODS[name]
    if name == "numpy" or name.startswith("numpy."):
        np = npshim.NUMPY
        if name == "numpy":
            MODS[name] = np
            return np
        if name in ("numpy.ma", "numpy.ma.core"):
            MODS[name] = np.ma
            return np.ma
        obj = np
        for p in name.split(".")[1:]:
            obj = getattr(obj, p)
        return obj
    if name == "math":
        MODS[name] = _facade_math()
        return MODS[name]
    if name == "iris" or name.startswith("iris.") or name == "cf_units":
        if "cf_units" not in MODS:
            _mini("cf_units")
        if name not in MODS:
            raise Unsupported("module " + name)
        return MODS[name]
    if name == "datetime":
        from . import symdate
        MODS[name] = symdate.module()
        return MODS[name]
    if name == "functools":
        import functools as ft
        m = types.ModuleType("functools")
        m.__dict__.update({k: v for k, v in vars(ft).items() if not k.startswith("__")})

        def lru_cache(*a, **k):
            def wrap(f):
                real = ft.lru_cache(**k)(f) if not (a and callable(a[0])) else ft.lru_cache(f)

                @ft.wraps(f)
                def cached(*x, **y):
                    # symbolic arguments have no hash to look up: they are computed afresh
                    if any(type(v).__module__.startswith("pyvc") for v in x + tuple(y.values())):
                        return f(*x, **y)
                    return real(*x, **y)
                cached.cache_clear, cached.cache_info = real.cache_clear, real.cache_info
                return cached
            if a and not callable(a[0]):
                k = dict(k, maxsize=a[0])
            return wrap(a[0]) if a and callable(a[0]) else wrap
        m.lru_cache = lru_cache
        MODS[name] = m
        return m
    if name == "improver" or name.startswith("improver."):
        return _load_repo(name)
    if name == "numba" or name.startswith("numba."):
        raise ModuleNotFoundError("No module named 'numba'")
    if name == "pkg_resources":
        m = types.ModuleType(name)

        class DistributionNotFound(Exception):
            pass

        def get_distribution(n):
            raise DistributionNotFound(n)
        m.DistributionNotFound, m.get_distribution = DistributionNotFound, get_distribution
        MODS[name] = m
        return m
    if name in STUB_MODS:
        m = _Stub(name)
        m.__path__ = []
        MODS[name] = m
        if "." in name:
            setattr(get_module(name.rsplit(".", 1)[0]), name.rsplit(".", 1)[1], m)
        from . import scipy_contracts
        scipy_contracts.install(name, m)
        if name == "scipy":
            for n in STUB_MODS:
                if n.startswith("scipy."):
                    get_module(n)       # iris imports the submodules in use
        return m
    if name.split(".")[0] in _REALOK:
        return importlib.import_module(name)
    raise ModuleNotFoundError("No module named %r (symbolic mode)" % name)


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals["__package__"].split(".")
        base = pkg[:len(pkg) - (level - 1)]
        name = ".".join(base + ([name] if name else []))
    m = get_module(name)
    if fromlist:
        for f in fromlist:
            if f != "*" and (not hasattr(m, f) if not isinstance(m, _Stub) else f not in m.__dict__ and name + "." + f in STUB_MODS):
                try:
                    sub = get_module(name + "." + f)
                except ModuleNotFoundError:
                    continue
                setattr(m, f, sub)
        return m
    if "." in name:
        top = name.split(".")[0]
        t = get_module(top)
        cur, path = t, top
        for p in name.split(".")[1:]:
            path += "." + p
            nxt = get_module(path)
            if not hasattr(cur, p):
                setattr(cur, p, nxt)
            cur = nxt
        return t
    return m


def _path(name):
    p = os.path.join(REPO, *name.split("."))
    if os.path.isdir(p):
        return os.path.join(p, "__init__.py"), True
    if os.path.exists(p + ".py"):
        return p + ".py", False
    raise ModuleNotFoundError("No module named %r" % name)


def _load_repo(name):
    path, pkg = _path(name)
    if "." in name:
        parent = get_module(name.rsplit(".", 1)[0])
    m = _exec_file(name, path, loops=True, package=name if pkg else name.rsplit(".", 1)[0], ispkg=pkg)
    if "." in name:
        setattr(parent, name.rsplit(".", 1)[1], m)
    return m


def make_builtins():
    b = dict(vars(builtins))
    b.update({"int": int_, "float": float_, "bool": bool_, "len": _len, "range": _range, "max": _mx(max, cell_max),
              "min": _mx(min, cell_min), "abs": _abs, "sum": _sum, "any": _any, "all": _all, "round": _round,
              "__import__": _import, "reversed": _reversed, "type": _TypeShim("type", (), {}), "print": _print,
              "open": _noopen, "__vc_loop__": _loop, "__vc_comp__": _comp, "__vc_append__": _append_loop, "zip": _zip,
              "enumerate": _enumerate})
    return b


class SymZip:
    """zip / enumerate over at least one sequence of symbolic length"""

    def __init__(self, its, n):
        self.its, self.n = its, n

    def length(self):
        return self.n

    def item(self, k):
        return tuple(f(k) for f in self.its)

    def sym_len(self):
        return mki(self.n)

    def __iter__(self):
        n = core.CTX.concretize(self.n)
        return iter([self.item(z3.IntVal(i)) for i in builtins.range(n)])


def _seq(x):
    """(length term, item function) of a sequence of symbolic length, else None"""
    if isinstance(x, (SymRange, SymZip)):
        return x.length(), x.item
    if isinstance(x, SymArray) and x.ndim >= 1:
        n = x.sym_len()
        if isinstance(n, SymNum) and core.CTX.known_const(n.t) is None:
            return n.t, lambda k: x[mki(k)]
    return None


def _zip(*a):
    sq = [_seq(x) for x in a]
    if not builtins.any(s is not None for s in sq):
        return builtins.zip(*a)
    if not builtins.all(s is not None for s in sq):
        return builtins.zip(*a)        # bounded by a concrete sequence (symbolic ones are concretised)
    n = sq[0][0]
    for m, _ in sq[1:]:
        n = n if core.CTX.entails(n <= m) else (m if core.CTX.entails(m <= n) else z3.If(n <= m, n, m))
    return SymZip([f for _, f in sq], z3.simplify(n))


def _enumerate(x, start=0):
    s = _seq(x)
    if s is None:
        return builtins.enumerate(x, start)
    return SymZip([lambda k: mki(z3.simplify(k + iterm(start))), s[1]], s[0])


def _frozen(fn):
    """fn with the values its free variables (arrays included) have now; and the arrays it may not see change"""
    import types
    cells = []
    for c in fn.__closure__ or ():
        v = c.cell_contents
        if isinstance(v, SymArray):
            v = v.copy()
        cells.append(types.CellType(v))
    ctx = core.CTX
    old = {builtins.id(r) for r in ctx.roots}
    mark = builtins.len(ctx.writes)
    g = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, fn.__defaults__, tuple(cells))

    def call(*a):
        if builtins.any(builtins.id(r) in old for r in ctx.writes[mark:]):
            raise Unsupported("arrays changed after a comprehension over them")
        return g(*a)
    return call


def _ndcomp(it, elt):
    """[elt(index) for index in ndindex(shape)]: the flattened array of the values"""
    e = _frozen(elt)
    r = e(core.CTX.contract.skolem(it.shape) or (0,) * builtins.len(it.shape))
    if isinstance(r, SymArray) and r.ndim == 0:
        r = r._as_scalar()
    if isinstance(r, arr._Masked):
        r = _np.float32(0)
    if not isinstance(r, (SymNum, SymBool)) and not core.is_conc_num(r):
        raise Unsupported("comprehension over an index box of " + type(r).__name__)
    dt = _np.dtype(builtins.bool) if isinstance(r, SymBool) else getattr(r, "dt", None) or _np.dtype(
        builtins.float if not isinstance(r, SymNum) or not r.t.is_int() else builtins.int)

    def f(i):
        v = e(tuple(mki(iterm(arr_it(k))) for k in i))
        v = v._as_scalar() if isinstance(v, SymArray) else v
        if isinstance(v, arr._Masked):
            return _np.float64("nan")          # what np.array makes of a masked element
        return v
    n = 1
    for d in it.shape:
        n = n * d
    return SymArray(tuple(it.shape), f=memo(f), dt=dt).reshape(n)


def _comp(it, elt):
    """[elt(x) for x in it]; over a sequence of symbolic length, an array given cell by cell"""
    if isinstance(it, npshim.SymNdIndex):
        return _ndcomp(it, elt)
    s = _seq(it)
    if s is None:
        return [elt(x) for x in it]
    n, item = s
    ctx = core.CTX
    v = core.known_small(n)
    if v is not None:
        return [elt(item(z3.IntVal(i))) for i in builtins.range(v)]
    k = ctx.fresh_int("kc")
    before = (dict(ctx.n), len(ctx.pc), len(ctx.writes))
    ctx.in_spec += 1
    try:
        r = elt(item(k))
    finally:
        ctx.in_spec -= 1
    if isinstance(r, SymArray) and r.ndim == 0:
        r = r._as_scalar()
    if before != (dict(ctx.n), len(ctx.pc), len(ctx.writes)):
        raise Unsupported("comprehension over a symbolic range with effects")
    if isinstance(r, SymNum):
        dt = r.dt or _np.dtype(builtins.int if r.t.is_int() else builtins.float)
        return SymArray((mki(n),), f=memo(lambda i: SymNum(
            z3.simplify(z3.substitute(r.t, (k, iterm(arr_it(i[0]))))),
            None if r.nan is None else z3.substitute(r.nan, (k, iterm(arr_it(i[0])))), r.dt)), dt=dt)
    if isinstance(r, SymBool):
        return SymArray((mki(n),), f=memo(lambda i: mkb(z3.substitute(r.t, (k, iterm(arr_it(i[0])))))), dt=builtins.bool)
    if core.is_conc_num(r) or isinstance(r, builtins.bool):
        return SymArray((mki(n),), f=lambda i: r, dt=_np.asarray(r).dtype)
    raise Unsupported("comprehension over a symbolic range of " + type(r).__name__)


def _append_loop(lst, it, elt):
    """for x in it: lst.append(elt(x))"""
    if _seq(it) is None:
        for x in it:
            lst.append(elt(x))
        return lst
    r = _comp(it, elt)
    if isinstance(r, list):
        lst.extend(r)
        return lst
    if lst:
        raise Unsupported("symbolic number of items appended to a list")
    return r


def _loop(it, key):
    from . import loops
    return loops.enter(it, key)


def _exec_file(name, path, loops, package=None, ispkg=False):
    with open(path) as f:
        src = f.read()
    tree = ast.parse(src, path)
    if loops:
        tree = _Instr(name).visit(tree)
        ast.fix_missing_locations(tree)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = package or ""
    if ispkg:
        m.__path__ = [os.path.dirname(path)]
    m.__dict__["__builtins__"] = make_builtins()
    MODS[name] = m
    sys.modules.setdefault("__vc__" + name, m)
    try:
        exec(compile(tree, path, "exec"), m.__dict__)
    except BaseException:
        MODS.pop(name, None)
        raise
    return m


# ------------------------------------------------------------------ loop instrumentation
class _Names(ast.NodeVisitor):
    def __init__(self):
        self.n = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.n:
            self.n.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.n:
            self.n.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


class _Instr(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.stack = []
        self.infn = 0
        self.k = []
        self.names = []

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.infn += 1
        self.k.append(0)
        v = _Names()
        for x in n.body:
            v.visit(x)
        a = n.args
        self.names.append(set(v.n) | {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs})
        self.generic_visit(n)
        self.names.pop()
        self.k.pop()
        self.infn -= 1
        self.stack.pop()
        return n

    def _lam(self, target, elt):
        """lambda t: elt with target bound to t"""
        inner = ast.ListComp(elt, [ast.comprehension(target, ast.Tuple([ast.Name("__vt", ast.Load())], ast.Load()), [], 0)])
        return ast.Lambda(ast.arguments([], [ast.arg("__vt")], None, [], [], None, []),
                          ast.Subscript(inner, ast.Constant(0), ast.Load()))

    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators
        bad = any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n))
        if not self.infn or len(g) != 1 or g[0].ifs or g[0].is_async or bad or \
                any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals")
                    for x in ast.walk(n)):
            return n
        return ast.Call(ast.Name("__vc_comp__", ast.Load()), [g[0].iter, self._lam(g[0].target, n.elt)], [])

    def visit_For(self, n):
        if not self.infn:
            self.generic_visit(n)
            return n
        b = n.body[0]
        if len(n.body) == 1 and not n.orelse and isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and \
                isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append" and \
                isinstance(b.value.func.value, ast.Name) and b.value.func.value.id in self.names[-1] and len(b.value.args) == 1 and not b.value.keywords and \
                not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(b)) and \
                not any(isinstance(x, ast.Name) and x.id in ("super", "locals", b.value.func.value.id)
                        for x in ast.walk(b.value.args[0])):
            self.generic_visit(n)
            lst = b.value.func.value.id
            return ast.Assign([ast.Name(lst, ast.Store())], ast.Call(ast.Name("__vc_append__", ast.Load()), [
                ast.Name(lst, ast.Load()), n.iter, self._lam(n.target, n.body[0].value.args[0])], []))
        self.k[-1] += 1
        key = "%s:%s#%d" % (self.mod, ".".join(self.stack), self.k[-1])
        self.generic_visit(n)
        v = _Names()
        for s in n.body:
            v.visit(s)
        v.visit(n.target)
        nl = any(isinstance(x, (ast.Nonlocal, ast.Global)) for s in n.body for x in ast.walk(s))
        names = [] if nl else v.n
        lname = "__vl_%s_%d" % (len(self.stack), self.k[-1])
        tnames = _Names()
        tnames.visit(n.target)
        bodynames = [x for x in names if x not in tnames.n]
        setup = ast.Assign([ast.Name(lname, ast.Store())],
                           ast.Call(ast.Name("__vc_loop__", ast.Load()), [n.iter, ast.Constant(key)], []))

        def havoc(meth, nm):
            if not nm:
                body = ast.Expr(ast.Call(ast.Attribute(ast.Name(lname, ast.Load()), meth, ast.Load()),
                                         [ast.Constant(()), ast.Call(ast.Name("locals", ast.Load()), [], [])], []))
            else:
                body = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in nm], ast.Store())],
                                  ast.Call(ast.Attribute(ast.Name(lname, ast.Load()), meth, ast.Load()),
                                           [ast.Constant(tuple(nm)), ast.Call(ast.Name("locals", ast.Load()), [], [])],
                                           []))
            return ast.If(ast.Attribute(ast.Name(lname, ast.Load()), "active", ast.Load()), [body], [])
        n.iter = ast.Name(lname, ast.Load())
        n.body = [havoc("head", bodynames)] + n.body
        return [setup, n, havoc("exit", names)]
