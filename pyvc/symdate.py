"""Symbolic dates and durations: exact seconds as real terms, UTC, no calendar fields other than time-of-day."""
import datetime as _dt
import types

import z3

from . import core
from .core import Sym, SymNum, Unsupported, mkb, num, realval, mki
from fractions import Fraction


def _td_term(d):
    if isinstance(d, SymDelta):
        return d.s
    return realval(Fraction(d.days * 86400 + d.seconds) + Fraction(d.microseconds, 10**6))


def delta(term):
    t = z3.simplify(term)
    v = core.zval(t)
    if v is not None:
        us = Fraction(v) * 10**6
        return _dt.timedelta(microseconds=int(us))
    return SymDelta(t)


def _toint_div(t, k):
    return z3.ToInt(t / k)


class SymDelta(object):
    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return SymNum(self.s)

    @property
    def days(self):
        return mki(z3.ToInt(self.s / 86400))

    @property
    def seconds(self):
        d = z3.ToInt(self.s / 86400)
        return mki(z3.ToInt(self.s - 86400 * z3.ToReal(d)))

    @property
    def microseconds(self):
        return mki(z3.ToInt((self.s - z3.ToReal(z3.ToInt(self.s))) * 1000000))

    def __add__(self, o):
        if isinstance(o, (SymDelta, _dt.timedelta)):
            return delta(self.s + _td_term(o))
        if isinstance(o, (_dt.datetime, SymDate)):
            return o + self
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return delta(self.s - _td_term(o)) if isinstance(o, (SymDelta, _dt.timedelta)) else NotImplemented

    def __rsub__(self, o):
        if isinstance(o, (SymDelta, _dt.timedelta)):
            return delta(_td_term(o) - self.s)
        if isinstance(o, _dt.datetime):
            return SymDate(o, -self.s)
        return NotImplemented

    def __mul__(self, k):
        return delta(self.s * num(k).real())

    __rmul__ = __mul__

    def __neg__(self):
        return delta(-self.s)

    def __truediv__(self, o):
        if isinstance(o, (SymDelta, _dt.timedelta)):
            return SymNum(self.s) / SymNum(_td_term(o))
        return delta(self.s / num(o).real())

    def __rtruediv__(self, o):
        return SymNum(_td_term(o)) / SymNum(self.s)

    def __floordiv__(self, o):
        return mki(z3.ToInt(self.s / _td_term(o)))

    def __mod__(self, o):
        p = _td_term(o)
        return delta(self.s - p * z3.ToReal(z3.ToInt(self.s / p)))

    def _c(self, o, f):
        if not isinstance(o, (SymDelta, _dt.timedelta)):
            return NotImplemented
        return mkb(z3.simplify(f(self.s, _td_term(o))))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    def __hash__(self): return hash(self.s)
    def __bool__(self): return core.CTX.branch(self.s != 0)
    def __abs__(self): return delta(z3.If(self.s >= 0, self.s, -self.s))


class SymDate(object):
    """base (a concrete datetime) plus a symbolic number of seconds"""
    tzinfo = None

    def __init__(self, base, s):
        self.base = base
        self.s = z3.simplify(s)

    def seconds_since(self, d):
        d = d.replace(tzinfo=None) if isinstance(d, _dt.datetime) else d
        return SymNum(z3.simplify(self.term_since(d)))

    def term_since(self, d):
        if isinstance(d, SymDate):
            return self.s + _td_term(self.base - d.base) - d.s
        b = self.base
        if (b.tzinfo is None) != (d.tzinfo is None):
            b, d = b.replace(tzinfo=None), d.replace(tzinfo=None)
        return self.s + _td_term(b - d)

    def __sub__(self, o):
        if isinstance(o, (SymDate, _dt.datetime)):
            return delta(self.term_since(o))
        if isinstance(o, (SymDelta, _dt.timedelta)):
            return SymDate(self.base, self.s - _td_term(o))
        return NotImplemented

    def __rsub__(self, o):
        return delta(-self.term_since(o)) if isinstance(o, _dt.datetime) else NotImplemented

    def __add__(self, o):
        if isinstance(o, (SymDelta, _dt.timedelta)):
            return SymDate(self.base, self.s + _td_term(o))
        return NotImplemented

    __radd__ = __add__

    def _c(self, o, f):
        if not isinstance(o, (SymDate, _dt.datetime)):
            return NotImplemented
        return mkb(z3.simplify(f(self.term_since(o))))

    def __lt__(self, o): return self._c(o, lambda a: a < 0)
    def __le__(self, o): return self._c(o, lambda a: a <= 0)
    def __gt__(self, o): return self._c(o, lambda a: a > 0)
    def __ge__(self, o): return self._c(o, lambda a: a >= 0)

    def __eq__(self, o):
        r = self._c(o, lambda a: a == 0)
        return False if r is NotImplemented and not hasattr(o, "point") else r

    def __ne__(self, o):
        r = self._c(o, lambda a: a != 0)
        return True if r is NotImplemented and not hasattr(o, "point") else r

    def __hash__(self):
        return hash(self.s)

    def _tod(self):
        mid = _dt.datetime(self.base.year, self.base.month, self.base.day)
        t = self.term_since(mid)
        return t - 86400 * z3.ToReal(z3.ToInt(t / 86400))

    @property
    def hour(self):
        return mki(z3.simplify(z3.ToInt(self._tod() / 3600)))

    @property
    def minute(self):
        t = z3.ToInt(self._tod())
        return mki(z3.simplify((t % 3600) / 60))

    @property
    def second(self):
        return mki(z3.simplify(z3.ToInt(self._tod()) % 60))

    @property
    def microsecond(self):
        t = self._tod()
        return mki(z3.simplify(z3.ToInt((t - z3.ToReal(z3.ToInt(t))) * 1000000)))

    def replace(self, **k):
        if set(k) == {"tzinfo"}:
            return SymDate(self.base.replace(tzinfo=k["tzinfo"]), self.s)
        raise Unsupported("replace() on a symbolic date")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s of a symbolic date" % n)

    def __deepcopy__(self, memo):
        return self

    def __format__(self, s):
        return "<date>"

    def __str__(self):
        return "<date>"


class _TdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_dt.timedelta, SymDelta))

    def __call__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        from .arr import SymArray
        a = [x._as_scalar() if isinstance(x, SymArray) else x for x in
             (days, seconds, microseconds, milliseconds, minutes, hours, weeks)]
        if any(isinstance(x, Sym) for x in a):
            f = [86400, 1, Fraction(1, 10**6), Fraction(1, 1000), 60, 3600, 604800]
            t = z3.RealVal(0)
            for x, k in zip(a, f):
                if not isinstance(x, Sym) and x == 0:
                    continue
                t = t + num(x).real() * realval(k)
            return delta(t)
        a = [x.item() if hasattr(x, "item") else x for x in a]
        return _dt.timedelta(*a)

    def __getattr__(cls, n):
        return getattr(_dt.timedelta, n)


class timedelta(metaclass=_TdMeta):
    pass


class _DtMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_dt.datetime, SymDate))

    def __call__(cls, *a, **k):
        return _dt.datetime(*a, **k)

    def __getattr__(cls, n):
        return getattr(_dt.datetime, n)

    def combine(cls, *a, **k):
        return _dt.datetime.combine(*a, **k)

    def utcfromtimestamp(cls, x):
        return _stamp(x, None)

    def fromtimestamp(cls, x, tz=None):
        return _stamp(x, tz)


def _stamp(x, tz):
    from .arr import SymArray
    if isinstance(x, SymArray):
        x = x._as_scalar()
    base = _dt.datetime(1970, 1, 1, tzinfo=tz)
    if isinstance(x, Sym):
        return SymDate(base, num(x).real())
    return base + _dt.timedelta(microseconds=int(round(core.frac(x) * 10**6)))


class datetime(metaclass=_DtMeta):
    pass


def module():
    m = types.ModuleType("datetime")
    m.__dict__.update({k: v for k, v in vars(_dt).items() if not k.startswith("__")})
    m.datetime, m.timedelta = datetime, timedelta
    return m
