"""A small stand-in for cf_units (used in symbolic mode only): exact linear unit conversions and calendar-free UTC time
references.  It is an assumed contract of the dependency."""
import datetime as _dt
import re as _re
from fractions import Fraction as _F

CALENDAR_GREGORIAN = "gregorian"
CALENDAR_STANDARD = "standard"
_B = {}


def _def(names, factor, offset=0, **dims):
    for n in names.split():
        _B[n] = (_F(factor), _F(offset), tuple(sorted(dims.items())))


_def("1 dimensionless", 1)
_def("% percent", _F(1, 100))
_def("m metre metres meter meters", 1, m=1)
_def("km kilometre kilometres", 1000, m=1)
_def("cm", _F(1, 100), m=1)
_def("mm millimetre millimetres", _F(1, 1000), m=1)
_def("um", _F(1, 10**6), m=1)
_def("ft feet foot", _F("0.3048"), m=1)
_def("s sec second seconds", 1, s=1)
_def("min minute minutes", 60, s=1)
_def("h hr hour hours", 3600, s=1)
_def("day days d", 86400, s=1)
_def("kg", 1, kg=1)
_def("g", _F(1, 1000), kg=1)
_def("K kelvin Kelvin degK", 1, K=1)
_def("celsius Celsius degC degree_Celsius degrees_Celsius", 1, _F("273.15"), K=1)
_def("Fahrenheit degF fahrenheit", _F(5, 9), _F("459.67") * _F(5, 9), K=1)
_def("Pa pascal", 1, kg=1, m=-1, s=-2)
_def("hPa", 100, kg=1, m=-1, s=-2)
_def("kPa", 1000, kg=1, m=-1, s=-2)
_def("J", 1, kg=1, m=2, s=-2)
_def("kJ", 1000, kg=1, m=2, s=-2)
_def("W", 1, kg=1, m=2, s=-3)
_def("N", 1, kg=1, m=1, s=-2)
_def("knot knots kt", _F(1852, 3600), m=1, s=-1)
_def("mph", _F("0.44704"), m=1, s=-1)
_def("mol", 1, mol=1)
_PI = _F("3.141592653589793")
_def("rad radian radians", 1, rad=1)
_def("deg degree degrees degrees_north degrees_east degree_north degree_east", _PI / 180, rad=1)
_def("dBZ", 1, dBZ=1)
_def("Hz", 1, s=-1)


def _parse(s):
    s = s.strip()
    if s in _B:
        f, o, d = _B[s]
        return f, o, dict(d)
    f, dims = _F(1), {}
    toks = _re.findall(r"\s*(/|\*|\.(?!\d)|[A-Za-z_%]+|\d+(?:\.\d+)?(?:[eE][-+]?\d+)?|\^|-?\d+|-\d+)", s.replace("**", "^"))
    if "".join(toks).replace(" ", "") != s.replace("**", "^").replace(" ", ""):
        raise ValueError("[UT_UNKNOWN] Failed to parse unit %r" % s)
    i, sign = 0, 1
    while i < len(toks):
        t = toks[i]
        if t == "/":
            sign = -1
            i += 1
            continue
        if t in ("*", "."):
            i += 1
            continue
        if _re.match(r"^[A-Za-z_%]", t):
            if t not in _B:
                raise ValueError("[UT_UNKNOWN] Failed to parse unit %r" % s)
            bf, _, bd = _B[t]
            e = 1
            if i + 1 < len(toks) and toks[i + 1] == "^":
                e = int(toks[i + 2])
                i += 2
            elif i + 1 < len(toks) and _re.match(r"^-?\d+$", toks[i + 1]):
                e = int(toks[i + 1])
                i += 1
            e *= sign
            f *= bf ** e
            for k, v in bd:
                dims[k] = dims.get(k, 0) + v * e
        else:
            f *= _F(t) ** sign
        sign = 1
        i += 1
    return f, _F(0), {k: v for k, v in dims.items() if v}


class Unit(object):
    def __init__(self, unit="1", calendar=None):
        if isinstance(unit, Unit):
            self.__dict__.update(unit.__dict__)
            if calendar:
                self.calendar = calendar
            return
        if unit is None or unit == "":
            unit = "1" if unit == "" else "unknown"
        unit = str(unit)
        self.origin = unit
        self.calendar = calendar
        self._epoch = None
        self._kind = "num"
        m = _re.match(r"^\s*(\w+)\s+since\s+(.*)$", unit)
        if unit in ("unknown", "no_unit", "no-unit", "?"):
            self._kind = "unknown" if unit in ("unknown", "?") else "no_unit"
            self._f, self._o, self._d = _F(1), _F(0), None
        elif m:
            self._kind = "time"
            self.calendar = calendar or "gregorian"
            self._f, self._o, d = _B[m.group(1)]
            self._d = dict(d)
            self._epoch = _date(m.group(2))
        else:
            self._f, self._o, self._d = _parse(unit)

    def is_time_reference(self):
        return self._kind == "time"

    def is_time(self):
        return self._kind == "num" and self._d == {"s": 1}

    def is_unknown(self):
        return self._kind == "unknown"

    def is_no_unit(self):
        return self._kind == "no_unit"

    def is_dimensionless(self):
        return self._kind == "num" and not self._d

    def is_convertible(self, other):
        other = other if isinstance(other, Unit) else Unit(other)
        if self._kind in ("unknown", "no_unit") or other._kind in ("unknown", "no_unit"):
            return False
        return self._kind == other._kind and (self._d == other._d or
                                              {k: v for k, v in self._d.items() if k != "rad"}
                                              == {k: v for k, v in other._d.items() if k != "rad"})

    def convert(self, value, other, ctype=None, inplace=False):
        other = other if isinstance(other, Unit) else Unit(other)
        if self == other:
            return _copy_of(value)
        if not self.is_convertible(other):
            raise ValueError("Unable to convert from '%r' to '%r'." % (self, other))
        a = self._f / other._f
        b = (self._o - other._o) / other._f if self._kind == "num" else _F(int((self._epoch - other._epoch).total_seconds())) / other._f
        return _linear(value, a, b)

    def num2date(self, v, *a, **k):
        return _num2date(self, v)

    def date2num(self, d):
        return _date2num(self, d)

    def __eq__(self, o):
        if isinstance(o, str):
            o = Unit(o)
        if not isinstance(o, Unit):
            return NotImplemented
        return (self._kind, self._f, self._o, self._d, self._epoch) == (o._kind, o._f, o._o, o._d, o._epoch)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((self._kind, self._f, self._o, self._epoch))

    def __str__(self):
        return self.origin

    def __repr__(self):
        return "Unit(%r)" % self.origin

    def __format__(self, s):
        return self.origin

    def _comb(self, o, sign):
        o = o if isinstance(o, Unit) else Unit(str(o))
        u = Unit("1")
        u._f = self._f * o._f ** sign
        u._d = dict(self._d or {})
        for k, v in (o._d or {}).items():
            u._d[k] = u._d.get(k, 0) + sign * v
        u._d = {k: v for k, v in u._d.items() if v}
        u.origin = "%s.%s" % (self.origin, o.origin) if sign == 1 else "%s/%s" % (self.origin, o.origin)
        return u

    def __mul__(self, o):
        return self._comb(o, 1)

    def __truediv__(self, o):
        return self._comb(o, -1)

    def __rtruediv__(self, o):
        return Unit(str(o))._comb(self, -1)

    def __pow__(self, n):
        u = Unit("1")
        u._f = self._f ** n
        u._d = {k: v * n for k, v in (self._d or {}).items() if v * n}
        u.origin = "%s%d" % (self.origin, n)
        return u

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _date(s):
    s = s.strip().replace("T", " ").replace("Z", "")
    m = _re.match(r"^(\d+)-(\d+)-(\d+)(?:\s+(\d+):(\d+)(?::(\d+(?:\.\d+)?))?)?", s)
    if not m:
        raise ValueError("bad time reference " + s)
    y, mo, d, h, mi, se = m.groups()
    return _dt.datetime(int(y), int(mo), int(d), int(h or 0), int(mi or 0), int(float(se or 0)))


def as_unit(u):
    return u if isinstance(u, Unit) else Unit(u)


def date2num(d, unit, calendar=None):
    return Unit(unit).date2num(d)


def num2date(v, unit, calendar=None):
    return Unit(unit).num2date(v)


# filled in by the loader (they depend on the array type in use)
_copy_of = _linear = _num2date = _date2num = None
