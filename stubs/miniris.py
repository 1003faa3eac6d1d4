"""A small stand-in for the iris package (absent from this sandbox), written over whichever numpy it is loaded with.

It implements the parts of the cube/coordinate model that improver uses: the assumed contract of the dependency.
Loaded twice: with the symbolic numpy (proof) and with the real numpy (replay).
"""
import copy as _copy
import datetime as _dt
import types as _types
from collections import namedtuple as _namedtuple

import numpy as np
from cf_units import Unit


def _name_of(x):
    return x.name() if hasattr(x, "name") and callable(x.name) else x


class CoordinateNotFoundError(KeyError):
    pass


class ConstraintMismatchError(Exception):
    pass


class CoordinateCollapseError(Exception):
    pass


class InvalidCubeError(Exception):
    pass


class MergeError(Exception):
    pass


class ConcatenateError(Exception):
    pass


class UnitConversionError(Exception):
    pass


class CoordinateMultiDimError(ValueError):
    pass


class DuplicateDataError(MergeError):
    pass


class TranslationError(Exception):
    pass


STD_NAMES = {k: {} for k in (
    "time forecast_period forecast_reference_time realization latitude longitude projection_x_coordinate "
    "projection_y_coordinate height altitude pressure air_pressure air_temperature relative_humidity wind_speed "
    "wind_from_direction wind_speed_of_gust surface_altitude land_binary_mask rainfall_rate x_wind y_wind "
    "precipitation_amount lwe_precipitation_rate grid_latitude grid_longitude surface_air_pressure model_level_number "
    "lwe_snowfall_rate lwe_sleetfall_rate surface_temperature dew_point_temperature specific_humidity eastward_wind "
    "northward_wind cloud_area_fraction wet_bulb_temperature air_pressure_at_sea_level visibility_in_air "
    "rainfall_flux convective_rainfall_rate lwe_convective_precipitation_rate lwe_stratiform_precipitation_rate "
    "lwe_thickness_of_precipitation_amount precipitation_flux convective_precipitation_flux "
    "thickness_of_rainfall_amount solar_zenith_angle area_fraction probability_distribution_function_of").split()}


class _Meta(object):
    """name / units / attributes shared by cubes and coordinates"""
    standard_name = None
    long_name = None
    var_name = None

    def name(self, default=None, token=False):
        return self.standard_name or self.long_name or self.var_name or default or "unknown"

    def rename(self, name):
        if name in STD_NAMES:
            self.standard_name = name
            self.long_name = None
        else:
            self.standard_name = None
            self.long_name = name
        self.var_name = None

    @property
    def units(self):
        return self._units

    @units.setter
    def units(self, u):
        self._units = Unit("1") if u is None else (u if isinstance(u, Unit) else Unit(u))

    @property
    def attributes(self):
        return self._attributes

    @attributes.setter
    def attributes(self, a):
        self._attributes = dict(a or {})


def _attrs_eq(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if hasattr(x, "shape") or hasattr(y, "shape"):
            if not bool(np.array_equal(np.asarray(x), np.asarray(y))):
                return False
        elif x != y:
            return False
    return True


class CubeMetadata(_namedtuple("CubeMetadata", "standard_name long_name var_name units attributes cell_methods")):
    def name(self, default=None):
        return self.standard_name or self.long_name or self.var_name or default or "unknown"

    def __eq__(self, o):
        return isinstance(o, CubeMetadata) and tuple(self[:4]) == tuple(o[:4]) and self[5] == o[5] \
            and _attrs_eq(self[4], o[4])

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(tuple(self[:3]))


class _Slices(object):
    def __init__(self, gen):
        self.gen = gen

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.gen)

    next = __next__


class CellMethod(object):
    def __init__(self, method, coords=None, intervals=None, comments=None):
        self.method = method
        if coords is None:
            coords = ()
        elif isinstance(coords, (str, Coord)):
            coords = (coords,)
        self.coord_names = tuple(_name_of(c) for c in coords)
        self.intervals = tuple([intervals] if isinstance(intervals, str) else (intervals or ()))
        self.comments = tuple([comments] if isinstance(comments, str) else (comments or ()))

    def __eq__(self, o):
        return isinstance(o, CellMethod) and (self.method, self.coord_names, self.intervals, self.comments) == (
            o.method, o.coord_names, o.intervals, o.comments)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return (self.method, self.coord_names) < (o.method, o.coord_names)

    def __hash__(self):
        return hash((self.method, self.coord_names))

    def __str__(self):
        return "%s: %s" % (", ".join(self.coord_names), self.method)

    __repr__ = __str__


class Cell(object):
    __array_priority__ = 100

    def __init__(self, point, bound=None):
        self.point = point
        self.bound = bound

    def __getitem__(self, k):
        return (self.point, self.bound)[k]

    def __iter__(self):
        return iter((self.point, self.bound))

    def __len__(self):
        return 2

    def contains_point(self, p):
        return min(self.bound) <= p <= max(self.bound)

    def _val(self, o):
        if hasattr(o, "timetuple") and not isinstance(o, _dt.datetime):
            return o
        return o.point if isinstance(o, Cell) else o

    def __eq__(self, o):
        if isinstance(o, Cell):
            return self.point == o.point and self.bound == o.bound
        if self.bound is not None and not isinstance(o, PartialDateTime):
            return self.point == o
        if isinstance(o, PartialDateTime):
            return o == self.point
        return self.point == o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.point)

    # iris compares bounds, when present, using their extremes
    def _lo(self):
        return self.point if self.bound is None else self.bound[0]

    def _hi(self):
        return self.point if self.bound is None else self.bound[1]

    def __lt__(self, o):
        if isinstance(o, PartialDateTime):
            return o > self.point
        if self.bound is not None and isinstance(o, Cell) is False:
            return self._lo() < o and self.point < o if False else self.bound[0] < o
        return self.point < self._val(o)

    def __le__(self, o):
        if isinstance(o, PartialDateTime):
            return o >= self.point
        if self.bound is not None and not isinstance(o, Cell):
            return self.bound[0] <= o
        return self.point <= self._val(o)

    def __gt__(self, o):
        if isinstance(o, PartialDateTime):
            return o < self.point
        if self.bound is not None and not isinstance(o, Cell):
            return self.bound[1] > o
        return self.point > self._val(o)

    def __ge__(self, o):
        if isinstance(o, PartialDateTime):
            return o <= self.point
        if self.bound is not None and not isinstance(o, Cell):
            return self.bound[1] >= o
        return self.point >= self._val(o)

    def __repr__(self):
        return "Cell(point=%r, bound=%r)" % (self.point, self.bound)


class PartialDateTime(object):
    def __init__(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None):
        self.parts = [("year", year), ("month", month), ("day", day), ("hour", hour), ("minute", minute),
                      ("second", second)]

    def _key(self, o):
        return [(v, getattr(o, k)) for k, v in self.parts if v is not None]

    def __eq__(self, o):
        return all(a == b for a, b in self._key(o))

    def __lt__(self, o):
        k = self._key(o)
        return [a for a, _ in k] < [b for _, b in k]

    def __gt__(self, o):
        k = self._key(o)
        return [a for a, _ in k] > [b for _, b in k]

    def __le__(self, o):
        return self < o or self == o

    def __ge__(self, o):
        return self > o or self == o


class CoordSystem(object):
    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(type(self).__name__)

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join("%s=%r" % kv for kv in sorted(self.__dict__.items())))

    def as_cartopy_crs(self):
        from cartopy import crs
        return crs.PlateCarree() if isinstance(self, GeogCS) else crs.Projected()


class GeogCS(CoordSystem):
    grid_mapping_name = "latitude_longitude"

    def __init__(self, semi_major_axis=None, semi_minor_axis=None, inverse_flattening=None, **k):
        self.semi_major_axis, self.semi_minor_axis = semi_major_axis, semi_minor_axis
        self.inverse_flattening = inverse_flattening


class _ProjCS(CoordSystem):
    grid_mapping_name = "projection"

    def __init__(self, *a, **k):
        self.args = a
        self.kwargs = k
        self.ellipsoid = k.get("ellipsoid")


class LambertAzimuthalEqualArea(_ProjCS):
    grid_mapping_name = "lambert_azimuthal_equal_area"


class TransverseMercator(_ProjCS):
    grid_mapping_name = "transverse_mercator"


class Stereographic(_ProjCS):
    grid_mapping_name = "stereographic"


class RotatedGeogCS(_ProjCS):
    grid_mapping_name = "rotated_latitude_longitude"


# ------------------------------------------------------------------ coordinates
def _numeric(a):
    return a.dtype.kind in "iufb"


class Coord(_Meta):
    def __init__(self, points, standard_name=None, long_name=None, var_name=None, units=None, bounds=None,
                 attributes=None, coord_system=None, climatological=False, circular=False):
        self.standard_name, self.long_name, self.var_name = standard_name, long_name, var_name
        self.units = units
        self.attributes = attributes
        self.coord_system = coord_system
        self.circular = circular
        self._bounds = None
        self.points = points
        if bounds is not None:
            self.bounds = bounds

    _min1 = False

    @property
    def points(self):
        return self._points

    @points.setter
    def points(self, p):
        p = np.array(p) if not np.ma.isMaskedArray(p) else np.ma.array(p)
        if p.ndim == 0:
            p = p.reshape((1,))
        self._points = p

    @property
    def bounds(self):
        return self._bounds

    @bounds.setter
    def bounds(self, b):
        if b is None:
            self._bounds = None
            return
        b = np.array(b)
        if b.ndim == self._points.ndim:
            b = b.reshape(self._points.shape + (-1,)) if not (b.ndim == 1 and self._points.shape[0] == 1) else \
                b.reshape((1,) + b.shape)
        if len(b.shape) != len(self._points.shape) + 1:
            raise ValueError("Bounds shape must be compatible with points shape.")
        self._bounds = b

    core_points = lambda self: self._points
    core_bounds = lambda self: self._bounds

    def has_bounds(self):
        return self._bounds is not None

    @property
    def nbounds(self):
        return 0 if self._bounds is None else self._bounds.shape[-1]

    @property
    def shape(self):
        return self._points.shape

    @property
    def ndim(self):
        return self._points.ndim

    @property
    def dtype(self):
        return self._points.dtype

    @property
    def bounds_dtype(self):
        return None if self._bounds is None else self._bounds.dtype

    def copy(self, points=None, bounds=None):
        new = _copy.copy(self)
        new._attributes = dict(self._attributes)
        new._points = self._points.copy()
        new._bounds = None if self._bounds is None else self._bounds.copy()
        if points is not None:
            new._bounds = None
            new.points = points
            if bounds is not None:
                new.bounds = bounds
        return new

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, key):
        if isinstance(key, (int, np.integer)) or not isinstance(key, tuple):
            key = (key,)
        pts = np.asarray(self._points[key])
        bnd = None if self._bounds is None else np.asarray(self._bounds[key + (slice(None),) if Ellipsis not in
                                                           [k for k in key if k is Ellipsis] else key])
        if pts.ndim == 0:
            pts = pts.reshape((1,))
            bnd = None if bnd is None else bnd.reshape((1,) + bnd.shape[-1:])
        new = _copy.copy(self)
        new._attributes = dict(self._attributes)
        new._points = np.array(pts)
        new._bounds = None if bnd is None else np.array(bnd)
        if isinstance(new, DimCoord) and not _mono_ok(new._points):
            new = _to_aux(new)
        return new

    def _eq_meta(self, o):
        return (self.standard_name == o.standard_name and self.long_name == o.long_name and self.var_name == o.var_name
                and self.units == o.units and self.coord_system == o.coord_system
                and _attr_eq(self._attributes, o._attributes))

    def __eq__(self, o):
        if isinstance(o, str):
            return self.name() == o
        if not isinstance(o, Coord):
            return NotImplemented
        if not self._eq_meta(o):
            return False
        if self._points.shape != o._points.shape or not bool(_array_equal(self._points, o._points)):
            return False
        if (self._bounds is None) != (o._bounds is None):
            return False
        return self._bounds is None or bool(_array_equal(self._bounds, o._bounds))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return id(self)

    def _date(self, v):
        u = self.units
        if u.is_time_reference():
            return _num2date(u, v)
        return v

    def cell(self, i):
        p = self._points[i]
        if self.ndim != 1 and hasattr(p, "shape") and p.shape != ():
            raise ValueError("cell of a multi-dimensional coord")
        if self._bounds is None:
            return Cell(self._date(p))
        b = self._bounds[i]
        return Cell(self._date(p), tuple(self._date(x) for x in b))

    def cells(self):
        return iter([self.cell(i) for i in range(len(self._points))])

    def convert_units(self, unit):
        unit = unit if isinstance(unit, Unit) else Unit(unit)
        if self.units == unit:
            self.units = unit
            return
        old = self.units
        if self.units.is_unknown():
            raise UnitConversionError("unknown units")
        self._points = _convert(old, unit, self._points)
        if self._bounds is not None:
            self._bounds = _convert(old, unit, self._bounds)
        self.units = unit

    def is_monotonic(self):
        if self.ndim != 1:
            raise CoordinateMultiDimError("multi")
        return _monotonic(self._points, strict=False)

    def nearest_neighbour_index(self, v):
        d = np.abs(self._points - v)
        if self.circular:
            d = np.minimum(d % 360.0, 360.0 - d % 360.0)
        return int(np.argmin(d))

    def guess_bounds(self, bound_position=0.5):
        if self.ndim != 1:
            raise CoordinateMultiDimError("multi")
        if len(self._points) < 2:
            raise ValueError("Cannot guess bounds for a coordinate of length 1.")
        if self._bounds is not None:
            raise ValueError("Coord already has bounds. Remove the bounds before guessing new ones.")
        p = self._points
        d = np.diff(p)
        d = np.insert(d, 0, d[0])
        d = np.append(d, d[-1])
        lo = p - d[:-1] * bound_position
        hi = p + d[1:] * (1 - bound_position)
        self._bounds = np.stack([lo, hi], axis=-1)

    def index(self, cell):
        for i in range(len(self._points)):
            if self.cell(i) == cell:
                return i
        raise IndexError("No such cell")

    def collapsed(self):
        if not _numeric(self._points):
            return self.copy(np.array(["|".join(str(x) for x in self._points)]))
        if self._bounds is not None:
            lo, hi = self._bounds.min(), self._bounds.max()
        else:
            lo, hi = self._points.min(), self._points.max()
        mid = np.array([(lo + hi) / 2.0 if self._points.dtype.kind == "f" else (lo + hi) // 2],
                       dtype=self._points.dtype)
        c = self.copy()
        c._points = mid
        c._bounds = np.array([[lo, hi]], dtype=self._points.dtype)
        return c

    def is_compatible(self, o, ignore=None):
        return self.name() == o.name() and self.units == o.units

    def __repr__(self):
        return "<%s: %s %s>" % (type(self).__name__, self.name(), self.shape)

    def __add__(self, v):
        return self.copy(self._points + v, None if self._bounds is None else self._bounds + v)

    def __sub__(self, v):
        return self.copy(self._points - v, None if self._bounds is None else self._bounds - v)

    def __mul__(self, v):
        return self.copy(self._points * v, None if self._bounds is None else self._bounds * v)


def _attr_eq(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if hasattr(x, "shape") or hasattr(y, "shape"):
            if not bool(np.array_equal(x, y)):
                return False
        elif x != y:
            return False
    return True


def _array_equal(a, b):
    return np.array_equal(a, b)


def _convert(old, new, arr):
    if not old.is_convertible(new):
        raise ValueError("Unable to convert from '%r' to '%r'." % (old, new))
    dt = arr.dtype
    if np.ma.isMaskedArray(arr):
        return old.convert(arr, new)
    r = old.convert(arr, new)
    return np.array(r)


def _num2date(u, v):
    if hasattr(v, "item"):
        v = v.item()
    try:
        d = u.num2date(v, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
    except TypeError:
        d = u.num2date(v)
    if isinstance(d, _dt.datetime) and type(d) is not _dt.datetime and hasattr(type(d), "year"):
        d = _dt.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)
    return d


def _monotonic(p, strict=True):
    n = p.shape[0]
    if isinstance(n, int) and n < 2:
        return True
    d = p[1:] - p[:-1]
    if strict:
        return bool(np.all(d > 0)) or bool(np.all(d < 0))
    return bool(np.all(d >= 0)) or bool(np.all(d <= 0))


def _mono_ok(p):
    return p.ndim == 1 and _numeric(p) and _monotonic(p)


def _to_aux(c):
    new = AuxCoord.__new__(AuxCoord)
    new.__dict__.update(c.__dict__)
    return new


class AuxCoord(Coord):
    pass


class DimCoord(Coord):
    def __init__(self, *a, **k):
        Coord.__init__(self, *a, **k)
        self._check()

    def _check(self):
        p = self._points
        if p.ndim != 1:
            raise ValueError("The points array must be 1-dimensional.")
        if not _numeric(p):
            raise ValueError("The points array must be numeric.")
        if not _monotonic(p):
            raise ValueError("The points array must be strictly monotonic.")

    @classmethod
    def from_coord(cls, c):
        new = cls.__new__(cls)
        new.__dict__.update(c.copy().__dict__)
        new._check()
        return new

    @property
    def points(self):
        return self._points

    @points.setter
    def points(self, p):
        p = np.array(p)
        if p.ndim == 0:
            p = p.reshape((1,))
        if p.ndim != 1:
            raise ValueError("The points array must be 1-dimensional.")
        if not _numeric(p) or not _monotonic(p):
            raise ValueError("The points array must be strictly monotonic.")
        self._points = p

    @classmethod
    def from_regular(cls, zeroth, step, count, **k):
        return cls(zeroth + step * np.arange(1, count + 1), **k)


class CellMeasure(object):
    pass


class AncillaryVariable(object):
    pass


# ------------------------------------------------------------------ axis guessing
def guess_coord_axis(coord):
    n = coord.standard_name or coord.name()
    if n in ("longitude", "grid_longitude", "projection_x_coordinate"):
        return "X"
    if n in ("latitude", "grid_latitude", "projection_y_coordinate"):
        return "Y"
    if (coord.units.is_convertible("hPa") and not coord.units.is_dimensionless()) or \
            coord.attributes.get("positive") in ("up", "down"):
        return "Z"
    if coord.units.is_time_reference():
        return "T"
    return None


# ------------------------------------------------------------------ cubes
class Cube(_Meta):
    def __init__(self, data, standard_name=None, long_name=None, var_name=None, units=None, attributes=None,
                 cell_methods=None, dim_coords_and_dims=None, aux_coords_and_dims=None, **k):
        if isinstance(data, str):
            raise TypeError("Invalid data type")
        self._data = data if hasattr(data, "shape") and not np.isscalar(data) else np.asarray(data)
        self.standard_name, self.long_name, self.var_name = standard_name, long_name, var_name
        self.units = units
        self.attributes = attributes
        self._dim_coords = []
        self._aux_coords = []
        self._cell_methods = ()
        self.cell_methods = cell_methods
        for c, d in dim_coords_and_dims or []:
            self.add_dim_coord(c, d)
        for c, d in aux_coords_and_dims or []:
            self.add_aux_coord(c, d)

    # data
    @property
    def data(self):
        return self._data

    @data.setter
    def data(self, v):
        v = v if hasattr(v, "shape") else np.asarray(v)
        if np.isscalar(v):
            v = np.asarray(v)
        if len(v.shape) != len(self._data.shape) or not all(_same(a, b) for a, b in zip(v.shape, self._data.shape)):
            if not (self._data.shape == () and False):
                raise ValueError("Require data with shape %r, got %r." % (self._data.shape, v.shape))
        self._data = v

    def core_data(self):
        return self._data

    def lazy_data(self):
        return self._data

    def has_lazy_data(self):
        return False

    def realise_data(self):
        pass

    @property
    def shape(self):
        return self._data.shape

    @property
    def ndim(self):
        return self._data.ndim

    @property
    def dtype(self):
        return self._data.dtype

    @property
    def cell_methods(self):
        return self._cell_methods

    @cell_methods.setter
    def cell_methods(self, c):
        self._cell_methods = tuple(c) if c else ()

    def add_cell_method(self, c):
        self._cell_methods = self._cell_methods + (c,)

    @property
    def metadata(self):
        return CubeMetadata(self.standard_name, self.long_name, self.var_name, self.units, self._attributes,
                            self._cell_methods)

    @metadata.setter
    def metadata(self, m):
        self.standard_name, self.long_name, self.var_name = m.standard_name, m.long_name, m.var_name
        self.units, self._attributes, self._cell_methods = m.units, dict(m.attributes), tuple(m.cell_methods)

    # coordinates
    def _all(self):
        return [c for c, _ in self._dim_coords] + [c for c, _ in self._aux_coords]

    @property
    def dim_coords(self):
        return tuple(c for c, _ in sorted(self._dim_coords, key=lambda x: x[1]))

    @property
    def aux_coords(self):
        return tuple(c for c, _ in self._aux_coords)

    derived_coords = ()
    aux_factories = ()

    def _dims_of(self, c):
        for x, d in self._dim_coords:
            if x is c:
                return (d,)
        for x, d in self._aux_coords:
            if x is c:
                return d
        return None

    def coords(self, name_or_coord=None, standard_name=None, long_name=None, var_name=None, attributes=None, axis=None,
               contains_dimension=None, dimensions=None, coord_system=None, dim_coords=None, **k):
        if dim_coords is True:
            out = list(self.dim_coords)
        elif dim_coords is False:
            out = [c for c, _ in self._aux_coords]
        else:
            out = list(self.dim_coords) + [c for c, _ in self._aux_coords]
        name = coord = None
        if isinstance(name_or_coord, Coord):
            coord = name_or_coord
        else:
            name = name_or_coord
        if name is not None:
            out = [c for c in out if c.name() == name or name in (c.standard_name, c.long_name)]
        if coord is not None:
            out = [c for c in out if c is coord or c._eq_meta(coord)]
        if standard_name is not None:
            out = [c for c in out if c.standard_name == standard_name]
        if long_name is not None:
            out = [c for c in out if c.long_name == long_name]
        if var_name is not None:
            out = [c for c in out if c.var_name == var_name]
        if axis is not None:
            out = [c for c in out if guess_coord_axis(c) == axis.upper()]
        if coord_system is not None:
            out = [c for c in out if c.coord_system == coord_system]
        if dimensions is not None:
            dims = (dimensions,) if isinstance(dimensions, int) else tuple(dimensions)
            out = [c for c in out if tuple(self._dims_of(c)) == dims]
        if contains_dimension is not None:
            out = [c for c in out if contains_dimension in self._dims_of(c)]
        return out

    def coord(self, *a, **k):
        found = self.coords(*a, **k)
        if len(found) > 1:
            raise CoordinateNotFoundError("Expected to find exactly 1 coordinate, but found %d: %s" % (
                len(found), ", ".join(c.name() for c in found)))
        if not found:
            nm = a[0] if a else k
            raise CoordinateNotFoundError("Expected to find exactly 1 %r coordinate, but found none." % (
                _name_of(nm),))
        return found[0]

    def coord_dims(self, coord):
        if isinstance(coord, str):
            coord = self.coord(coord)
        d = self._dims_of(coord)
        if d is None:
            d = self._dims_of(self.coord(coord))
        return tuple(d)

    def _check_dup(self, c):
        for x in self._all():
            if x._eq_meta(c):
                raise ValueError("Duplicate coordinates are not possible.")

    def add_dim_coord(self, c, dim):
        if isinstance(dim, (tuple, list)):
            dim = dim[0]
        self._check_dup(c)
        if not isinstance(c, DimCoord):
            raise ValueError("The dim_coord may not be an AuxCoord instance.")
        if any(d == dim for _, d in self._dim_coords):
            raise ValueError("A dim_coord is already associated with dimension %d." % dim)
        if not _same(c.shape[0], self.shape[dim]):
            raise ValueError("Unequal lengths. Cube dimension %d => %s; coord %r => %s." % (
                dim, self.shape[dim], c.name(), c.shape[0]))
        self._dim_coords.append((c, int(dim)))

    def add_aux_coord(self, c, data_dims=None):
        self._check_dup(c)
        if data_dims is None:
            data_dims = ()
        elif not isinstance(data_dims, (tuple, list)):
            data_dims = (data_dims,)
        data_dims = tuple(int(d) for d in data_dims)
        if not data_dims and c.shape != (1,):
            raise ValueError("Missing data dimensions for multi-valued coordinate %r" % c.name())
        if data_dims:
            if len(data_dims) != c.ndim and c.shape != (1,):
                raise ValueError("Invalid data dimensions")
            for d, n in zip(data_dims, c.shape):
                if not _same(self.shape[d], n):
                    raise ValueError("Unequal lengths. Cube dimension %d => %s; coord %r => %s." % (
                        d, self.shape[d], c.name(), n))
        self._aux_coords.append((c, data_dims))

    def remove_coord(self, coord):
        c = self.coord(coord)
        self._dim_coords = [(x, d) for x, d in self._dim_coords if x is not c]
        self._aux_coords = [(x, d) for x, d in self._aux_coords if x is not c]

    def replace_coord(self, new):
        old = self.coord(new)
        d = self._dims_of(old)
        isdim = any(x is old for x, _ in self._dim_coords)
        self.remove_coord(old)
        if isdim and isinstance(new, DimCoord):
            self.add_dim_coord(new, d[0])
        else:
            self.add_aux_coord(new, d)

    def coord_system(self, spec=None):
        cs = []
        for c in self._all():
            if c.coord_system is not None and c.coord_system not in cs:
                cs.append(c.coord_system)
        if spec is not None:
            if isinstance(spec, str):
                cs = [c for c in cs if type(c).__name__ == spec or spec == "CoordSystem"]
            else:
                cs = [c for c in cs if isinstance(c, spec)]
        return cs[0] if cs else None

    # copying
    def copy(self, data=None):
        new = Cube.__new__(Cube)
        new.__dict__.update(self.__dict__)
        new._attributes = _copy.deepcopy(self._attributes)
        new._dim_coords = [(c.copy(), d) for c, d in self._dim_coords]
        new._aux_coords = [(c.copy(), d) for c, d in self._aux_coords]
        if data is not None:
            data = data if hasattr(data, "shape") else np.asarray(data)
            if len(data.shape) != len(self.shape) or not all(_same(a, b) for a, b in zip(data.shape, self.shape)):
                raise ValueError("Cannot copy cube with new data of a different shape (slice or subset the cube first).")
            new._data = data
        else:
            new._data = self._data.copy()
        return new

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        raise Exception("Cube shallow-copy not allowed.")

    def __eq__(self, o):
        if not isinstance(o, Cube):
            return NotImplemented
        if self.metadata != o.metadata or len(self._all()) != len(o._all()):
            return False
        for c in self._all():
            hit = [x for x in o._all() if x._eq_meta(c)]
            if not hit or not (hit[0] == c) or tuple(self._dims_of(c)) != tuple(o._dims_of(hit[0])):
                return False
        return self.shape == o.shape and bool(np.array_equal(self._data, o._data))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return id(self)

    __iter__ = None

    def __repr__(self):
        return "<iris 'Cube' of %s / (%s) %s>" % (self.name(), self.units, self.shape)

    __str__ = __repr__

    def summary(self, *a, **k):
        return repr(self)

    def __len__(self):
        raise TypeError("object of type 'Cube' has no len()")

    def __bool__(self):
        return True

    # indexing
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (self.ndim - (len(key) - 1)) + key[p + 1:]
        if len(key) > self.ndim:
            raise IndexError("More slices requested than dimensions. Requested %r, but there were only %s dimensions."
                             % (key, self.ndim))
        key = tuple(key) + (slice(None),) * (self.ndim - len(key))
        key = tuple(list(k) if isinstance(k, tuple) else k for k in key)
        # index axis by axis so that several vector keys act orthogonally
        data = self._data
        ax = 0
        dimmap = {}
        for d, k in enumerate(key):
            full_ = (slice(None),) * ax + (k,)
            if not (isinstance(k, slice) and k == slice(None)):
                data = data[full_]
            if _is_scalar_key(k):
                dimmap[d] = None
            else:
                dimmap[d] = ax
                ax += 1
        if not hasattr(data, "shape") or data.shape == () or np.isscalar(data):
            data = np.ma.masked_array(0, mask=True) if data is np.ma.masked else np.asarray(data)
        new = Cube.__new__(Cube)
        new.__dict__.update(self.__dict__)
        new._attributes = dict(self._attributes)
        new._data = data.copy()
        new._dim_coords, new._aux_coords = [], []
        for c, d in self._dim_coords:
            nc = c if isinstance(key[d], slice) and key[d] == slice(None) else None
            nc = c.copy() if nc is not None else c[key[d]]
            if dimmap[d] is None:
                new._aux_coords.append((nc, ()))
            elif isinstance(nc, DimCoord):
                new._dim_coords.append((nc, dimmap[d]))
            else:
                new._aux_coords.append((nc, (dimmap[d],)))
        for c, ds in self._aux_coords:
            if not ds:
                new._aux_coords.append((c.copy(), ()))
                continue
            if c.shape == (1,) and len(ds) == 1 and False:
                pass
            pts, bnd = c._points, c._bounds
            ax2 = 0
            nds = []
            for d in ds:
                k = key[d]
                if not (isinstance(k, slice) and k == slice(None)):
                    pts = pts[(slice(None),) * ax2 + (k,)]
                    if bnd is not None:
                        bnd = bnd[(slice(None),) * ax2 + (k,)]
                if dimmap[d] is not None:
                    nds.append(dimmap[d])
                    ax2 += 1
            nc = _copy.copy(c)
            nc._attributes = dict(c._attributes)
            pts = np.array(pts)
            if pts.ndim == 0:
                pts = pts.reshape((1,))
                if bnd is not None:
                    bnd = np.array(bnd).reshape((1, -1))
            nc._points, nc._bounds = pts, (None if bnd is None else np.array(bnd))
            new._aux_coords.append((nc, tuple(nds)))
        return new

    def _dims_for(self, ref):
        if isinstance(ref, (str, Coord, int)):
            ref = [ref]
        dims = []
        for r in ref:
            if isinstance(r, int):
                dims.append(r)
                continue
            c = self.coord(r)
            d = self._dims_of(c)
            if not d:
                raise ValueError("Requested an iterator over a coordinate (%s) which does not describe a dimension." % c.name())
            dims.extend(d)
        return dims

    def slices(self, ref_to_slice, ordered=True):
        return _Slices(self._slices(ref_to_slice, ordered))

    def _slices(self, ref_to_slice, ordered=True):
        if not isinstance(ref_to_slice, (str, Coord, int)) and not hasattr(ref_to_slice, "__iter__"):
            raise TypeError("ref_to_slice")
        dims = self._dims_for(ref_to_slice)
        if len(set(dims)) != len(dims):
            raise ValueError("The requested coordinates are not orthogonal.")
        others = [d for d in range(self.ndim) if d not in dims]
        for idx in np.ndindex(*[self.shape[d] for d in others]):
            key = [slice(None)] * self.ndim
            for d, i in zip(others, idx):
                key[d] = int(i)
            cube = self[tuple(key)]
            if ordered:
                cur = sorted(dims)
                order = [cur.index(d) for d in dims]
                if order != list(range(len(order))):
                    cube.transpose(order)
            yield cube

    def slices_over(self, ref):
        if isinstance(ref, (str, Coord, int)):
            ref = [ref]
        dims = set()
        for r in ref:
            if isinstance(r, int):
                dims.add(r)
            else:
                dims.update(self._dims_of(self.coord(r)))
        rest = [d for d in range(self.ndim) if d not in dims]
        if not rest and not dims:
            return _Slices(iter([self.copy()]))
        return self.slices(rest)

    def transpose(self, new_order=None):
        if new_order is None:
            new_order = list(range(self.ndim))[::-1]
        new_order = [int(d) for d in new_order]
        self._data = self._data.transpose(new_order)
        pos = {old: new for new, old in enumerate(new_order)}
        self._dim_coords = [(c, pos[d]) for c, d in self._dim_coords]
        self._aux_coords = [(c, tuple(pos[d] for d in ds)) for c, ds in self._aux_coords]

    def convert_units(self, unit):
        unit = unit if isinstance(unit, Unit) else Unit(unit)
        if self.units == unit:
            self.units = unit
            return
        if self.units.is_unknown():
            raise UnitConversionError("Cannot convert from unknown units.")
        self._data = _convert(self.units, unit, self._data)
        self.units = unit

    def extract(self, constraint):
        return _as_constraint(constraint).extract(self)

    def subset(self, coord):
        return self.extract(Constraint(coord_values={coord.name(): lambda c: any(c == x for x in coord.cells())}))

    def intersection(self, *a, **k):
        raise NotImplementedError("intersection")

    # arithmetic
    def _arith(self, o, op, name=None):
        if isinstance(o, Cube):
            data = op(self._data, o._data)
        else:
            data = op(self._data, o)
        new = self.copy(data=data if hasattr(data, "shape") else np.asarray(data))
        new.standard_name, new.long_name, new.var_name = None, None, None
        new._cell_methods = ()
        return new

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    __radd__ = __add__

    def __mul__(self, o):
        new = self._arith(o, lambda a, b: a * b)
        if isinstance(o, Cube):
            new.units = self.units * o.units
        return new

    __rmul__ = __mul__

    def __truediv__(self, o):
        new = self._arith(o, lambda a, b: a / b)
        if isinstance(o, Cube):
            new.units = self.units / o.units
        return new

    def __neg__(self):
        return self.copy(data=-self._data)

    def __abs__(self):
        return self.copy(data=abs(self._data))

    # collapsing
    def collapsed(self, coords, aggregator, **kwargs):
        if isinstance(coords, (str, Coord)):
            coords = [coords]
        cs = [self.coord(c) for c in coords]
        dims = sorted(set(d for c in cs for d in self._dims_of(c)))
        new = self.copy()
        for c in cs:
            pass
        if dims:
            # iris drops the collapsed dims; coords spanning them collapse to scalars
            data = aggregator.aggregate(self._data, axis=tuple(dims) if len(dims) > 1 else dims[0], **kwargs)
        else:
            data = aggregator.aggregate(self._data[np.newaxis, ...], axis=0, **kwargs)
        keep = [d for d in range(self.ndim) if d not in dims]
        pos = {d: i for i, d in enumerate(keep)}
        ndc, nac = [], []
        for c, d in self._dim_coords:
            if d in dims:
                nac.append((c.collapsed() if any(c is x for x in cs) or c.shape[0] != 1 else c.copy(), ()))
            else:
                ndc.append((c.copy(), pos[d]))
        for c, ds in self._aux_coords:
            if any(d in dims for d in ds):
                if c.ndim == 1 or all(d in dims for d in ds):
                    nac.append((c.collapsed(), ()))
            elif any(c is x for x in cs) and not ds:
                nac.append((c.copy(), ()))
            else:
                nac.append((c.copy(), tuple(pos[d] for d in ds)))
        new._dim_coords, new._aux_coords = ndc, nac
        if not hasattr(data, "shape") or np.isscalar(data):
            data = np.asarray(data)
        new._data = data
        aggregator.update_metadata(new, cs, **kwargs)
        return aggregator.post_process(new, data, cs, **kwargs)

    def aggregated_by(self, *a, **k):
        raise NotImplementedError("aggregated_by")

    def interpolate(self, sample_points, scheme, collapse_scalar=True):
        cube = self
        for name, pts in sample_points:
            cube = _interp1(cube, name, pts, scheme)
        return cube

    def regrid(self, grid, scheme):
        return _regrid(self, grid, scheme)


def _regrid(cube, grid, scheme):
    """iris: nearest or bilinear onto the grid's x and y, between points in the same coordinate system; targets outside the source
    points are missing ("nanmask": masked where the source is a masked array, NaN otherwise)"""
    if not isinstance(scheme, Linear) or scheme.extrapolation_mode != "nanmask":
        raise NotImplementedError("regrid %s" % scheme)
    nearest = isinstance(scheme, Nearest)
    old, new, dims, takes, off = [], [], [], [], []
    for axis in ("y", "x"):
        s, t = cube.coord(axis=axis, dim_coords=True), grid.coord(axis=axis, dim_coords=True)
        if s.coord_system != t.coord_system or s.units != t.units:
            raise NotImplementedError("regrid between coordinate systems")
        sp, ts, out = [float(v) for v in s.points], [], []
        for v in [float(v) for v in t.points]:
            j = [k for k in range(len(sp) - 1) if min(sp[k], sp[k + 1]) <= v <= max(sp[k], sp[k + 1])]
            out.append(not j)
            if not j:
                ts.append([(0, 1.0)])
                continue
            f = (v - sp[j[0]]) / (sp[j[0] + 1] - sp[j[0]])
            ts.append([(j[0] + int(f > 0.5), 1.0)] if nearest else [(j[0], 1 - f), (j[0] + 1, f)])
        old.append(s)
        new.append(t)
        dims.append(cube.coord_dims(s)[0])
        takes.append(ts)
        off.append(out)
    data = cube.data
    if tuple(dims) != (data.ndim - 2, data.ndim - 1):
        raise NotImplementedError("regrid of leading dimensions")
    masked = isinstance(data, np.ma.MaskedArray)
    if masked and not nearest:
        raise NotImplementedError("linear regrid of masked data")

    def pick(a, zero):
        rows = []
        for ya, yo in zip(takes[0], off[0]):
            row = []
            for xa, xo in zip(takes[1], off[1]):
                v = [a[..., i, j] * (u * w) if not nearest else a[..., i, j] for i, u in ya for j, w in xa]
                tot = v[0]
                for q in v[1:]:
                    tot = tot + q
                row.append(tot if not (yo or xo) or zero is None else a[..., 0, 0] * 0 + zero)
            rows.append(np.stack(row, axis=-1))
        return np.stack(rows, axis=-2)

    anyout = any(off[0]) or any(off[1])
    if masked:
        outside = np.array([[p or q for q in off[1]] for p in off[0]])
        res = np.ma.masked_array(pick(data.data, None),
                                 mask=np.logical_or(pick(np.ma.getmaskarray(data), None), outside))
    else:
        if anyout and data.dtype.kind != "f":
            raise NotImplementedError("regrid of whole numbers to outside the grid")
        res = pick(data, np.nan if anyout else None)
    out = Cube(res, units=cube.units, attributes=dict(cube.attributes))
    out.standard_name, out.long_name, out.var_name = cube.standard_name, cube.long_name, cube.var_name
    out.cell_methods = cube.cell_methods
    out._dim_coords = [(new[[c is o for o in old].index(True)].copy() if any(c is o for o in old) else c.copy(), d)
                       for c, d in cube._dim_coords]
    out._aux_coords = [(c.copy(), ds) for c, ds in cube._aux_coords]
    return out


def _interp1(cube, name, pts, scheme):
    c = cube.coord(name)
    (d,) = cube.coord_dims(c)
    scalar = not hasattr(pts, "__iter__")
    pts = [pts] if scalar else list(pts)
    if c.units.is_time_reference():
        pts = [c.units.date2num(p) if hasattr(p, "year") else p for p in pts]
    x = c.points
    n = len(x)
    data = cube.data
    outs, aux = [], {}
    for p in pts:
        j = 0
        while j < n - 2 and x[j + 1] < p:
            j += 1
        f = (p - x[j]) / (x[j + 1] - x[j])
        a = data[(slice(None),) * d + (j,)]
        b = data[(slice(None),) * d + (j + 1,)]
        outs.append((a, b, f, j))
    new = cube[(slice(None),) * d + ([0] * len(pts),)]
    res = np.stack([a + (b - a) * f for a, b, f, j in outs], axis=d)
    out = Cube.__new__(Cube)
    out.__dict__.update(new.__dict__)
    out._data = res
    out._dim_coords = [(cc, dd) for cc, dd in new._dim_coords if dd != d]
    out._aux_coords = [(cc, dd) for cc, dd in new._aux_coords if d not in dd]
    for src in cube.coords(dimensions=(d,)):
        vals = [src.points[j] + (src.points[j + 1] - src.points[j]) * f for a, b, f, j in outs]
        nc = src.copy(np.array(vals))
        if isinstance(nc, DimCoord) and src is c:
            out._dim_coords.append((nc, d))
        else:
            out._aux_coords.append((_to_aux(nc), (d,)))
    if scalar:
        out = out[(slice(None),) * d + (0,)]
    return out


def _is_scalar_key(k):
    if isinstance(k, slice) or isinstance(k, (list, tuple)):
        return False
    if hasattr(k, "ndim"):
        return k.ndim == 0
    return True


def _same(a, b):
    return bool(a == b)


# ------------------------------------------------------------------ constraints
class Constraint(object):
    def __init__(self, name=None, cube_func=None, coord_values=None, **kwargs):
        self._name = name
        self._cube_func = cube_func
        self._coord_values = dict(coord_values or {})
        self._coord_values.update(kwargs)
        self._parts = None

    def __and__(self, o):
        c = Constraint()
        c._parts = [self, _as_constraint(o)]
        return c

    __rand__ = __and__

    def extract(self, cube):
        if self._parts:
            for p in self._parts:
                cube = p.extract(cube)
                if cube is None:
                    return None
            return cube
        if self._name is not None and self._name not in (cube.name(), cube.standard_name, cube.long_name,
                                                         cube.var_name):
            return None
        if self._cube_func is not None and not self._cube_func(cube):
            return None
        key = [slice(None)] * cube.ndim
        for cname, val in self._coord_values.items():
            cs = cube.coords(cname)
            if not cs:
                return None
            c = cs[0]
            if c.ndim != 1:
                raise CoordinateMultiDimError("Extraction only supports 1-d coordinates")
            keep = []
            for i, cell in enumerate(c.cells()):
                if callable(val):
                    ok = bool(val(cell))
                elif isinstance(val, (list, tuple, set)) or (hasattr(val, "__iter__") and not isinstance(
                        val, (str, Cell))):
                    ok = any(bool(_cell_eq(cell, v)) for v in val)
                else:
                    ok = bool(_cell_eq(cell, val))
                if ok:
                    keep.append(i)
            if not keep:
                return None
            d = cube.coord_dims(c)
            if d:
                n = c.shape[0]
                if len(keep) == 1:      # a length-one dimension becomes a scalar coordinate, as in iris
                    k = keep[0]
                elif len(keep) == n:
                    continue
                elif keep == list(range(keep[0], keep[-1] + 1)):
                    k = slice(keep[0], keep[-1] + 1)
                else:
                    k = keep
                if not (isinstance(key[d[0]], slice) and key[d[0]] == slice(None)):
                    # several constraints on one dimension: intersect
                    prev = key[d[0]]
                    prev = [prev] if isinstance(prev, int) else list(range(prev.start, prev.stop)) if isinstance(
                        prev, slice) else prev
                    now = [q for q in keep if q in prev]
                    if not now:
                        return None
                    k = now[0] if len(now) == 1 else now
                key[d[0]] = k
        if all(isinstance(k, slice) and k == slice(None) for k in key):
            return cube
        return cube[tuple(key)]


def _cell_eq(cell, v):
    if isinstance(v, str) or isinstance(cell.point, str):
        return str(cell.point) == str(v)
    return cell == v


class AttributeConstraint(Constraint):
    def __init__(self, **attributes):
        Constraint.__init__(self, cube_func=lambda c: all(
            k in c.attributes and (v(c.attributes[k]) if callable(v) else c.attributes[k] == v)
            for k, v in attributes.items()))
        self._attributes = attributes


class NameConstraint(Constraint):
    def __init__(self, standard_name=None, long_name=None, var_name=None, **k):
        Constraint.__init__(self, cube_func=lambda c: (standard_name in (None, c.standard_name)) and (
            long_name in (None, c.long_name)) and (var_name in (None, c.var_name)))


def _as_constraint(c):
    if c is None:
        return Constraint()
    if isinstance(c, Constraint):
        return c
    return Constraint(name=c)


# ------------------------------------------------------------------ cube lists
class CubeList(list):
    def __init__(self, cubes=()):
        list.__init__(self, cubes)
        for c in self:
            if not isinstance(c, Cube) and not hasattr(c, "add_aux_coord"):
                raise ValueError("All items in list_of_cubes must be Cube instances, but found %r" % (c,))

    def __add__(self, o):
        return CubeList(list.__add__(self, o))

    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        return CubeList(r) if isinstance(k, slice) else r

    def copy(self):
        return CubeList(list(self))

    def extract(self, constraints, strict=False):
        if isinstance(constraints, (str, Constraint)) or constraints is None:
            constraints = [constraints]
        out = CubeList()
        for con in constraints:
            con = _as_constraint(con)
            for c in self:
                r = con.extract(c)
                if r is not None:
                    out.append(r)
        if strict:
            if len(out) != len(constraints):
                raise ConstraintMismatchError("Got %d cubes for constraint" % len(out))
            if len(constraints) == 1:
                return out[0]
        return out

    def extract_cube(self, con):
        r = self.extract(con)
        if len(r) != 1:
            raise ConstraintMismatchError("Got %d cubes for constraint %r, expecting 1." % (len(r), con))
        return r[0]

    def extract_cubes(self, cons):
        out = CubeList()
        for con in cons if not isinstance(cons, (str, Constraint)) else [cons]:
            r = self.extract(con)
            if len(r) != 1:
                raise ConstraintMismatchError("Got %d cubes for constraint" % len(r))
            out.append(r[0])
        return out

    def merge(self, unique=True):
        return _merge(self)

    def merge_cube(self):
        if not self:
            raise ValueError("can't merge an empty CubeList")
        names = set(c.name() for c in self)
        if len(names) > 1:
            raise MergeError("failed to merge into a single cube.\n  cube names differ: %s" % ", ".join(sorted(names)))
        r = _merge(self)
        if len(r) != 1:
            raise MergeError("failed to merge into a single cube.")
        return r[0]

    def concatenate(self, *a, **k):
        return CubeList([_concat(self)])

    def concatenate_cube(self, *a, **k):
        return _concat(self)

    def realise_data(self):
        pass


def _shape_key(c):
    return tuple(str(n) for n in c.shape)


def _merge(cubes):
    groups = []
    for c in cubes:
        for g in groups:
            r = g[0]
            if (r.metadata == c.metadata and len(r.shape) == len(c.shape) and r.shape == c.shape
                    and [x.name() for x in r.dim_coords] == [x.name() for x in c.dim_coords]
                    and all(a == b for a, b in zip(r.dim_coords, c.dim_coords))
                    and set(x.name() for x in r.coords()) == set(x.name() for x in c.coords())
                    and all(_vec_equal(r, c, x) for x in r.aux_coords if r.coord_dims(x))):
                g.append(c)
                break
        else:
            groups.append([c])
    out = CubeList()
    for g in groups:
        out.extend(_merge_group(g))
    return out


def _vec_equal(r, c, x):
    y = c.coords(x.name())
    return bool(y) and bool(y[0] == x)


def _scalar_value(c):
    p = c.points[0]
    p = p.item() if hasattr(p, "item") else p
    b = None
    if c.bounds is not None:
        b = tuple((v.item() if hasattr(v, "item") else v) for v in c.bounds[0])
    return (p, b)


_HINTS = {"realization": 5, "forecast_reference_time": 0, "time": 1, "forecast_period": 2, "model_level_number": 4}


def _merge_group(g):
    if len(g) == 1:
        return [g[0].copy()]
    r = g[0]
    scal = [c.name() for c in r.aux_coords if not r.coord_dims(c)]
    vals = {n: [_scalar_value(c.coord(n)) for c in g] for n in scal}
    varying = [n for n in scal if any(v != vals[n][0] for v in vals[n][1:])]
    if not varying:
        raise DuplicateDataError("failed to merge into a single cube.\n  Duplicate cubes in this CubeList: %s" % r.name())
    n = len(g)

    def uniq(seq):
        out = []
        for v in seq:
            if v not in out:
                out.append(v)
        return out
    u = {k: uniq(vals[k]) for k in varying}
    numeric = {k: r.coord(k).points.dtype.kind in "iuf" for k in varying}
    # smallest independent set of coordinates spanning the cubes
    hints = ["time", "forecast_reference_time", "forecast_period", "model_level_number"]
    order = sorted(varying, key=lambda k: (not numeric[k], not isinstance(r.coord(k), DimCoord),
                                           hints.index(k) if k in hints else 9, k))
    chosen = None
    import itertools
    for size in range(1, len(order) + 1):
        for combo in itertools.combinations(order, size):
            tot = 1
            for k in combo:
                tot *= len(u[k])
            if tot == n and len(uniq([tuple(vals[k][i] for k in combo) for i in range(n)])) == n:
                chosen = list(combo)
                break
        if chosen:
            break
    if chosen is None:
        raise MergeError("failed to merge into a single cube.")
    chosen.sort(key=lambda k: (_HINTS.get(k, 9 if not k.startswith("real") else 3), k))
    axes = []
    for k in chosen:
        vs = u[k]
        vs = sorted(vs, key=lambda v: v[0]) if numeric[k] else vs
        axes.append(vs)
    table = {}
    for i in range(n):
        table[tuple(ax.index(vals[k][i]) for ax, k in zip(axes, chosen))] = i
    shape = tuple(len(a) for a in axes)
    anyma = any(np.ma.isMaskedArray(c.data) for c in g)

    def build(pre):
        if len(pre) == len(shape):
            return g[table[pre]].data
        parts = [build(pre + (j,)) for j in range(shape[len(pre)])]
        return np.ma.stack(parts, axis=0) if anyma else np.stack(parts, axis=0)
    data = build(())
    new = r.copy()
    off = len(shape)
    new._data = data
    new._dim_coords = [(c, d + off) for c, d in new._dim_coords]
    aux = []
    for c, ds in new._aux_coords:
        if ds:
            aux.append((c, tuple(d + off for d in ds)))
        elif c.name() not in varying:
            aux.append((c, ()))
    new._aux_coords = aux
    for ai, k in enumerate(chosen):
        idxs = []
        for j in range(shape[ai]):
            key = tuple(j if q == ai else 0 for q in range(len(shape)))
            idxs.append(table[key])
        srcs = [g[i].coord(k) for i in idxs]
        c = _stack_coord(srcs)
        if c.ndim == 1 and _numeric(c.points) and _monotonic(c.points):
            new._dim_coords.append((DimCoord.from_coord(c), ai))
        else:
            new._aux_coords.append((_to_aux(c), (ai,)))
    for k in varying:
        if k in chosen:
            continue
        # dependent coordinate: find the axes it varies along
        axes_dep = []
        for ai in range(len(shape)):
            for key in itertools.product(*[range(m) for m in shape]):
                key0 = tuple(0 if q == ai else key[q] for q in range(len(shape)))
                if vals[k][table[key]] != vals[k][table[key0]]:
                    axes_dep.append(ai)
                    break
        if len(axes_dep) == 1:
            ai = axes_dep[0]
            idxs = [table[tuple(j if q == ai else 0 for q in range(len(shape)))] for j in range(shape[ai])]
            new._aux_coords.append((_to_aux(_stack_coord([g[i].coord(k) for i in idxs])), (ai,)))
        else:
            sub = [shape[a] for a in axes_dep]
            srcs = []
            for key in itertools.product(*[range(m) for m in sub]):
                full_ = [0] * len(shape)
                for a, v in zip(axes_dep, key):
                    full_[a] = v
                srcs.append(g[table[tuple(full_)]].coord(k))
            c = _stack_coord(srcs)
            c = _to_aux(c)
            c._points = c._points.reshape(tuple(sub))
            if c._bounds is not None:
                c._bounds = c._bounds.reshape(tuple(sub) + (-1,))
            new._aux_coords.append((c, tuple(axes_dep)))
    new._data = data
    return [new]


def _stack_coord(srcs):
    c = _to_aux(srcs[0].copy())
    c._points = np.concatenate([s.points for s in srcs])
    if srcs[0].bounds is not None:
        c._bounds = np.concatenate([s.bounds for s in srcs])
    return c


def _concat(cubes):
    cubes = list(cubes)
    if len(cubes) == 1:
        return cubes[0].copy()
    r = cubes[0]
    dim = None
    for c, d in r._dim_coords:
        if any(not (x.coord(c.name()) == c) for x in cubes[1:]):
            dim = d
    if dim is None:
        raise ConcatenateError("failed to concatenate into a single cube.")
    name = [c for c, d in r._dim_coords if d == dim][0].name()
    cubes = sorted(cubes, key=lambda x: x.coord(name).points[0])
    anyma = any(np.ma.isMaskedArray(c.data) for c in cubes)
    data = (np.ma.concatenate if anyma else np.concatenate)([c.data for c in cubes], axis=dim)
    r = cubes[0]
    new = r.copy()
    new._data = data
    nd, na = [], []
    for c, d in new._dim_coords:
        if d == dim:
            sc = _stack_coord([x.coord(c.name()) for x in cubes])
            nd.append((DimCoord.from_coord(sc), d))
        else:
            nd.append((c, d))
    for c, ds in new._aux_coords:
        if dim in ds:
            sc = c.copy()
            ax = ds.index(dim)
            srcs = [x.coord(c.name()) for x in cubes]
            sc = _to_aux(sc)
            sc._points = np.concatenate([s.points for s in srcs], axis=ax)
            if srcs[0].bounds is not None:
                sc._bounds = np.concatenate([s.bounds for s in srcs], axis=ax)
            na.append((sc, ds))
        else:
            na.append((c, ds))
    new._dim_coords, new._aux_coords = nd, na
    return new


# ------------------------------------------------------------------ analysis
class Aggregator(object):
    def __init__(self, cell_method, call_func, units_func=None, lazy_func=None, **kwargs):
        self.cell_method = cell_method
        self.call_func = call_func
        self.units_func = units_func
        self._kwargs = kwargs

    def aggregate(self, data, axis, **kwargs):
        kw = dict(self._kwargs)
        kw.update(kwargs)
        return self.call_func(data, axis=axis, **kw)

    def update_metadata(self, cube, coords, **kwargs):
        cube.add_cell_method(CellMethod(self.cell_method, coords))
        if self.units_func is not None:
            cube.units = self.units_func(cube.units)

    def post_process(self, cube, data, coords, **kwargs):
        if not _meq(cube, data):
            cube._data = data
        return cube

    def name(self):
        return self.cell_method


def _meq(cube, data):
    return cube._data is data


class WeightedAggregator(Aggregator):
    def uses_weighting(self, **k):
        return k.get("weights") is not None


def _mean(data, axis=None, weights=None, **k):
    if weights is not None:
        return (np.ma.average if np.ma.isMaskedArray(data) else np.average)(data, axis=axis, weights=weights)
    return data.mean(axis=axis)


def _wsum(data, axis=None, weights=None, **k):
    return (data * weights).sum(axis=axis) if weights is not None else data.sum(axis=axis)


def _pct(data, axis=None, percent=None, **k):
    if hasattr(percent, "__iter__"):
        r = np.percentile(data, percent, axis=axis)
        return np.moveaxis(r, 0, -1)
    return np.percentile(data, percent, axis=axis)


class _PercentileAggregator(Aggregator):
    def update_metadata(self, cube, coords, **kwargs):
        pass

    def post_process(self, cube, data, coords, percent=None, **kwargs):
        name = "percentile_over_" + "_".join(c.name() for c in coords)
        if hasattr(percent, "__iter__"):
            c = DimCoord(np.array(list(percent)), long_name=name, units="percent")
            cube._data = data
            cube.add_dim_coord(c, data.ndim - 1)
        else:
            cube._data = data
            cube.add_aux_coord(AuxCoord(np.array(percent), long_name=name, units="percent"))
        return cube


MEAN = WeightedAggregator("mean", _mean)
SUM = WeightedAggregator("sum", _wsum)
MAX = Aggregator("maximum", lambda d, axis=None, **k: d.max(axis=axis))
MIN = Aggregator("minimum", lambda d, axis=None, **k: d.min(axis=axis))
VARIANCE = Aggregator("variance", lambda d, axis=None, ddof=1, **k: np.var(d, axis=axis, ddof=ddof))
STD_DEV = Aggregator("standard_deviation", lambda d, axis=None, ddof=1, **k: np.std(d, axis=axis, ddof=ddof))
MEDIAN = Aggregator("median", lambda d, axis=None, **k: np.median(d, axis=axis))
PERCENTILE = _PercentileAggregator("percentile", _pct)


class Linear(object):
    def __init__(self, extrapolation_mode="linear"):
        self.extrapolation_mode = extrapolation_mode


class Nearest(Linear):
    pass


class AreaWeighted(object):
    def __init__(self, mdtol=1):
        self.mdtol = mdtol


def rotate_winds(u, v, target_cs):
    raise NotImplementedError("rotate_winds")


# ------------------------------------------------------------------ util
def new_axis(cube, scalar_coord=None):
    new = cube.copy()
    new._data = cube.data[np.newaxis, ...].copy() if True else None
    new._dim_coords = [(c, d + 1) for c, d in new._dim_coords]
    aux = []
    for c, ds in new._aux_coords:
        aux.append((c, tuple(d + 1 for d in ds)))
    new._aux_coords = aux
    if scalar_coord is not None:
        c = new.coord(scalar_coord)
        if new.coord_dims(c):
            raise ValueError("is not a scalar coordinate.")
        new._aux_coords = [(x, d) for x, d in new._aux_coords if x is not c]
        new.add_dim_coord(DimCoord.from_coord(c), 0)
    return new


def squeeze(cube):
    key = tuple(0 if (isinstance(n, int) and n == 1) else slice(None) for n in cube.shape)
    return cube[key] if any(k == 0 and not isinstance(k, slice) for k in key) else cube


def broadcast_to_shape(array, shape, dim_map):
    # place the array's axes at dim_map, then broadcast
    order = sorted(range(len(dim_map)), key=lambda k: dim_map[k])
    a = array.transpose(order) if order != list(range(len(order))) else array
    dm = sorted(dim_map)
    key = [np.newaxis] * len(shape)
    for d in dm:
        key[d] = slice(None)
    a = a[tuple(key)]
    if np.ma.isMaskedArray(array):
        return np.ma.masked_array(np.broadcast_to(a.data, shape), mask=np.broadcast_to(np.ma.getmaskarray(a), shape))
    return np.broadcast_to(a, shape)


def promote_aux_coord_to_dim_coord(cube, name):
    c = cube.coord(name)
    d = cube.coord_dims(c)
    if not d or (isinstance(c, DimCoord) and c in cube.dim_coords):
        return
    olds = cube.coords(dimensions=d, dim_coords=True)
    for o in olds:
        cube.remove_coord(o)
    cube.remove_coord(c)
    cube.add_dim_coord(DimCoord.from_coord(c), d[0])
    for o in olds:
        cube.add_aux_coord(_to_aux(o), d)


def demote_dim_coord_to_aux_coord(cube, name):
    c = cube.coord(name)
    d = cube.coord_dims(c)
    cube.remove_coord(c)
    cube.add_aux_coord(c, d)


def equalise_attributes(cubes):
    common = None
    for c in cubes:
        items = {k for k in c.attributes}
        common = items if common is None else common & items
    for k in list(common or ()):
        if any(bool(np.any(c.attributes[k] != cubes[0].attributes[k])) for c in cubes):
            common.discard(k)
    for c in cubes:
        for k in list(c.attributes):
            if k not in common:
                c.attributes.pop(k)


def is_regular(coord):
    d = np.diff(coord.points)
    return bool(np.all(np.isclose(d, d[0])))


def regular_step(coord):
    return (coord.points[-1] - coord.points[0]) / (len(coord.points) - 1)


def _noload(*a, **k):
    raise IOError("loading is not available")


class _Flag(object):
    """iris.FUTURE and friends"""


# ------------------------------------------------------------------ module tree
def modules():
    def mod(name, **k):
        m = _types.ModuleType(name)
        m.__dict__.update(k)
        m.__path__ = []
        return m
    exc = mod("iris.exceptions", CoordinateNotFoundError=CoordinateNotFoundError,
              ConstraintMismatchError=ConstraintMismatchError, CoordinateCollapseError=CoordinateCollapseError,
              InvalidCubeError=InvalidCubeError, MergeError=MergeError,
              ConcatenateError=ConcatenateError, UnitConversionError=UnitConversionError,
              CoordinateMultiDimError=CoordinateMultiDimError, DuplicateDataError=DuplicateDataError,
              TranslationError=TranslationError)
    cube = mod("iris.cube", Cube=Cube, CubeList=CubeList, CubeMetadata=CubeMetadata)
    coords = mod("iris.coords", Coord=Coord, DimCoord=DimCoord, AuxCoord=AuxCoord, CellMethod=CellMethod, Cell=Cell,
                 CellMeasure=CellMeasure, AncillaryVariable=AncillaryVariable)
    cs = mod("iris.coord_systems", CoordSystem=CoordSystem, GeogCS=GeogCS,
             LambertAzimuthalEqualArea=LambertAzimuthalEqualArea, TransverseMercator=TransverseMercator,
             Stereographic=Stereographic, RotatedGeogCS=RotatedGeogCS)
    cart = mod("iris.analysis.cartography", rotate_winds=rotate_winds)
    ana = mod("iris.analysis", Aggregator=Aggregator, WeightedAggregator=WeightedAggregator, MEAN=MEAN, SUM=SUM,
              MAX=MAX, MIN=MIN, VARIANCE=VARIANCE, STD_DEV=STD_DEV, MEDIAN=MEDIAN, PERCENTILE=PERCENTILE,
              Linear=Linear, Nearest=Nearest, AreaWeighted=AreaWeighted, cartography=cart)
    util = mod("iris.util", new_axis=new_axis, squeeze=squeeze, broadcast_to_shape=broadcast_to_shape,
               promote_aux_coord_to_dim_coord=promote_aux_coord_to_dim_coord, equalise_attributes=equalise_attributes,
               demote_dim_coord_to_aux_coord=demote_dim_coord_to_aux_coord, guess_coord_axis=guess_coord_axis,
               is_regular=is_regular, regular_step=regular_step)
    time = mod("iris.time", PartialDateTime=PartialDateTime)
    std = mod("iris.std_names", STD_NAMES=STD_NAMES)
    nc = mod("iris.fileformats.netcdf", save=_noload)
    ff = mod("iris.fileformats", netcdf=nc)
    cons = mod("iris._constraints", Constraint=Constraint)
    top = mod("iris", cube=cube, coords=coords, coord_systems=cs, analysis=ana, util=util, exceptions=exc, time=time,
              std_names=std, fileformats=ff, Constraint=Constraint, AttributeConstraint=AttributeConstraint,
              NameConstraint=NameConstraint, load=_noload, load_cube=_noload, load_cubes=_noload, load_raw=_noload,
              save=_noload, __version__="3.0.3", FUTURE=_Flag())
    return {m.__name__: m for m in (top, exc, cube, coords, cs, ana, cart, util, time, std, nc, ff, cons)}
