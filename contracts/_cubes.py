"""Cube builders shared by the contracts (work with either numpy)."""
import datetime as _dt


def dimcoord(c, name, pts, units, dtype="float32", **k):
    """pts: list of numbers, or an array"""
    D = c.iris.coords.DimCoord
    if isinstance(pts, list):
        pts = c.np.array(pts, dtype=dtype)
    std = k.pop("standard_name", None)
    if std is None and name in ("time", "forecast_period", "forecast_reference_time", "realization", "latitude", "longitude",
                                "projection_x_coordinate", "projection_y_coordinate", "height"):
        return D(pts, standard_name=name, units=units, **k)
    return D(pts, long_name=name, units=units, **k)


def affine(c, n, start, step, dtype="float32"):
    return c.from_fn((n,), lambda i: start + i * step, dtype)


def cube(c, data, name, units="1", dims=(), aux=(), attributes=None, cell_methods=None):
    """dims: coords in axis order; aux: (coord, dims) pairs"""
    C = c.iris.cube.Cube
    kw = {"long_name": name}
    if name in STD:
        kw = {"standard_name": name}
    return C(data, units=units, dim_coords_and_dims=[(d, i) for i, d in enumerate(dims) if d is not None],
             aux_coords_and_dims=[(a, d) for a, d in aux], attributes=attributes or {}, **kw)


STD = {"air_temperature", "wind_speed", "relative_humidity", "rainfall_rate", "surface_altitude", "land_binary_mask",
       "wind_from_direction", "wind_speed_of_gust", "lwe_precipitation_rate", "air_pressure", "specific_humidity"}


def yx(c, ny, nx, kind="equal_area", dy=2000.0, dx=2000.0, y0=0.0, x0=0.0):
    if kind == "equal_area":
        cs = c.iris.coord_systems.LambertAzimuthalEqualArea()
        return (dimcoord(c, "projection_y_coordinate", affine(c, ny, y0, dy), "m", coord_system=cs),
                dimcoord(c, "projection_x_coordinate", affine(c, nx, x0, dx), "m", coord_system=cs))
    cs = c.iris.coord_systems.GeogCS(6371229.0)
    return (dimcoord(c, "latitude", affine(c, ny, y0, dy), "degrees", coord_system=cs),
            dimcoord(c, "longitude", affine(c, nx, x0, dx), "degrees", coord_system=cs))


EPOCH = "seconds since 1970-01-01 00:00:00"


def time_coords(c, t=1510286400, frt=None, bounds=None):
    """scalar time, forecast_reference_time and forecast_period (seconds)"""
    np = c.np
    D = c.iris.coords.DimCoord
    frt = t - 4 * 3600 if frt is None else frt
    tb = None if bounds is None else np.array(bounds, dtype=np.int64)
    fb = None if bounds is None else np.array([b - frt for b in bounds], dtype=np.int32)
    return [(D(np.array(t, dtype=np.int64), standard_name="time", units=EPOCH, bounds=tb), None),
            (D(np.array(frt, dtype=np.int64), standard_name="forecast_reference_time", units=EPOCH), None),
            (D(np.array(t - frt, dtype=np.int32), standard_name="forecast_period", units="seconds", bounds=fb), None)]


def field(c, data, name, units="1", lead=(), kind="equal_area", aux=(), time=True, **k):
    """cube on a y,x grid; lead: leading dim coords"""
    ny, nx = data.shape[-2], data.shape[-1]
    y, x = yx(c, ny, nx, kind)
    a = list(aux)
    if time:
        a += time_coords(c)
    return cube(c, data, name, units, list(lead) + [y, x], a, **k)


def realization(c, n):
    return dimcoord(c, "realization", list(range(n)), "1", dtype="int32")


def threshold_coord(c, values, name="air_temperature", units="K", rel="greater_than"):
    pts = values if not isinstance(values, list) else c.np.array(values, dtype=c.np.float32)
    co = c.iris.coords.DimCoord(pts, long_name=None, standard_name=name if name in STD else None, units=units) \
        if name in STD else c.iris.coords.DimCoord(pts, long_name=name, units=units)
    co.var_name = "threshold"
    co.attributes["spp__relative_to_threshold"] = rel
    return co


def coord_points(cube_, name):
    return cube_.coord(name).points
