import datetime as _dt
from vc import contract
from _cubes import EPOCH, cube, realization, yx

F = "improver.metadata.forecast_times"
T = "improver.utilities.temporal"
S = "improver.standardise"
CK = "improver.metadata.check_datatypes"
BASE = 1510286400            # 2017-11-10 04:00
DAY = 86400


def _arr(c, vals, dtype):
    """a one-dimensional (or, for a single value, scalar) array of numbers or unknowns"""
    np = c.np
    if c.symbolic:
        return np.array(vals, dtype=getattr(np, dtype))
    return np.array(vals if not isinstance(vals, list) else [[int(x) for x in v] if isinstance(v, list) else int(v) for v in vals],
                    dtype=dtype)


def _times(c, name, n, lo=-400 * DAY, hi=400 * DAY, rising=True):
    ts = [BASE + c.int("%s%d" % (name, k), lo, hi) for k in range(n)]
    if rising:
        if not c.symbolic:
            ts = sorted(ts)
            ts = [t + k for k, t in enumerate(ts)]
        else:
            for a, b in zip(ts, ts[1:]):
                c.assume(a < b)
    return ts


def _same(c, a, *want):
    """every entry of a (nested lists of indices) equals what is wanted"""
    return c.and_(*[c.eq(c.at(a, *ix), w) for ix, w in want])


@contract("C22", [F + ":forecast_period_coord", F + ":_calculate_forecast_period", CK + ":check_mandatory_standards"], trials=200, max_paths=1500, budget=150)
def lead_times(c):
    """the lead time of every time (and of the ends of its period) is that time less the reference time that goes with it, in whole
    seconds"""
    n = c.choice("times", [0, 1, 2, 3])
    many = n > 1 and c.flag("own reference times")
    bounded = c.flag("bounded")
    ref = c.choice("reference", ["forecast_reference_time", "blend_time", "both"])
    had = c.choice("has", [None, "aux"] if many else [None, "aux", "dim"])
    ny, nx = c.dim("ny"), c.dim("nx")
    m = max(n, 1)
    ts = _times(c, "t", m)
    fs = _times(c, "f", m if many else 1)
    if ref == "both":
        c.assume(not many)
    ps = [c.int("p%d" % k, 0, 10 * DAY) for k in range(m)] if bounded else None
    np, D, A = c.np, c.iris.coords.DimCoord, c.iris.coords.AuxCoord
    bnd = [[t - p, t] for t, p in zip(ts, ps)] if bounded else None
    if bounded and n > 1:      # bounds of a dimension coordinate rise with it
        for k in range(n - 1):
            c.assume(bnd[k][0] <= bnd[k + 1][0])
    tc = (D if n else A)(_arr(c, ts, "int64"), standard_name="time", units=EPOCH, bounds=None if not bounded else _arr(c, bnd, "int64"))
    y, x = yx(c, ny, nx)
    sh = ((n,) if n else ()) + (ny, nx)
    cu = cube(c, c.array("d", sh, dtype="float32", lo=-8, hi=8), "air_temperature", "K", ([tc] if n else []) + [y, x])
    td = 0 if n else None
    if not n:
        cu.add_aux_coord(tc)
    names = ["forecast_reference_time", "blend_time"] if ref == "both" else [ref]
    for nm in names:
        kw = {"standard_name": nm} if nm != "blend_time" else {"long_name": nm}
        cu.add_aux_coord(A(_arr(c, fs, "int64"), units=EPOCH, **kw), td if many else None)
    kept = []
    if had:
        kept = [c.int("old%d" % k, 0, 10 * DAY) for k in range(1)]
        cu.add_aux_coord((D if had == "dim" else A)(_arr(c, kept, "int32"), standard_name="forecast_period", units="seconds",
                                                    attributes={"note": "x"}))
    force = c.flag("force")
    r = c.mod(F).forecast_period_coord(cu, force_lead_time_calculation=force)
    c.check("kind", r.name() == "forecast_period" and str(r.units) in ("seconds", "second", "s"))
    c.check("type", c.dtype_is(r.points, "int32"))
    if had and not force:
        c.check("kept", _same(c, r.points, ((0,), kept[0])))
        return
    if had:
        c.check("class", isinstance(r, D) == (had == "dim") and r.attributes == {"note": "x"})
    c.check("size", c.same_shape(r.points, (m,)))
    for k in range(m):
        f = fs[k] if many else fs[0]
        c.check("lead time", c.eq(c.at(r.points, k), ts[k] - f))
        if bounded:
            c.check("period", c.and_(c.eq(c.at(r.bounds, k, 0), bnd[k][0] - f), c.eq(c.at(r.bounds, k, 1), bnd[k][1] - f)))
    c.check("no period", bounded or r.bounds is None)


def _forecast(c, k, ny, nx, n=1, bounded=False, data=None, lead=None):
    """a forecast from cycle k with its own time(s)"""
    np, D, A = c.np, c.iris.coords.DimCoord, c.iris.coords.AuxCoord
    ts = _times(c, "t%d_" % k, n)
    f = BASE + c.int("f%d" % k, -400 * DAY, 400 * DAY)
    y, x = yx(c, ny, nx)
    bnd = [[t - 3600, t] for t in ts] if bounded else None
    tc = D(_arr(c, ts, "int64"), standard_name="time", units=EPOCH, bounds=None if not bounded else _arr(c, bnd, "int64"))
    dims = ([lead] if lead is not None else []) + ([tc] if n > 1 else []) + [y, x]
    d = data if data is not None else c.array("d%d" % k, ((n,) if n > 1 else ()) + (ny, nx), dtype="float32", lo=-8, hi=8)
    cu = cube(c, d, "air_temperature", "K", dims)
    td = None if n == 1 else (1 if lead is not None else 0)
    if n == 1:
        cu.add_aux_coord(tc)
    cu.add_aux_coord(A(_arr(c, [f], "int64"), standard_name="forecast_reference_time", units=EPOCH))
    cu.add_aux_coord(A(_arr(c, [t - f for t in ts], "int32"), standard_name="forecast_period", units="seconds",
                       bounds=None if not bounded else _arr(c, [[a - f, b - f] for a, b in bnd], "int32")), td)
    return cu, ts, f, d


@contract("C22", [F + ":rebadge_forecasts_as_latest_cycle", F + ":unify_cycletime", F + ":_find_latest_cycletime",
                  F + ":_create_frt_type_coord", F + ":add_blend_time", T + ":cycletime_to_datetime"], trials=120, budget=150,
          max_paths=1200)
def rebadged(c):
    """forecasts brought to one cycle (the one given, else the latest of them) keep their times, values and order; their lead times
    become those from that cycle; the inputs are not altered"""
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    m, n = c.choice("forecasts and times", [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)])
    bounded = c.flag("bounded")
    given = c.choice("cycle", [None, "20171110T0000Z", "20171111T0315Z"])
    fc = [_forecast(c, k, ny, nx, n, bounded) for k in range(m)]
    r = c.mod(F).rebadge_forecasts_as_latest_cycle(c.iris.cube.CubeList([f[0] for f in fc]), given)
    if given is None:
        want = fc[0][2]
        for f in fc[1:]:
            want = c.ite(f[2] > want, f[2], want)
    else:
        want = {"20171110T0000Z": BASE - 4 * 3600, "20171111T0315Z": BASE + 23 * 3600 + 900}[given]
    c.check("count", len(r) == m)
    i, j = c.index("point", (ny, nx))
    for q, (cu, ts, f, d) in zip(r, fc):
        c.check("cycle", _same(c, q.coord("forecast_reference_time").points, ((0,), want)))
        c.check("types", c.and_(c.dtype_is(q.coord("forecast_reference_time").points, "int64"),
                                c.dtype_is(q.coord("forecast_period").points, "int32")))
        for k in range(n):
            c.check("time", _same(c, q.coord("time").points, ((k,), ts[k])))
            c.check("lead time", _same(c, q.coord("forecast_period").points, ((k,), ts[k] - want)))
            if bounded:
                c.check("lead period", _same(c, q.coord("forecast_period").bounds, ((k, 0), ts[k] - 3600 - want), ((k, 1), ts[k] - want)))
            c.check("input lead time", _same(c, cu.coord("forecast_period").points, ((k,), ts[k] - f)))
            p = (k, i, j) if n > 1 else (i, j)
            c.check("data", c.eq(c.at(q.data, *p), c.at(d, *p)))
        c.check("lead time dimension", q.coord_dims("forecast_period") == q.coord_dims("time"))
        c.check("input cycle", _same(c, cu.coord("forecast_reference_time").points, ((0,), f)))
    if given:
        c.mod(F).add_blend_time(r[0], given)
        c.check("blend time", _same(c, r[0].coord("blend_time").points, ((0,), want)))


@contract("C22", ["improver.utilities.time_lagging:GenerateTimeLaggedEnsemble.process"], trials=80)
def time_lagged(c):
    """a time-lagged ensemble holds every member of every cycle exactly once, in order, at the latest cycle; members are renumbered
    only when two share a number"""
    ny, nx = c.dim("ny"), c.dim("nx")
    sets = c.choice("members", [((0, 1), (0, 1)), ((0, 1), (2, 3)), ((0,), (0, 1), (5,)), ((3, 4), (0, 1)), ((0, 1),), ((1, 2), (2, 4))])
    np, A = c.np, c.iris.coords.AuxCoord
    D = c.iris.coords.DimCoord
    t = BASE
    cubes, data, fr = c.iris.cube.CubeList([]), [], []
    for k, ms in enumerate(sets):
        d = c.array("d%d" % k, (len(ms), ny, nx), dtype="float32", lo=-8, hi=8)
        data.append(d)
        f = BASE + 3600 * c.choice("cycle %d" % k, [-3, -9])
        fr.append(f)
        y, x = yx(c, ny, nx)
        re = D(np.array(list(ms), dtype=np.int32), standard_name="realization", units="1")
        cu = cube(c, d, "air_temperature", "K", [re, y, x])
        cu.add_aux_coord(A(_arr(c, [t], "int64"), standard_name="time", units=EPOCH))
        cu.add_aux_coord(A(_arr(c, [f], "int64"), standard_name="forecast_reference_time", units=EPOCH))
        cu.add_aux_coord(A(_arr(c, [t - f], "int32"), standard_name="forecast_period", units="seconds"))
        cubes.append(cu)
    r = c.mod("improver.utilities.time_lagging").GenerateTimeLaggedEnsemble().process(cubes)
    flat = [(h, k, q) for k, ms in enumerate(sets) for q, h in enumerate(ms)]
    if len({h for h, _, _ in flat}) < len(flat):
        flat = [(n, k, q) for n, (_, k, q) in enumerate(flat)]
    flat.sort()
    pts = [int(v) for v in r.coord("realization").points]
    c.check("members", pts == [h for h, _, _ in flat])
    c.check("cycle", int(r.coord("forecast_reference_time").points[0]) == max(fr))
    c.check("lead time", int(r.coord("forecast_period").points[0]) == t - max(fr))
    i, j = c.index("point", (ny, nx))
    for n, (_, k, q) in enumerate(flat):
        c.check("value", c.eq(c.at(r.data, n, i, j), c.at(data[k], q, i, j)))
    for k, ms in enumerate(sets):
        c.check("inputs", [int(v) for v in cubes[k].coord("realization").points] == list(ms)
                and int(cubes[k].coord("forecast_reference_time").points[0]) == fr[k])


@contract("C22", [T + ":integrate_time", T + ":relabel_to_period"], trials=120)
def over_periods(c):
    """a rate integrated over time is, at each time, the rate times the length of that time's own period in seconds; relabelling gives
    exactly the period of the stated hours ending at the time"""
    ny, nx = c.dim("ny"), c.dim("nx")
    n = c.choice("times", [1, 2, 3])
    np, D = c.np, c.iris.coords.DimCoord
    ends = [BASE + 7200 * (k + 1) for k in range(n)]
    ls = [c.choice("length %d" % k, [3600, 7200, 1800]) for k in range(n)]
    c.assume(all(ends[k] - ls[k] < ends[k + 1] - ls[k + 1] for k in range(n - 1)))
    d = c.array("d", ((n,) if n > 1 else ()) + (ny, nx), dtype="float32", lo=0, hi=1)
    y, x = yx(c, ny, nx)
    tc = D(np.array(ends, dtype=np.int64), standard_name="time", units=EPOCH,
           bounds=np.array([[e - w, e] for e, w in zip(ends, ls)], dtype=np.int64))
    cu = cube(c, d.copy(), "rainfall_rate", "m s-1", ([tc] if n > 1 else []) + [y, x])
    if n == 1:
        cu.add_aux_coord(tc)
    cm = c.iris.coords.CellMethod
    cu.add_cell_method(cm("mean", coords="time"))
    cu.add_cell_method(cm("mean", coords="realization"))
    r = c.mod(T).integrate_time(cu, new_name="total")
    i, j = c.index("point", (ny, nx))
    for k in range(n):
        p = (k, i, j) if n > 1 else (i, j)
        c.check("amount", c.near(c.at(r.data, *p), c.at(d, *p) * ls[k], 1e-3))
        c.check("input kept", c.eq(c.at(cu.data, *p), c.at(d, *p)))
    c.check("units", str(r.units) == "m" or r.units == c.mod("cf_units").Unit("m"))
    c.check("name", r.name() == "total")
    c.check("methods", [(m.method, tuple(m.coord_names)) for m in r.cell_methods] == [("sum", ("time",)), ("mean", ("realization",))])
    if n == 1:
        h = c.choice("hours", [None, 0, 1, 6])
        cu.add_aux_coord(D(np.array([ends[0] - BASE], dtype=np.int32), standard_name="forecast_period", units="seconds"))
        bad, q = c.raises(ValueError, lambda: c.mod(T).relabel_to_period(cu, h))
        c.check("refused", bad == (h in (None, 0)))
        if not bad:
            c.check("period", [int(v) for v in q.coord("time").bounds[0]] == [ends[0] - 3600 * h, ends[0]])
            c.check("lead period", [int(v) for v in q.coord("forecast_period").bounds[0]] == [ends[0] - BASE - 3600 * h, ends[0] - BASE])


@contract("C22", [T + ":extract_nearest_time_point", T + ":datetime_to_iris_time", T + ":iris_time_to_datetime"], trials=200)
def nearest_time(c):
    """the field at the nearest time is returned, and one further away than allowed is refused"""
    ny, nx = c.dim("ny"), c.dim("nx")
    np, D = c.np, c.iris.coords.DimCoord
    offs = c.choice("times", [(0, 3600), (0, 3600, 10800), (0, 1800)])
    d = c.array("d", (len(offs), ny, nx), dtype="float32", lo=-8, hi=8)
    y, x = yx(c, ny, nx)
    cu = cube(c, d, "air_temperature", "K", [D(_arr(c, [BASE + o for o in offs], "int64"), standard_name="time", units=EPOCH), y, x])
    want = c.choice("wanted", [0, 1700, 1801, 3600, 5000, 9000, 14400, -600])
    allow = c.choice("allowed", [0, 900, 3600])
    dist = [abs(o - want) for o in offs]
    bad, r = c.raises(ValueError, lambda: c.mod(T).extract_nearest_time_point(
        cu, _dt.datetime(2017, 11, 10, 4) + _dt.timedelta(seconds=want), allowed_dt_difference=allow))
    c.check("refused", bad == (min(dist) > allow))
    if bad:
        return
    k = dist.index(min(dist))
    i, j = c.index("point", (ny, nx))
    c.check("time", int(r.coord("time").points[0]) == BASE + offs[k])
    c.check("value", c.eq(c.at(r.data, i, j), c.at(d, k, i, j)))


@contract("C22", [S + ":StandardiseMetadata.process", S + ":StandardiseMetadata._standardise_dtypes_and_units",
                  S + ":StandardiseMetadata._collapse_scalar_dimensions", CK + ":check_mandatory_standards",
                  CK + ":get_required_dtype", CK + ":check_units", CK + ":check_dtype"], trials=120)
def standardised(c):
    """standardising keeps every value (converted when asked), gives floats single precision and times their required units and types
    at the same instants, and turns length-one dimensions other than realizations into scalars"""
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    np, D, A = c.np, c.iris.coords.DimCoord, c.iris.coords.AuxCoord
    hours = c.flag("hours")
    dt = c.choice("type", ["float64", "float32", "int32"])
    one = c.choice("leading", [None, "height", "realization"])
    units = c.choice("new units", [None, "celsius"])
    ts = _times(c, "t", 1, rising=False)[0] if not hours else BASE + 3600 * c.int("h", -9000, 9000)
    d = c.array("d", ((1,) if one else ()) + (ny, nx), dtype=dt, lo=250, hi=300)
    y, x = yx(c, ny, nx)
    lead = [] if not one else [realization(c, 1)] if one == "realization" else [D(np.array([2.0], dtype=np.float64), long_name="height",
                                                                                  units="m")]
    cu = cube(c, d.copy(), "air_temperature", "K", lead + [y, x])
    if hours:
        pts = _arr(c, [ts], "int64") / 3600.0
        cu.add_aux_coord(A(pts, standard_name="time", units="hours since 1970-01-01 00:00:00"))
    else:
        cu.add_aux_coord(A(_arr(c, [ts], "int64"), standard_name="time", units=EPOCH))
    cu.add_aux_coord(A(np.array([3.0, ], dtype=np.float64), standard_name="forecast_period", units="hours",
                       bounds=np.array([[2.0, 3.0]], dtype=np.float64)))
    CM = c.iris.coords.CellMethod
    cu.add_cell_method(CM("point", coords="time"))
    cu.add_cell_method(CM("maximum", coords="time"))
    r = c.mod(S).StandardiseMetadata(new_name="other_temperature", new_units=units, coords_to_remove=["not there"]).process(cu)
    i, j = c.index("point", (ny, nx))
    p = ((0,) if one else ()) + (i, j)
    q = ((0,) if one == "realization" else ()) + (i, j)
    want = c.at(d, *p)
    if units:
        c.check("value", c.near(c.at(r.data, *q), want - 273.15, 1e-3))
    else:
        c.check("value", c.near(c.at(r.data, *q), want, 1e-3))
    c.check("shape", c.same_shape(r.data, ((1,) if one == "realization" else ()) + (ny, nx)))
    c.check("data type", c.dtype_is(r.data, "int32" if dt == "int32" and not units else "float32"))
    c.check("same instant", _same(c, r.coord("time").points, ((0,), ts)))
    c.check("time type", c.and_(c.dtype_is(r.coord("time").points, "int64"), c.dtype_is(r.coord("forecast_period").points, "int32"),
                                c.dtype_is(r.coord("forecast_period").bounds, "int32")))
    c.check("lead time", int(r.coord("forecast_period").points[0]) == 10800
            and [int(v) for v in r.coord("forecast_period").bounds[0]] == [7200, 10800])
    c.check("name", r.name() == "other_temperature" and str(r.units) == (units or "K"))
    c.check("methods", [m.method for m in r.cell_methods] == ["maximum"])
    if one == "height":
        c.check("height", c.and_(c.dtype_is(r.coord("height").points, "float32"), c.near(c.at(r.coord("height").points, 0), 2.0, 0)))
    c.mod(CK).check_mandatory_standards(r)


@contract("C22", [CK + ":check_mandatory_standards", CK + ":enforce_dtype", CK + ":get_required_units"], trials=60)
def standards_checked(c):
    """fields whose values, coordinates or bounds have the wrong type, or whose times have other units, are refused, and no others"""
    ny, nx = c.dim("ny"), c.dim("nx")
    np, A = c.np, c.iris.coords.AuxCoord
    fault = c.choice("fault", [None, "data", "coord", "bounds", "time type", "time units", "period type", "int data", "bool"])
    dt = {"data": "float64", "int data": "int64", "bool": "bool"}.get(fault, "float32")
    y, x = yx(c, ny, nx)
    cu = cube(c, c.array("d", (ny, nx), dtype=dt), "air_temperature", "K", [y, x])
    cu.add_aux_coord(A(np.array([BASE], dtype=np.int32 if fault == "time type" else np.int64), standard_name="time",
                       units="hours since 1970-01-01 00:00:00" if fault == "time units" else EPOCH))
    cu.add_aux_coord(A(np.array([3600], dtype=np.int64 if fault == "period type" else np.int32), standard_name="forecast_period",
                       units="seconds"))
    cu.add_aux_coord(A(np.array([1.5], dtype=np.float64 if fault == "coord" else np.float32), long_name="level", units="m",
                       bounds=np.array([[1.0, 2.0]], dtype=np.float64 if fault in ("bounds", "coord") else np.float32)))
    bad, _ = c.raises(ValueError, lambda: c.mod(CK).check_mandatory_standards(cu))
    c.check("refused", bad == (fault not in (None, "int data", "bool")))
    bad, _ = c.raises(TypeError, lambda: c.mod(CK).enforce_dtype("add", [cu], cu))
    c.check("promotion refused", bad == (fault == "data"))
