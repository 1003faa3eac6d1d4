import datetime as _dt

from vc import contract
from _cubes import EPOCH, cube, realization, yx

MOD = "improver.utilities.temporal_interpolation"
TI = MOD + ":TemporalInterpolation"
T0 = 1510286400            # 2017-11-10 04:00
BASE = _dt.datetime(2017, 11, 10, 4)
FRT = T0 - 4 * 3600


def at_time(c, d, t, period=None, units="K", name="air_temperature", lead=(), grid=None):
    """field valid t seconds after T0"""
    np = c.np
    D = c.iris.coords.DimCoord
    y, x = grid or yx(c, d.shape[-2], d.shape[-1])
    tb = None if period is None else np.array([T0 + t - period, T0 + t], dtype=np.int64)
    fb = None if period is None else np.array([4 * 3600 + t - period, 4 * 3600 + t], dtype=np.int32)
    aux = [(D(np.array(T0 + t, dtype=np.int64), standard_name="time", units=EPOCH, bounds=tb), None),
           (D(np.array(FRT, dtype=np.int64), standard_name="forecast_reference_time", units=EPOCH), None),
           (D(np.array(4 * 3600 + t, dtype=np.int32), standard_name="forecast_period", units="seconds", bounds=fb), None)]
    return cube(c, d, name, units, list(lead) + [y, x], aux)


def whole(a):
    return int(a) if not hasattr(a, "t") else a


@contract("C06", TI + ".construct_time_list", trials=300)
def time_list_from_interval(c):
    """with an interval that divides the window, the times are the multiples of the interval up to the window's end; any
    other interval is refused"""
    mins = c.choice("interval", [5, 60, 420, 1000])
    d = c.int("window", 60, 4 * 86400)
    if not c.symbolic and c.flag("fits"):
        d = (d // (60 * mins) + 1) * 60 * mins
    c.assume(d <= 4 * 60 * mins)
    if c.symbolic:
        u = c.iris.coords.DimCoord(c.np.array([T0, T0 + d], dtype=c.np.int64), standard_name="time", units=EPOCH)
        a, b = [x.point for x in u.cells()]
    else:
        a, b = BASE, BASE + _dt.timedelta(seconds=int(d))
    raised, r = c.raises(ValueError, lambda: c.mod(MOD).TemporalInterpolation(
        interval_in_minutes=mins).construct_time_list(a, b))
    fits = d % (60 * mins) == 0
    c.check("refused exactly when it does not divide the window", c.iff(raised, c.not_(fits)))
    if raised:
        return
    name, lst = r[0]
    c.check("coordinate", name == "time")
    c.check("number of times", d == 60 * mins * len(lst))
    for k, t in enumerate(lst):
        c.check("multiple of the interval", (t - a).total_seconds() == 60 * mins * (k + 1))


@contract("C06", TI + ".construct_time_list", trials=300)
def time_list_from_times(c):
    """requested times outside the window are refused; otherwise the times are those requested and the window's end"""
    d = c.choice("window", [3 * 3600, 30 * 3600])
    offs = [c.int("o%d" % k, -3600, 31 * 3600) for k in range(2)]
    if c.symbolic:
        D = c.iris.coords.AuxCoord
        u = D(c.np.array([T0 + o for o in offs], dtype=c.np.int64), standard_name="time", units=EPOCH)
        times = [x.point for x in u.cells()]
    else:
        times = [BASE + _dt.timedelta(seconds=int(o)) for o in offs]
    a, b = BASE, BASE + _dt.timedelta(seconds=d)
    raised, r = c.raises(ValueError, lambda: c.mod(MOD).TemporalInterpolation(times=list(times)).construct_time_list(a, b))
    inside = c.and_(*[c.and_(o >= 0, o <= d) for o in offs])
    c.check("refused exactly when outside", c.iff(raised, c.not_(inside)))
    if raised:
        return
    lst = r[0][1]
    for o, t in zip(offs, times):
        c.check("requested time kept", c.or_(*[x == t for x in lst]))
    c.check("window's end kept", c.or_(*[x == b for x in lst]))
    for x in lst:
        c.check("nothing else", c.or_(x == b, *[x == t for t in times]))


def linear(kind):
    @contract("C06", [TI + ".process", TI + ".enforce_time_coords_dtype"], budget=120, trials=200, suffix="_" + kind)
    def process_linear(c):
        """each interpolated field is the time-weighted average of the two inputs, between them, and the last field
        reproduces the later input"""
        mins, steps = c.choice("grid", [(60, 3), (15, 2), (720, 3), (1440, 2), (40, 1)])
        d = 60 * mins * steps
        ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
        lead = kind == "realization"
        sh = (2, ny, nx) if lead else (ny, nx)
        a, b = c.array("a", sh, lo=200, hi=300), c.array("b", sh, lo=200, hi=300)
        a0, b0 = c.snap(a), c.snap(b)
        ld = [realization(c, 2)] if lead else []
        P = c.mod(MOD).TemporalInterpolation
        if kind == "times":
            ts = [60 * mins * (k + 1) for k in range(steps)]
            p = P(times=[BASE + _dt.timedelta(seconds=t) for t in ts])
        else:
            p = P(interval_in_minutes=mins)
        r = p.process(at_time(c, a, 0, lead=ld), at_time(c, b, d, lead=ld))
        c.check("number of fields", len(r) == steps)
        q = (c.choice("member", [0, 1]),) if lead else ()
        q = q + tuple(c.index("cell", (ny, nx)))
        for k, cu in enumerate(r):
            w = (k + 1.0) / steps
            va, vb, v = c.at(a0, *q), c.at(b0, *q), c.at(cu.data, *q)
            c.check("time", c.and_(cu.coord("time").points[0] == T0 + 60 * mins * (k + 1),
                                   cu.coord("forecast_period").points[0] == 4 * 3600 + 60 * mins * (k + 1)))
            c.check("time-weighted average", c.near(v, va * (1 - w) + vb * w, 1e-2))
            c.check("between the inputs", c.and_(c.le(c.min(va, vb), v + 1e-3), c.ge(c.max(va, vb), v - 1e-3)))
            c.check("time types", c.and_(c.dtype_is(cu.coord("time").points, "int64"),
                                         c.dtype_is(cu.coord("forecast_period").points, "int32")))
        c.check("end reproduced", c.near(c.at(r[-1].data, *q), c.at(b0, *q), 1e-3))


for _k in ("interval", "times", "realization"):
    linear(_k)


@contract("C06", [TI + ".process", TI + "._calculate_accumulation", TI + ".add_bounds"], budget=120, trials=200)
def process_accumulation(c):
    """interpolated period accumulations are non-negative, cover the period without gaps and sum to the original"""
    mins, steps = c.choice("grid", [(60, 3), (30, 2), (720, 3), (1440, 1)])
    d = 60 * mins * steps
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    a, b = c.array("a", (ny, nx), lo=0, hi=100), c.array("b", (ny, nx), lo=0, hi=100)
    if not c.symbolic and c.flag("dry"):
        a *= (a > 60)
        b *= (b > 60)
    b0 = c.snap(b)
    p = c.mod(MOD).TemporalInterpolation(interval_in_minutes=mins, accumulation=True)
    r = p.process(at_time(c, a, 0, d, "mm", "lwe_thickness"), at_time(c, b, d, d, "mm", "lwe_thickness"))
    c.check("number of periods", len(r) == steps)
    q = tuple(c.index("cell", (ny, nx)))
    vals = [c.at(cu.data, *q) for cu in r]
    for v in vals:
        c.check("never missing, never negative", c.and_(c.not_(c.isnan(v)), c.ge(v, 0)))
    c.check("conserved", c.near(c.sum_list(vals), c.at(b0, *q), 1e-2))
    if steps > 1:
        for k, cu in enumerate(r):
            lo, hi = cu.coord("time").bounds[0]
            c.check("contiguous periods", c.and_(lo == T0 + 60 * mins * k, hi == T0 + 60 * mins * (k + 1)))


@contract("C06", [TI + ".process", TI + ".add_bounds"], budget=120, trials=200)
def process_extremes(c):
    """an interpolated maximum (minimum) never exceeds (falls below) the maximum (minimum) of the whole period"""
    mins, steps = c.choice("grid", [(60, 3), (720, 3)])
    d = 60 * mins * steps
    hi = c.flag("max")
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    a, b = c.array("a", (ny, nx), lo=200, hi=300), c.array("b", (ny, nx), lo=200, hi=300)
    a0, b0 = c.snap(a), c.snap(b)
    p = c.mod(MOD).TemporalInterpolation(interval_in_minutes=mins, max=hi, min=not hi)
    r = p.process(at_time(c, a, 0, d), at_time(c, b, d, d))
    q = tuple(c.index("cell", (ny, nx)))
    for k, cu in enumerate(r):
        w = (k + 1.0) / steps
        vb, v = c.at(b0, *q), c.at(cu.data, *q)
        e = c.at(a0, *q) * (1 - w) + vb * w
        c.check("limited by the period's extreme", c.le(v, vb) if hi else c.ge(v, vb))
        c.check("linear within the limit", c.near(v, c.min(e, vb) if hi else c.max(e, vb), 1e-2))


@contract("C06", TI + ".__init__", trials=60)
def constructor_refuses(c):
    """exactly one of interval and times is required; at most one period type, and only with linear interpolation"""
    P = c.mod(MOD).TemporalInterpolation
    fl = [c.flag(k) for k in ("interval", "times", "acc", "max", "min")]
    meth = c.choice("method", ["linear", "solar", "daynight", "cubic"])
    raised, r = c.raises(ValueError, lambda: P(
        60 if fl[0] else None, [BASE] if fl[1] else None, meth, fl[2], fl[3], fl[4]))
    n = int(fl[2]) + int(fl[3]) + int(fl[4])
    bad = fl[0] == fl[1] or meth == "cubic" or n > 1 or (n == 1 and meth != "linear")
    c.check("refusal", raised == bad)


@contract("C06", [TI + ".solar_interpolate", TI + ".process"], budget=120, trials=60)
def process_solar(c):
    """solar interpolation: zero where the sun is down, else the linear interpolation of value over sine of elevation,
    times the sine of elevation at the time"""
    mins, steps = c.choice("grid", [(60, 3), (720, 3), (1440, 2)])
    d = 60 * mins * steps
    lead = c.flag("lead")
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    sh = (2, ny, nx) if lead else (ny, nx)
    a, b = c.array("a", sh, lo=0, hi=300), c.array("b", sh, lo=0, hi=300)
    a0, b0 = c.snap(a), c.snap(b)
    S = [c.array("s%d" % k, (ny, nx), dtype="float64", lo=-1 if 0 < k < steps else 0.1, hi=1) for k in range(steps + 1)]

    def sin_phi(dtval, lats, lons):
        return S[int((dtval - BASE).total_seconds() / (60 * mins) + 0.5)]
    lats = c.np.zeros((ny, nx))
    if c.symbolic:
        c.cut(TI + ".calc_sin_phi", sin_phi)
        c.cut(TI + ".calc_lats_lons", lambda cu: (lats, lats))
        P = c.mod(MOD).TemporalInterpolation
    else:
        class P(c.mod(MOD).TemporalInterpolation):
            calc_sin_phi = staticmethod(sin_phi)
            calc_lats_lons = staticmethod(lambda cu: (lats, lats))
    ld = [realization(c, 2)] if lead else []
    r = P(interval_in_minutes=mins, interpolation_method="solar").process(at_time(c, a, 0, lead=ld), at_time(c, b, d, lead=ld))
    g = tuple(c.index("cell", (ny, nx)))
    q = ((c.choice("member", [0, 1]),) if lead else ()) + g
    s0, s1 = c.at(S[0], *g), c.at(S[-1], *g)
    for k, cu in enumerate(r):
        w = (k + 1.0) / steps
        s, v = c.at(S[k + 1], *g), c.at(cu.data, *q)
        pa, pb = c.at(a0, *q) / s0, c.at(b0, *q) / s1
        c.check("night", c.implies(s <= 0, c.eq(v, 0.0)))
        c.check("day", c.implies(s > 0, c.near(v, s * (pa + (pb - pa) * w), 0.05)))


@contract("C06", [TI + ".daynight_interpolate", TI + ".process"], budget=120, trials=40)
def process_daynight(c):
    """day-night interpolation: zero where the day-night mask of that time says night, else the linear interpolation"""
    lead = c.flag("lead")
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    sh = (2, ny, nx) if lead else (ny, nx)
    a, b = c.array("a", sh, lo=1, hi=300), c.array("b", sh, lo=1, hi=300)
    a0, b0 = c.snap(a), c.snap(b)
    mins, steps = 120, 2
    np = c.np
    S = "improver.utilities.solar"
    if c.symbolic:
        M = c.array("day", (steps, ny, nx), dtype="int32", values=[0, 1])

        def mask(self, cu):
            cu = next(cu.slices(["time", "latitude", "longitude"]))
            if lead:
                cu.remove_coord("realization")
            return cu.copy(data=M)
        c.cut(S + ":DayNightMask.process", mask)
    ld = [realization(c, 2)] if lead else []
    p = c.mod(MOD).TemporalInterpolation(interval_in_minutes=mins, interpolation_method="daynight")
    grid = yx(c, ny, nx, "latlon", 20.0, 40.0, -60.0, -150.0)
    r = p.process(at_time(c, a, 0, lead=ld, grid=grid), at_time(c, b, 60 * mins * steps, lead=ld, grid=grid))
    g = tuple(c.index("cell", (ny, nx)))
    m = (c.choice("member", [0, 1]),) if lead else ()
    for k, cu in enumerate(r):
        w = (k + 1.0) / steps
        if c.symbolic:
            day = c.at(M, k, *g) == 1
        else:
            one = cu[0] if lead else cu
            day = bool(c.mod(S).DayNightMask()(one).data[g] == 1)
        v = c.at(cu.data, *(m + g))
        e = c.at(a0, *(m + g)) * (1 - w) + c.at(b0, *(m + g)) * w
        c.check("night is zero", c.or_(day, c.eq(v, 0.0)))
        c.check("day is linear", c.implies(day, c.near(v, e, 1e-2)))


@contract("C06", [TI + ".process"], kind="bounded", trials=150)
def process_directions(c):
    """directions are interpolated along the shorter arc, stay within [0, 360) and reproduce the inputs at the end"""
    np = c.np
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    a, b = c.array("a", (ny, nx), lo=0, hi=359), c.array("b", (ny, nx), lo=0, hi=359)
    a0, b0 = c.snap(a), c.snap(b)
    r = c.mod(MOD).TemporalInterpolation(interval_in_minutes=60).process(
        at_time(c, a, 0, units="degrees", name="wind_from_direction"),
        at_time(c, b, 7200, units="degrees", name="wind_from_direction"))
    turn = (b0 - a0 + 180.0) % 360.0 - 180.0
    mid, end = r[0].data, r[1].data
    for v in (mid, end):
        c.check("range", bool(np.all((v >= 0) & (v < 360))))
    near = lambda x, y, t: np.abs((x - y + 180.0) % 360.0 - 180.0) < t
    c.check("end", bool(np.all(near(end, b0, 0.1))))
    c.check("shorter arc", bool(np.all(near(mid, a0 + turn / 2, 0.5) | (np.abs(turn) > 170))))
