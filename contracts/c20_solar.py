import datetime as _dt

from vc import contract
from _cubes import EPOCH, cube, yx

MOD = "improver.utilities.solar"


@contract("C20", MOD + ":calc_solar_declination", trials=200)
def declination(c):
    """the declination follows the annual cosine, never beyond 23.5 degrees; days outside the year are refused"""
    d = c.int("day", -30, 400)
    raised, r = c.raises(ValueError, lambda: c.mod(MOD).calc_solar_declination(d))
    c.check("refused outside the year", c.iff(raised, c.or_(d < 0, d > 365)))
    if raised:
        return
    c.check("formula", c.near(r, -23.5 * c.f("cos", (0.9856 * d + 9.3) * c.pi / 180), 1e-6))
    c.check("range", c.and_(r >= -23.5, r <= 23.5))


@contract("C20", [MOD + ":calc_solar_time", MOD + ":calc_solar_hour_angle"], trials=200)
def solar_time(c):
    """local solar time is the hour plus one hour per 15 degrees plus the equation of time; normalised it lies in [0, 24)"""
    d, h = c.int("day", -5, 380), c.real("hour", -1, 26)
    n = c.dim("n")
    lon = c.array("lon", (n,), dtype="float64", lo=-180, hi=360)
    norm = c.flag("normalise")
    M = c.mod(MOD)
    raised, r = c.raises(ValueError, lambda: M.calc_solar_time(lon, d, h, normalise=norm))
    c.check("refused", c.iff(raised, c.or_(d < 0, d > 365, h < 0, h > 24)))
    if raised:
        return
    th = 2 * c.pi * d / 365
    eq = 0.000075 + 0.001868 * c.f("cos", th) - 0.032077 * c.f("sin", th) - 0.014615 * c.f("cos", 2 * th) \
        - 0.040849 * c.f("sin", 2 * th)
    i = c.index("point", (n,))
    i = i[0] if isinstance(i, (tuple, list)) else i
    e = h + c.at(lon, i) / 15 + eq * 12 / c.pi
    if norm:
        c.check("in a day", c.and_(c.at(r, i) >= 0, c.at(r, i) < 24))
        a = M.calc_solar_time(lon, d, h)
        k = (e - c.at(r, i)) / 24
        c.check("same clock time", c.or_(*[c.near(k, j, 1e-5) for j in range(-2, 4)]))
    else:
        c.check("formula", c.near(c.at(r, i), e, 1e-4))
        c.check("hour angle", c.near(c.at(M.calc_solar_hour_angle(lon, d, h), i), (e - 12) * 15, 1e-3))


@contract("C20", MOD + ":calc_solar_elevation", budget=120, trials=200)
def elevation(c):
    """the sine of the elevation is sin(decl) sin(lat) + cos(decl) cos(lat) cos(hour angle); the elevation is its arcsine in
    degrees, within [-90, 90]; impossible latitudes, days and hours are refused"""
    d, h = c.int("day", -5, 380), c.real("hour", -1, 26)
    n = c.dim("n")
    lat = c.array("lat", (n,), dtype="float64", lo=-91, hi=91)
    lon = c.array("lon", (n,), dtype="float64", lo=-180, hi=360)
    if not c.symbolic and c.flag("valid"):
        d, h, lat = d % 365, h % 24, lat * 0.98
    M = c.mod(MOD)
    i, = c.index("point", (n,)) if isinstance(c.index("point", (n,)), (tuple, list)) else (c.index("point", (n,)),)
    c.use_index(i)
    ret = c.flag("sine")
    if c.symbolic:
        HA = c.array("hour_angle", (n,), dtype="float64", lo=-400, hi=800)
        c.cut(MOD + ":calc_solar_hour_angle", lambda a, b, u: HA)
        dec = c.real("decl", -23.5, 23.5)
        c.cut(MOD + ":calc_solar_declination", lambda day: dec)
    raised, r = c.raises(ValueError, lambda: M.calc_solar_elevation(lat, lon, d, h, return_sine=ret))
    c.check("impossible input refused", c.implies(c.or_(d < 0, d > 365, h < 0, h > 24, c.at(lat, i) > 90,
                                                        c.at(lat, i) < -90), raised))
    if raised:
        if not c.symbolic:
            c.check("reason", d < 0 or d > 365 or h < 0 or h > 24 or lat.max() > 90 or lat.min() < -90)
        return
    if not c.symbolic:
        HA, dec = M.calc_solar_hour_angle(lon, d, h), M.calc_solar_declination(d)
    rad = lambda v: c.f("radians", v)
    sd, cd = c.f("sin", rad(dec)), c.f("cos", rad(dec))
    la, hr = rad(c.at(lat, i)), rad(c.at(HA, i))
    sl, cl, ch = c.f("sin", la), c.f("cos", la), c.f("cos", hr)
    s = sd * sl + cd * cl * ch
    if c.symbolic:
        c.lemma("squares", c.and_(sd * sd + cd * cd == 1, sl * sl + cl * cl == 1, ch <= 1, ch >= -1))
        c.lemma("bounds", c.and_(c.abs(sd * sl) <= 1, (sd * cl) * (sd * cl) + (cd * sl) * (cd * sl) + (sd * sl) * (sd * sl)
                                 + (cd * cl) * (cd * cl) == 1))
        c.lemma("cauchy", c.and_(sd * sl + c.abs(cd * cl) <= 1, sd * sl - c.abs(cd * cl) >= -1))
        c.lemma("hour term", c.abs(cd * cl * ch) <= c.abs(cd * cl))
        c.lemma("in [-1, 1]", c.and_(s <= 1, s >= -1))
    if ret:
        c.check("sine", c.near(c.at(r, i), s, 1e-6))
    else:
        e = c.at(r, i)
        c.check("range", c.and_(c.ge(e, -90.0001), c.le(e, 90.0001)))
        c.check("its sine", c.near(c.f("sin", rad(e)), s, 1e-6))


@contract("C20", [MOD + ":DayNightMask._daynight_lat_lon_cube", MOD + ":daynight_terminator"], budget=120, trials=200)
def latlon_daynight(c):
    """on latitude-longitude grids a point is day where the sun is above the horizon and night where it is below"""
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    lat = c.array("lat", (ny,), dtype="float64", lo=-89.99, hi=89.99)
    lon = c.array("lon", (nx,), dtype="float64", lo=-180, hi=180)
    if not c.symbolic:
        lat, lon = c.np.sort(lat), c.np.sort(lon)
        if len(set(lat)) < ny or len(set(lon)) < nx:
            return
    day = c.int("day", 0, 365)
    hour = c.real("hour", 0, 24)
    M = c.mod(MOD)
    if c.symbolic:
        HA = c.array("hour_angle", (nx,), dtype="float64", lo=-400, hi=800)
        c.cut(MOD + ":calc_solar_hour_angle", lambda a, b, u: HA)
        dec = c.real("decl", -23.5, 23.5)
        c.assume(dec != 0)
        c.cut(MOD + ":calc_solar_declination", lambda d: dec)
    else:
        HA, dec = M.calc_solar_hour_angle(lon, day, hour), M.calc_solar_declination(day)
    A = c.iris.coords.AuxCoord
    cu = c.iris.cube.Cube(c.np.zeros((ny, nx), dtype=c.np.int32), long_name="day_night_mask", units="1",
                          aux_coords_and_dims=[(A(lat, standard_name="latitude", units="degrees"), 0),
                                               (A(lon, standard_name="longitude", units="degrees"), 1)])
    p = M.DayNightMask()
    r = p._daynight_lat_lon_cube(cu, day, hour)
    i, j = c.index("cell", (ny, nx))
    rad = lambda v: c.f("radians", v)
    la, hr, dr = rad(c.at(lat, i)), rad(c.at(HA, j)), rad(dec)
    sl, cl, sd, cd, ch = c.f("sin", la), c.f("cos", la), c.f("sin", dr), c.f("cos", dr), c.f("cos", hr)
    s = sd * sl + cd * cl * ch
    v = c.at(r.data, i, j)
    if c.symbolic:
        tl, td = c.f("tan", la), c.f("tan", dr)
        q = -ch / td
        c.lemma("tangents", c.and_(tl * cl == sl, td * cd == sd))
        c.lemma("cosines positive", c.and_(cl > 0, cd > 0))
        c.lemma("sign of the tangent", c.iff(td > 0, dec > 0))
        c.lemma("quotient", q * td == -ch)
        t = c.f("arctan", q)
        c.lemma("ordered tangents", c.and_(c.iff(tl > q, la > t), c.iff(tl < q, la < t)))
        c.lemma("sine of elevation", s == cd * cl * (td * tl + ch))
        c.lemma("factored", s == cd * cl * td * (tl - q))
        c.lemma("positive factor", cd * cl > 0)
        g = cd * cl * (td * (tl - q))
        c.lemma("sign of the product", c.and_(c.iff(g > 0, td * (tl - q) > 0), c.iff(g < 0, td * (tl - q) < 0)))
        c.lemma("sign", c.and_(c.implies(dec > 0, c.and_(c.iff(td * (tl - q) > 0, tl > q), c.iff(td * (tl - q) < 0, tl < q))),
                               c.implies(dec < 0, c.and_(c.iff(td * (tl - q) > 0, tl < q), c.iff(td * (tl - q) < 0, tl > q)))))
    elif abs(s) < 1e-5:
        return
    c.check("day or night", c.or_(v == 0, v == 1))
    c.check("day where the sun is up", c.implies(s > 0, v == 1))
    c.check("night where the sun is down", c.implies(s < 0, v == 0))


TIMES = [1510286400, 1530000000, 1514763300]


@contract("C20", [MOD + ":DayNightMask.process", MOD + ":DayNightMask._create_daynight_mask"], budget=120, trials=150)
def daynight_process(c):
    """a point is day exactly where the solar elevation at that field's time (mid-point of its period) is above zero"""
    np = c.np
    D = c.iris.coords.DimCoord
    nt, bnd, lead = c.choice("times", [1, 2, 3]), c.flag("bounds"), c.flag("lead")
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    base = c.choice("start", TIMES)
    ts = [base + 7 * 3600 * (k + 1) for k in range(nt)]
    bs = [[t - 6 * 3600, t] for t in ts]
    mids = [t - 3 * 3600 for t in ts] if bnd else ts
    if nt == 1:
        tc = D(np.array(ts[0], dtype=np.int64), standard_name="time", units=EPOCH,
               bounds=np.array(bs[0], dtype=np.int64) if bnd else None)
    else:
        tc = D(np.array(ts, dtype=np.int64), standard_name="time", units=EPOCH,
               bounds=np.array(bs, dtype=np.int64) if bnd else None)
    y, x = yx(c, ny, nx) if c.symbolic else yx(c, ny, nx, "latlon", 15.0, 23.0, -61.0, -150.0)
    sh = ((nt,) if nt > 1 else ()) + ((2,) if lead else ()) + (ny, nx)
    dims = ([tc] if nt > 1 else []) + ([D(np.array([0, 1], dtype=np.int32), standard_name="realization", units="1")]
                                       if lead else []) + [y, x]
    d = c.array("d", sh, lo=0, hi=9)
    cu = cube(c, d, "air_temperature", "K", dims, [(tc, None)] if nt == 1 else [])
    M = c.mod(MOD)
    P = M.DayNightMask

    def split(t):
        u = _dt.datetime(1970, 1, 1) + _dt.timedelta(seconds=t)
        return (u - _dt.datetime(u.year, 1, 1)).days, (u.hour * 60 + u.minute + (1 if u.second >= 30 else 0)) / 60.0
    if c.symbolic:
        EL = {split(t): c.array("el%d" % k, (ny, nx), dtype="float64", lo=-90, hi=90) for k, t in enumerate(mids)}
        Z = np.zeros((ny, nx))
        c.cut("improver.utilities.solar:lat_lon_determine", lambda q: True)
        c.cut("improver.utilities.solar:transform_grid_to_lat_lon", lambda q: (Z, Z))

        def el(la, lo, dy, h):
            for (a, b), v in EL.items():
                if a == dy and abs(b - h) < 1e-6:
                    return v
            return np.zeros((ny, nx)) - 99.0
        c.cut("improver.utilities.solar:calc_solar_elevation", el)
    r = P().process(cu)
    c.check("shape", c.same_shape(r.data, ((nt,) if nt > 1 else ()) + (ny, nx)))
    g = tuple(c.index("cell", (ny, nx)))
    for k, t in enumerate(mids):
        if c.symbolic:
            e = c.at(EL[split(t)], *g)
        else:
            dy, h = split(t)
            e = float(M.calc_solar_elevation(np.array(c.at(y.points, g[0])), np.array(c.at(x.points, g[1])), dy, h))
            if abs(e) < 1e-3:
                continue
        v = c.at(r.data, *(((k,) if nt > 1 else ()) + g))
        c.check("day exactly where the sun is up", c.and_(c.implies(e > 0, v == 1), c.implies(e <= 0, v == 0)))


@contract("C20", [MOD + ":get_hour_of_day", MOD + ":get_day_of_year"], kind="bounded", trials=400)
def hour_and_day(c):
    """the hour is rounded to the nearest minute without leaving the day; the day counts from zero on 1 January"""
    s = c.int("s", 0, 2000000000)
    t = _dt.datetime(1970, 1, 1) + _dt.timedelta(seconds=int(s))
    M = c.mod(MOD)
    h = M.get_hour_of_day(t)
    c.check("within half a minute", abs(h * 3600 - (t.hour * 3600 + t.minute * 60 + t.second)) <= 30)
    c.check("whole minutes", abs(h * 60 - round(h * 60)) < 1e-6)
    c.check("day", M.get_day_of_year(t) == (t - _dt.datetime(t.year, 1, 1)).days)
