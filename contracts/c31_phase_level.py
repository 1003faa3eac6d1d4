"""C31: phase change levels."""
from vc import contract
from contracts._cubes import cube, field, dimcoord, realization, yx, time_coords

P = "improver.psychrometric_calculations.psychrometric_calculations"
K = {"snow-sleet": 90.0, "sleet-rain": 202.5, "hail-rain": 5000.0}


@contract("C31", [P + ":PhaseChangeLevel.find_falling_level", P + ":PhaseChangeLevel.fill_in_high_phase_change_falling_levels"],
          trials=100)
def level_reached(c):
    """the level is where the integral, linear between levels, reaches the threshold of the change, as a height above sea level;
    the highest level of the integral above ground where even that holds more; otherwise not known yet"""
    np = c.np
    kind = c.choice("change", sorted(K))
    n = c.choice("levels", [2, 3])
    ny, nx = c.dim("ny"), c.dim("nx")
    T = K[kind]
    inc = c.array("more", (n, ny, nx), dtype="float32", lo=0, hi=T * 1.25)
    wb = np.stack([sum([inc[m] for m in range(1, k + 1)], inc[0]) for k in range(n)])
    og = c.array("orog", (ny, nx), dtype="float32", lo=-50, hi=900)
    dh = [c.real("step", 5, 900) for k in range(n)]
    hs = np.array([c.sum_list(dh[k:]) for k in range(n)], dtype=np.float32)
    top = c.real("top", 3000, 3500)
    i, j = c.index("point", (ny, nx))
    z = []
    for k in range(n):
        c.use_index(k, i, j)
        z.append(c.at(wb, k, i, j))
    for k in range(1, n):
        c.assume(c.or_(c.eq(c.at(inc, k, i, j), 0), c.at(inc, k, i, j) > 0.5))
    pl = c.mod(P).PhaseChangeLevel(kind)
    keep = wb.copy()
    r = pl.find_falling_level(wb, og, hs)
    o = c.at(og, i, j)
    v = c.at(r, i, j)
    inside = c.and_(z[0] <= T, z[-1] >= T, z[0] < z[-1])
    c.check("known between the levels", c.iff(c.isnan(v), c.not_(inside)))
    for k in range(n - 1):
        H = lambda q: c.at(hs, q)
        here = c.and_(z[k] < T, z[k + 1] > T)
        c.check("linear", c.implies(here, c.near((v - o - H(k)) * (z[k + 1] - z[k]), (T - z[k]) * (H(k + 1) - H(k)), 20.0)))
    pl.fill_in_high_phase_change_falling_levels(r, og, wb.max(axis=0), top)
    w = c.at(r, i, j)
    c.check("highest", c.implies(z[0] > T, c.near(w, o + top, 1e-2)))
    c.check("kept", c.implies(inside, c.eq(w, v)))
    c.check("too little", c.implies(z[-1] < T, c.isnan(w)))
    c.check("input left alone", c.eq(c.at(wb, 0, i, j), c.at(keep, 0, i, j)))


def _extrapolated(c, v, g, b, T, total):
    """v is where the line g z + b, positive parts only, completes the missing integral below the surface, not under -2000"""
    need = T - total
    lin = g * v + b
    above = b >= 0
    short = c.near(-(g * v * v / 2 + b * v), need, 1.0)
    far = c.near(lin * lin, -2 * g * need, 1e-2)
    low = g * -2000.0 + b
    return c.and_(v >= -2000.0, c.implies(v > -2000.0, c.and_(lin >= -1e-3, c.or_(c.and_(above, short), c.and_(c.not_(above), far)))),
                  c.implies(c.eq(v, -2000.0), c.or_(c.and_(above, -(g * 2000000.0 - b * 2000.0) <= need + 1.0),
                                                    c.and_(c.not_(above), c.or_(low <= 0, low * low <= -2 * g * need + 1e-2)))))


@contract("C31", [P + ":PhaseChangeLevel.fill_in_sea_points", P + ":PhaseChangeLevel.find_extrapolated_falling_level"], trials=150,
          budget=150)
def sea_level(c):
    """over sea, where the threshold is not reached at the surface, the level is as far below the surface as the fitted line needs to
    complete it, 2000 m at most; nothing else changes, and the fit is to the wet bulb temperatures given"""
    np = c.np
    kind = c.choice("change", ["snow-sleet", "sleet-rain"])
    T = K[kind]
    ny, nx = c.dim("ny"), c.dim("nx")
    lev = c.array("level", (ny, nx), dtype="float64", lo=-50, hi=3000, nan=True)
    land = c.array("land", (ny, nx), dtype="int8", values=[0, 1], lo=0, hi=1)
    tot = c.array("total", (ny, nx), dtype="float64", lo=0, hi=T * 2)
    og = c.array("orog", (ny, nx), dtype="float64", lo=-5, hi=5)
    g = c.array("gradient", (ny, nx), dtype="float64", lo=-0.1, hi=0.01)
    b = c.array("intercept", (ny, nx), dtype="float64", lo=-5, hi=5)
    wbt = c.array("wbt", (2, ny, nx), dtype="float64", lo=-5, hi=5)
    hs = np.array([5.0, 10.0])
    got = []

    def fit(w, heights, sea):
        got.append((w, heights, sea))
        return np.where(sea, g, 0.0), np.where(sea, b, 0.0)
    c.replace(P + ":PhaseChangeLevel.linear_wet_bulb_fit", fit)
    lev0 = lev.copy()
    i, j = c.index("point", (ny, nx))
    G, B, t, v0 = c.at(g, i, j), c.at(b, i, j), c.at(tot, i, j), c.at(lev0, i, j)
    c.assume(c.or_(G >= 0, G < -1e-4))
    c.assume_all((ny, nx), lambda p, q: c.or_(c.at(g, p, q) >= 0, c.at(g, p, q) < -1e-4))
    pl = c.mod(P).PhaseChangeLevel(kind)
    pl.fill_in_sea_points(lev, land, tot, wbt, hs, og)
    w = c.at(lev, i, j)
    sea = c.and_(c.isnan(v0), c.eq(c.at(land, i, j), 0), t < T)
    c.check("others left alone", c.implies(c.not_(sea), c.and_(c.iff(c.isnan(w), c.isnan(v0)), c.or_(c.isnan(w), c.eq(w, v0)))))
    c.check("no level without melting below", c.implies(c.and_(sea, G >= 0), c.isnan(w)))
    c.check("completed below the surface", c.implies(c.and_(sea, G < 0), _extrapolated(c, w - c.at(og, i, j), G, B, T, t)))
    c.check("fitted to", all(q[0] is wbt and q[1] is hs for q in got))
    if got:
        c.check("fitted where", c.iff(c.at(got[0][2], i, j), sea))


@contract("C31", [P + ":PhaseChangeLevel.linear_wet_bulb_fit"], trials=100, budget=120)
def lowest_five(c):
    """the line is fitted at sea points, through the five lowest wet bulb temperatures against their heights; zero elsewhere"""
    np = c.np
    n = c.choice("levels", [4, 5, 6])
    ny, nx = c.dim("ny"), c.dim("nx")
    w = c.array("wbt", (n, ny, nx), dtype="float32", lo=-10, hi=10)
    sea = c.array("sea", (ny, nx), dtype="bool")
    hs = np.array([5.0, 10.0, 20.0, 30.0, 50.0, 75.0][:n], dtype=np.float32)
    i, j = c.index("point", (ny, nx))
    for k in range(n):
        c.use_index(k, i, j)
    g, b = c.mod(P).PhaseChangeLevel.linear_wet_bulb_fit(w, hs, sea)
    m = min(n, 5)
    X = [float(hs[k]) for k in range(m)]
    Y = [c.at(w, k, i, j) for k in range(m)]
    xm, ym = sum(X) / m, c.sum_list(Y) / m
    sxx = sum((x - xm) ** 2 for x in X)
    sxy = c.sum_list([(y - ym) * (x - xm) for x, y in zip(X, Y)])
    G, B = c.at(g, i, j), c.at(b, i, j)
    s = c.at(sea, i, j)
    c.check("elsewhere", c.implies(c.not_(s), c.and_(c.eq(G, 0), c.eq(B, 0))))
    c.check("gradient", c.implies(s, c.near(G * sxx, sxy, 1e-2)))
    c.check("through the mean", c.implies(s, c.near(B, ym - G * xm, 1e-3)))


@contract("C31", [P + ":PhaseChangeLevel._horizontally_interpolate_phase"], trials=100, budget=150)
def filled_from_around(c):
    """levels already known stay; others come from known levels no higher than the highest ground around them where there are such,
    and are never above the ground itself; where any level is known none is missing"""
    np = c.np
    ny, nx = c.dim("ny"), c.dim("nx")
    lev = c.array("level", (ny, nx), dtype="float64", lo=-50, hi=3000, nan=True)
    og = c.array("orog", (ny, nx), dtype="float64", lo=0, hi=900)
    hi = c.array("highest", (ny, nx), dtype="float64", lo=0, hi=900)
    i, j = c.index("point", (ny, nx))
    p, q = c.index("source", (ny, nx))
    lev0, og0 = lev.copy(), og.copy()
    r = c.mod(P).PhaseChangeLevel("snow-sleet")._horizontally_interpolate_phase(lev, og, hi)
    v, w = c.at(lev0, i, j), c.at(r, i, j)
    c.check("known kept", c.implies(c.not_(c.isnan(v)), c.and_(c.not_(c.isnan(w)), c.eq(w, v))))
    c.check("not above ground", c.implies(c.and_(c.isnan(v), c.not_(c.isnan(w))), w <= c.at(og0, i, j) + 1e-9))
    c.check("nothing missing", c.implies(c.not_(c.isnan(c.at(lev0, p, q))), c.not_(c.isnan(w))))
    c.check("ground left alone", c.eq(c.at(og, i, j), c.at(og0, i, j)))


@contract("C31", [P + ":PhaseChangeLevel.process", P + ":PhaseChangeLevel._calculate_phase_change_level",
                  P + ":PhaseChangeLevel.find_max_in_nbhood_orography", P + ":PhaseChangeLevel.create_phase_change_level_cube",
                  "improver.utilities.cube_manipulation:sort_coord_in_cube"], trials=100, budget=240)
def phase_level_of_profiles(c):
    """each member's level comes from its own profile, whatever the order of the integral's heights and the units; points whose level
    is nowhere known are missing, or filled on request from levels no higher than the highest ground within the radius; the result
    is an altitude in metres at the forecast's time"""
    np = c.np
    kind = c.choice("change", ["snow-sleet", "sleet-rain"])
    T = K[kind]
    members, desc, bounds, celsius, fill = c.choice("case", [
        (0, True, False, True, False), (2, False, True, False, False), (2, True, True, True, True), (0, False, False, True, True),
        (0, True, True, False, False)])
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    lead = (members,) if members else ()
    lo = c.array("low", lead + (1, ny, nx), dtype="float32", lo=0, hi=T * 1.5)
    more = c.array("more", lead + (1, ny, nx), dtype="float32", lo=1, hi=T)
    hp = [300.0, 100.0] if desc else [100.0, 300.0]
    wb = np.concatenate([lo, lo + more] if desc else [lo + more, lo], axis=len(lead))
    wt = c.array("wbt", lead + (2, ny, nx), dtype="float32", lo=-5, hi=5)
    og = c.array("orog", (ny, nx), dtype="float32", lo=-5, hi=900)
    land = c.array("land", (ny, nx), dtype="int8", values=[0, 1], lo=0, hi=1)
    hb = np.array([[h, 350.0 if h > 200 else 300.0] for h in hp], dtype=np.float32) if bounds else None
    mem = [realization(c, members)] if members else []
    A = {"title": "MOGREPS-UK Model on UK 2 km Standard Grid", "source": "IMPROVER", "institution": "Met Office", "extra": "x"}
    integral = field(c, wb.copy(), "wet_bulb_temperature_integral", "K m", mem + [dimcoord(c, "height", hp, "m", bounds=hb)], attributes=dict(A))
    profile = field(c, (wt if celsius else wt + 273.15).copy(), "wet_bulb_temperature", "celsius" if celsius else "K",
                    [q.copy() for q in mem] + [dimcoord(c, "height", [10.0, 20.0], "m")], attributes=dict(A))
    ground = field(c, og.copy(), "surface_altitude", "m", time=False)
    sea = field(c, land.copy(), "land_binary_mask", "1", time=False)
    g, b = -0.01, 2.0
    fits, fills = [], []

    def fit(w, heights, points):
        fits.append((w, heights))
        return np.where(points, g, 0.0), np.where(points, b, 0.0)
    c.replace(P + ":PhaseChangeLevel.linear_wet_bulb_fit", fit)
    new = c.array("filled", (ny, nx), dtype="float32", lo=0, hi=100)

    def around(self, level, orography, highest):
        fills.append((level.copy(), orography, highest))
        return np.where(np.isnan(level), new, level)
    c.replace(P + ":PhaseChangeLevel._horizontally_interpolate_phase", around)
    radius = c.choice("radius", [0, 1]) if fill else 2
    pl = c.mod(P).PhaseChangeLevel(kind, grid_point_radius=radius, horizontal_interpolation=fill)
    i, j = c.index("point", (ny, nx))
    p, q = c.index("neighbour", (ny, nx))
    order = c.choice("order", [[0, 1, 2, 3], [3, 1, 0, 2]])
    r = pl.process(c.iris.cube.CubeList([[profile, integral, ground, sea][k] for k in order]))
    c.check("metadata", r.name() == "altitude_of_%s_level" % {"snow-sleet": "snow_falling", "sleet-rain": "rain_falling"}[kind]
            and str(r.units) == "m" and not r.coords("height") and bool(r.coords("realization")) == (members > 0)
            and r.attributes == {k: v for k, v in A.items() if k != "extra"})
    c.check("shape", c.same_shape(r.data, lead + (ny, nx)))
    c.check("time", c.eq(c.at(r.coord("time").points, 0), 1510286400))
    o = c.at(og, i, j)
    for k in range(members or 1):
        ix = ((k,) if members else ()) + (0, i, j)
        x, y = c.at(lo, *ix), c.at(lo, *ix) + c.at(more, *ix)
        at = (k, i, j) if members else (i, j)
        v, miss = c.at(r.data, *at), c.masked(r.data, *at)
        inside = c.and_(x < T, y > T)
        c.check("between", c.implies(inside, c.and_(c.not_(miss), c.near((v - o - 300.0) * (y - x), -200.0 * (T - x), 200.0))))
        top = (350.0 if bounds else 20.0)
        c.check("highest", c.implies(x > T, c.and_(c.not_(miss), c.near(v, o + top, 1e-2))))
        at_sea = c.and_(y < T, c.eq(c.at(land, i, j), 0))
        need = T - y
        c.check("below the sea", c.implies(at_sea, c.and_(c.not_(miss), _extrapolated(c, v - o, g, b, T, y))))
        dry = c.and_(y < T, c.eq(c.at(land, i, j), 1))
        if fill:
            c.check("filled", c.implies(dry, c.and_(c.not_(miss), c.near(v, c.at(new, i, j), 1e-2))))
        else:
            c.check("missing", c.implies(dry, miss))
    for w, heights in fits:
        c.check("heights of the profile", [float(h) for h in heights] == [10.0, 20.0])
    for k, (w, heights) in enumerate(fits):
        if len(fits) == (members or 1):
            ix = ((k,) if members else ()) + (1, i, j)
            c.check("profile in celsius", c.near(c.at(w, 1, i, j), c.at(wt, *ix), 1e-2))
    for level, orography, highest in fills:
        h = c.at(highest, i, j)
        near = c.and_(p - i <= radius, i - p <= radius, q - j <= radius, j - q <= radius)
        c.check("ground", c.eq(c.at(orography, i, j), o))
        c.check("highest ground near", c.and_(h >= o, c.implies(near, h >= c.at(og, p, q))))
        if radius == 0:
            c.check("own ground", c.eq(h, o))
    c.check("inputs", c.eq(c.at(ground.data, i, j), o))


W = "improver.psychrometric_calculations.wet_bulb_temperature"


@contract("C31", [W + ":WetBulbTemperatureIntegral.process", "improver.utilities.mathematical_operations:Integration.process"],
          trials=80, budget=150)
def wet_bulb_integral(c):
    """the integral of the wet bulb temperature at the base of each layer is the sum over the layers above of the depth times the mean
    of the positive values at its ends in Celsius, in kelvin metres, whatever the units given; the input keeps its own"""
    np = c.np
    celsius = c.flag("celsius")
    km = c.flag("heights in km")
    hs = [7.8125, 62.5, 250.0]
    falls = c.flag("given downwards")
    given = hs[::-1] if falls else hs
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (3, ny, nx), dtype="float32", lo=-20, hi=20)
    y, x = yx(c, ny, nx)
    model = c.flag("model recorded")
    w = cube(c, (d if celsius else d + 273.15).copy(), "wet_bulb_temperature", "celsius" if celsius else "K",
             [dimcoord(c, "height", [h / 1000 for h in given] if km else given, "km" if km else "m"), y, x],
             attributes={"mosg__model_configuration": "uk_ens"})
    i, j = c.index("point", (ny, nx))
    t = {}
    for k in range(3):
        c.use_index(k, i, j)
        t[given[k]] = c.at(d, k, i, j)
    w0 = c.at(w.data, 0, i, j)
    r = c.mod(W).WetBulbTemperatureIntegral("mosg__model_configuration" if model else None).process(w)
    c.check("metadata", r.name() == "wet_bulb_temperature_integral" and str(r.units) == "K m"
            and (not model or r.attributes.get("mosg__model_configuration") == "uk_ens"))
    hp = [float(q) for q in r.coord("height").points]
    c.check("levels", len(hp) == 2 and all(abs(a - b) < 1e-3 for a, b in zip(sorted(hp), [7.8125, 62.5])))
    pos = lambda v: c.ite(v > 0, v, 0.0)
    upper = 187.5 * 0.5 * (pos(t[250.0]) + pos(t[62.5]))
    both = upper + 54.6875 * 0.5 * (pos(t[62.5]) + pos(t[7.8125]))
    for k, h in enumerate(hp):
        c.check("integral", c.near(c.at(r.data, k, i, j), upper if h > 20 else both, 0.2))
    c.check("input left alone", c.and_(c.eq(c.at(w.data, 0, i, j), w0), str(w.units) == ("celsius" if celsius else "K"),
                                       str(w.coord("height").units) == ("km" if km else "m")))


@contract("C31", [W + ":WetBulbTemperature._calculate_wet_bulb_temperature", W + ":WetBulbTemperature._calculate_specific_heat",
                  W + ":WetBulbTemperature._calculate_enthalpy", W + ":WetBulbTemperature._calculate_enthalpy_gradient"], trials=80,
          budget=150)
def wet_bulb_iteration(c):
    """each point's wet bulb temperature is found by itself: from the air temperature, Newton's method for equal enthalpy with its own
    pressure, humidity and latent heat, until its correction is within the precision"""
    np = c.np
    n = 2
    T = c.array("t", (n, 1), dtype="float64", lo=250, hi=310)
    p = c.array("p", (n, 1), dtype="float64", lo=60000, hi=105000)
    rh = c.array("rh", (n, 1), dtype="float64", lo=0, hi=1)
    sat = lambda t, q: 0.003 + (t - 240.0) * (110000.0 - q) * 1e-8
    c.replace(W + ":saturated_humidity", lambda t, q: sat(t, q))
    pl = c.mod(W).WetBulbTemperature(precision=0.05)
    rounds = 1 if c.symbolic else c.choice("rounds", [1, 2, 20])
    pl.maximum_iterations = rounds
    T0 = T.copy()
    r = pl._calculate_wet_bulb_temperature(p, rh, T)
    c.check("input left alone", c.and_(*[c.eq(c.at(T, k, 0), c.at(T0, k, 0)) for k in range(n)]))
    c.check("shape", c.same_shape(r, (n, 1)))
    for k in range(n):
        t, q, h = c.at(T0, k, 0), c.at(p, k, 0), c.at(rh, k, 0)
        lh = (t - 273.15) * -2340.0 + 2.501e6
        mr = h * sat(t, q)
        cp = (1.0 - mr) * 1005.0 + mr * 1850.0
        e = lh * mr + cp * t
        w, going = t, True
        for _ in range(rounds):
            s = sat(w, q)
            step = (e - (lh * s + cp * w)) / (s * lh * lh / (461.6 * w * w) + cp)
            going = c.and_(going, c.or_(step > 0.05, step < -0.05))
            w = c.ite(going, w + step, w)
        c.check("found", c.near(c.at(r, k, 0), w, 1e-5))


@contract("C31", [W + ":WetBulbTemperature.process", W + ":WetBulbTemperature._slice_inputs",
                  W + ":WetBulbTemperature.create_wet_bulb_temperature_cube"], trials=80, budget=150)
def wet_bulb_of_levels(c):
    """the wet bulb temperature of every level comes from that level's temperature, humidity and pressure, in any units and order, in
    kelvin; fields on different vertical levels are refused, the inputs keep their values and units"""
    np = c.np
    n = c.choice("levels", [0, 1, 2])
    other = c.flag("other units")
    ny, nx = c.dim("ny"), c.dim("nx")
    lead = (n,) if n else ()
    z = lambda: [dimcoord(c, "height", [10.0, 50.0][:n], "m", attributes={"positive": "up"})] if n else []
    T = c.array("t", lead + (ny, nx), dtype="float32", lo=250, hi=310)
    R = c.array("rh", lead + (ny, nx), dtype="float32", lo=0, hi=1)
    p = c.array("p", lead + (ny, nx), dtype="float32", lo=60000, hi=105000)
    t = field(c, (T - 273.15 if other else T).copy(), "air_temperature", "celsius" if other else "K", z())
    h = field(c, (R * 100 if other else R).copy(), "relative_humidity", "%" if other else "1", z())
    q = field(c, (p / 100 if other else p).copy(), "air_pressure", "hPa" if other else "Pa", z())
    if n == 2 and c.flag("one on pressure levels"):
        q.remove_coord("height")
        q.add_dim_coord(dimcoord(c, "pressure", [100000.0, 90000.0], "Pa", attributes={"positive": "down"}), 0)
        c.check("refused", c.raises(ValueError, lambda: c.mod(W).WetBulbTemperature().process(t, h, q))[0])
        return
    c.replace(W + ":WetBulbTemperature._calculate_wet_bulb_temperature",
              lambda self, pressure, humidity, temperature: temperature - humidity * 10.0 + pressure * 1e-4)
    order = c.choice("order", [[0, 1, 2], [2, 0, 1]])
    i, j = c.index("point", (ny, nx))
    t0 = c.at(t.data, *(((0,) if n else ()) + (i, j)))
    r = c.mod(W).WetBulbTemperature().process([t, h, q][order[0]], [t, h, q][order[1]], [t, h, q][order[2]])
    c.check("metadata", r.name() == "wet_bulb_temperature" and str(r.units) == "K")
    c.check("shape", c.same_shape(r.data, lead + (ny, nx)))
    for k in range(n or 1):
        ix = ((k,) if n else ()) + (i, j)
        w = c.at(T, *ix) - c.at(R, *ix) * 10.0 + c.at(p, *ix) * 1e-4
        c.check("of this level", c.near(c.at(r.data, *ix), w, 2e-2))
        if n:
            c.check("level", c.eq(c.at(r.coord("height").points, k), [10.0, 50.0][k]))
    c.check("inputs", c.and_(c.eq(c.at(t.data, *(((0,) if n else ()) + (i, j))), t0), str(t.units) == ("celsius" if other else "K"),
                             str(q.units) == ("hPa" if other else "Pa")))


@contract("C31", [P + ":PhaseChangeLevel.__init__", P + ":PhaseChangeLevel.process"], trials=40)
def phase_level_refusals(c):
    """unknown changes, missing fields and profiles of another model than the integral's are refused"""
    np = c.np
    C = c.mod(P).PhaseChangeLevel
    c.check("unknown change", c.raises(ValueError, lambda: C("rain-snow"))[0])
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    d = c.array("d", (2, ny, nx), dtype="float32", lo=0, hi=50)
    z = lambda: dimcoord(c, "height", [10.0, 20.0], "m")
    w = field(c, d.copy(), "wet_bulb_temperature", "celsius", [z()], attributes={"mosg__model_configuration": "uk_det"})
    v = field(c, d.copy(), "wet_bulb_temperature_integral", "K m", [z()], attributes={"mosg__model_configuration": "uk_ens"})
    o = field(c, d[0].copy(), "surface_altitude", "m", time=False)
    s = field(c, (d[0] * 0).copy(), "land_binary_mask", "1", time=False)
    pl = C("sleet-rain", model_id_attr="mosg__model_configuration")
    c.check("another model", c.raises(ValueError, lambda: pl.process(w, v, o, s))[0])
    c.check("too few", c.raises(ValueError, lambda: C("sleet-rain").process(w, v, o))[0])
    c.check("thresholds", [C(k).falling_level_threshold for k in sorted(K)] == [K[k] for k in sorted(K)])
