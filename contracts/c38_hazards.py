from vc import contract
from _cubes import cube, dimcoord, field, realization, threshold_coord, time_coords, yx

L = "improver.lightning"
F = "improver.precipitation_type.freezing_rain"
S = "improver.precipitation_type.shower_condition_probability"
PP = "improver.psychrometric_calculations.precip_phase_probability"
SP = "improver.psychrometric_calculations.significant_phase_mask"
T0 = 1510286400
LATS = [-70.0, -40.0, -5.0, 0.0, 10.0, 20.0, 45.0, 60.0]


def _latlon(c, lats, nx):
    cs = c.iris.coord_systems.GeogCS(6371229.0)
    return [dimcoord(c, "latitude", list(lats), "degrees", coord_system=cs),
            dimcoord(c, "longitude", [2.0 * q for q in range(nx)], "degrees", coord_system=cs)]


def _level(lat, mid, trop):
    f = min(max((abs(lat) - 10.0) / 40.0, 0.0), 1.0)
    return trop + f * (mid - trop)


@contract("C38", [L + ":latitude_to_threshold"], trials=100)
def limits_by_latitude(c):
    """the middle-latitude value beyond 50 degrees, the tropical one within 10, linear between, the same north and south"""
    n = c.dim("n")
    lat = c.array("lat", (n,), lo=-90, hi=90, often=(0.0, 10.0, -10.0, 50.0, -50.0))
    mid = c.real("mid", 0, 500)
    trop = mid + c.real("more", 0.5, 500) * c.choice("sign", [1, -1])
    r = c.fn(L + ":latitude_to_threshold")(lat, mid, trop)
    i = c.index("point", (n,))[0]
    v = c.at(lat, i)
    a = c.ite(v < 0, 0 - v, v)
    want = c.ite(c.le(a, 10), trop, c.ite(c.ge(a, 50), mid, trop + (a - 10) / 40.0 * (mid - trop)))
    c.check("shape", c.same_shape(r, (n,)))
    c.check("limit", c.near(c.at(r, i), want, 1e-3, loose=True))


WRONG = ["nothing", "cape time", "period", "reference", "grid", "no cape", "no rain"]


@contract("C38", [L + ":LightningFromCapePrecip.process", L + ":LightningFromCapePrecip._get_inputs"], trials=200, budget=150)
def lightning_possible(c):
    """one where both convective energy and rain exceed the limits of their latitude, zero elsewhere; energy at the start of the
    rain's period of one or three hours, of one cycle and grid, or refused"""
    np = c.np
    wrong = c.choice("wrong", WRONG)
    hours = c.choice("hours", [1, 3])
    units = c.choice("rain units", ["mm h-1", "m s-1"])
    members = c.flag("members")
    gaps = c.flag("model")
    swap = c.flag("swapped")
    nx, ny = 2, len(LATS)
    sh = ((2,) if members else ()) + (ny, nx)
    cape = c.array("cape", sh, lo=0, hi=1000, often=(350.0, 500.0, 0.0))
    f = 1.0 if units == "mm h-1" else 1.0 / 3.6e6
    rain = c.array("rain", sh, lo=0, hi=8, often=(1.0, 4.0, 0.0))
    lead = [realization(c, 2)] if members else []
    at = {"source": "here", "mosg__model_configuration": "uk_ens"} if gaps else {"source": "here"}
    period = 2 if wrong == "period" else hours
    a = cube(c, cape.copy(), "atmosphere_convective_available_potential_energy", "J kg-1", lead + _latlon(c, LATS, nx),
             time_coords(c, T0 + (3600 if wrong == "cape time" else 0), frt=T0 - 14400), attributes=dict(at))
    lats = LATS if wrong != "grid" else [v + 1.0 for v in LATS]
    end = T0 + 3600 * period
    b = cube(c, rain * f, "precipitation_rate_max", units, lead + _latlon(c, lats, nx),
             time_coords(c, end, frt=T0 - (18000 if wrong == "reference" else 14400), bounds=[T0, end]), attributes=dict(at))
    if wrong == "no cape":
        a.rename("wind_speed")
    if wrong == "no rain":
        b.rename("rainfall_rate")
    plugin = c.mod(L).LightningFromCapePrecip("mosg__model_configuration" if gaps else None)
    bad, r = c.raises(ValueError, lambda: plugin(b, a) if swap else plugin(a, b))
    c.check("refused", bad == (wrong != "nothing"))
    if bad:
        return
    c.check("shape", c.same_shape(r.data, sh))
    c.check("named", r.name() == "probability_of_number_of_lightning_flashes_per_unit_area_above_threshold" and str(r.units) == "1")
    t = r.coord("number_of_lightning_flashes_per_unit_area")
    c.check("threshold", t.var_name == "threshold" and t.attributes == {"spp__relative_to_threshold": "greater_than"}
            and float(t.points[0]) == 0.0 and str(t.units) == "m-2")
    c.check("times", all(r.coord(n) == b.coord(n) for n in ("time", "forecast_period", "forecast_reference_time")))
    c.check("model", r.attributes.get("mosg__model_configuration") == at.get("mosg__model_configuration"))
    k, j = c.choice("member", [0, 1] if members else [0]), c.index("column", (nx,))[0]
    for i, lat in enumerate(LATS):
        key = ((k,) if members else ()) + (i, j)
        u, v = _level(lat, 350.0, 500.0), _level(lat, 1.0, 4.0)
        x, y = c.at(cape, *key), c.at(rain, *key)
        if not c.symbolic and (abs(x - u) < 1e-2 or abs(y - v) < 1e-4):
            continue
        if not c.symbolic:
            c.check("lightning", float(c.at(r.data, *key)) == float(x > u and y > v))
            continue
        near = c.and_(c.or_(x - u > 1e-3, u - x > 1e-3), c.or_(y - v > 1e-5, v - y > 1e-5))
        c.check("lightning", c.implies(near, c.eq(c.at(r.data, *key), c.ite(c.and_(x > u, y > v), 1.0, 0.0))))
        c.check("no other", c.or_(c.eq(c.at(r.data, *key), 0), c.eq(c.at(r.data, *key), 1)))


NAMES = {"cape": ("atmosphere_specific_convective_available_potential_energy", "J kg-1"),
         "lift": ("temperature_difference_between_ambient_air_and_air_lifted_adiabatically", "K"),
         "pwat": ("precipitable_water", "kg m-2"), "cin": ("atmosphere_specific_convective_inhibition", "J kg-1"),
         "rain": ("precipitation_amount", "kg m-2")}


@contract("C38", [L + ":LightningMultivariateProbability_USAF2024.process", L + ":LightningMultivariateProbability_USAF2024._get_inputs",
                  L + ":LightningMultivariateProbability_USAF2024._extract_input"], trials=200, budget=200)
def lightning_by_regression(c):
    """the stated regressions: on energy times rain; on energy and inhibition where there is next to no rain; on lifted index and rain
    without energy; reduced where there is little water; at most 0.95. Fields of other times, grids or units are refused"""
    np = c.np
    wrong = c.choice("wrong", ["nothing", "nothing in mm", "time", "period", "reference", "grid", "units", "absent"])
    which = c.choice("which", ["cape", "lift", "pwat", "cin"]) if wrong in ("time", "reference", "grid", "units", "absent") else None
    ny, nx = (2, 3) if wrong == "grid" else (c.dim("ny"), c.dim("nx"))
    sh = (ny, nx)
    d = {"cape": c.array("cape", sh, lo=0, hi=3000, often=(0.0, 800.0)), "lift": c.array("lift", sh, lo=-10, hi=10, often=(-4.0, 0.0)),
         "pwat": c.array("pwat", sh, lo=0, hi=60, often=(20.0, 0.0)), "cin": c.array("cin", sh, lo=-300, hi=0),
         "rain": c.array("rain", sh, lo=0, hi=30, often=(0.0, 0.2))}
    cs = []
    end = T0 + 3600 * (1 if wrong == "period" else 3)
    for n in NAMES:
        name, units = NAMES[n]
        if wrong == "nothing in mm" and units == "kg m-2":
            units = "mm"
        if n == which and wrong == "absent":
            continue
        if n == which and wrong == "units":
            units = "1"
        frt = T0 - (18000 if n == which and wrong == "reference" else 14400)
        tc = time_coords(c, end, frt=frt, bounds=[T0, end]) if n == "rain" else \
            time_coords(c, T0 + (3600 if n == which and wrong == "time" else 0), frt=frt)
        y, x = yx(c, ny, nx, y0=2000.0 if n == which and wrong == "grid" else 0.0)
        cs.append(cube(c, d[n].copy(), name, units, [y, x], tc, attributes={"source": "here"}))
    plugin = c.mod(L).LightningMultivariateProbability_USAF2024()
    bad, r = c.raises(ValueError, lambda: plugin(c.iris.cube.CubeList(cs[::-1])))
    c.check("refused", bad == (not wrong.startswith("nothing")))
    if bad:
        return
    c.check("shape", c.same_shape(r.data, sh))
    c.check("named", r.name() == "probability_of_number_of_lightning_flashes_per_unit_area_in_vicinity_above_threshold")
    c.check("vicinity", float(r.coord("radius_of_vicinity").points[0]) == 20000.0)
    t = r.coord("number_of_lightning_flashes_per_unit_area")
    c.check("threshold", t.var_name == "threshold" and float(t.points[0]) == 0.0)
    c.check("times", all(r.coord(n) == cs[-1].coord(n) for n in ("time", "forecast_period", "forecast_reference_time")))
    i, j = c.index("cell", sh)
    inch = d["rain"] / 1000 * 39.3701
    one = 0.13 * np.log(d["cape"] * inch + 0.7) + 0.05
    two = 0.025 * np.log(d["cape"] / (-1 * d["cin"] + 100.0) + 0.31) + 0.03
    v = dict((n, c.at(d[n], i, j)) for n in d)
    w = c.at(inch, i, j)
    over = v["lift"] + 4.0
    over = c.ite(over < 0, 0.0, over)
    got = c.at(r.data, i, j)
    dry = w - v["pwat"] / 1000
    # got = min(0.95, factor * base)
    f = c.ite(v["pwat"] < 20, v["pwat"] / 20.0, 1.0)
    c.check("limit", c.le(got, 0.9500001))
    if not c.symbolic and abs(dry - 0.01) < 1e-5:
        return
    base = c.ite(dry < 0.01, c.at(two, i, j), c.at(one, i, j))
    say = c.ite(f * base > 0.95, 0.95, f * base)
    c.check("regression", c.implies(v["cape"] > 0, c.near(got, say, 1e-4, loose=True)))
    # without energy: the square is 0.04 times the product
    flat = c.le(v["cape"], 0)
    cap = got >= 0.9499
    c.check("no energy", c.implies(c.and_(flat, c.not_(cap)), c.and_(c.ge(got, 0), c.near(got * got, f * f * 0.04 * over * w, 1e-4, loose=True))))
    c.check("no energy, much else", c.implies(c.and_(flat, cap), c.ge(f * f * 0.04 * over * w, 0.9)))
    for q, n in zip(cs, NAMES):
        c.check("inputs", c.eq(c.at(q.data, i, j), v[n]))


@contract("C38", [F + ":FreezingRain.process", F + ":FreezingRain._get_input_cubes", F + ":FreezingRain._get_input_cube_names",
                  F + ":FreezingRain._extract_common_realizations", F + ":FreezingRain._generate_template_cube",
                  F + ":FreezingRain._calculate_freezing_rain_probability"], trials=250, budget=200, max_paths=1500)
def freezing_rain(c):
    """the mean over the members common to all of the probability of rain or sleet times that of freezing; other grids, times or
    thresholds, no freezing point, no members in common and other fields are refused"""
    np = c.np
    wrong = c.choice("wrong", ["nothing"] * 3 + ["two", "twice", "other", "grid", "time", "units", "thresholds", "no freezing point",
                                                 "no members in common"])
    above = c.choice("temperature", ["greater_than", "less_than"])
    celsius = c.flag("celsius")
    ms = c.choice("members", [None, ([0, 1], [0, 1], [0, 1]), ([0, 1, 2], [0, 1], [0, 1, 2]), ([0, 1], [0, 1, 2], [1, 2]),
                              ([1, 2, 3], [1, 2, 3], [1, 3])]) if wrong == "nothing" else (
        ([0, 1], [2, 3], [0, 1]) if wrong == "no members in common" else None)
    ny, nx = (2, 3) if wrong == "grid" else (c.dim("ny"), c.dim("nx"))
    model = c.flag("model") if wrong == "nothing" and ms is None else False
    nm = [0, 0, 0] if ms is None else [len(m) for m in ms]
    pre = [() if not n else (n,) for n in nm]
    arr = [c.array(n, p + (k, ny, nx), lo=0, hi=1) for n, p, k in zip(("rain", "sleet", "cold"), pre, (2, 2, 3))]
    pair = [1e-8, 1e-7]
    lead = lambda q: [dimcoord(c, "realization", list(ms[q]), "1", dtype="int32")] if ms else []
    prob = lambda n: "probability_of_%s_%s_threshold" % (n, "below" if n == "air_temperature" and above == "less_than" else "above")

    def make(q, name, thr, units, rel):
        y, x = yx(c, ny, nx, y0=2000.0 if q == 2 and wrong == "grid" else 0.0)
        tc = time_coords(c, T0 + (3600 if q == 1 and wrong == "time" else 0), frt=T0 - 14400)
        at = {"source": "here"}
        if model:
            at["mosg__model_configuration"] = "nc_det" if q < 2 else "uk_det"
        return cube(c, arr[q].copy(), prob(name), "1", lead(q) + [threshold_coord(c, thr, name, units, rel), y, x], tc, attributes=at)
    rain = make(0, "rainfall_rate", pair, "m s-1", "greater_than")
    sleet = make(1, "lwe_sleetfall_rate", [1e-8, 2e-7] if wrong == "thresholds" else pair, "K" if wrong == "units" else "m s-1", "greater_than")
    mid = 280.0 if wrong == "no freezing point" else 273.15
    temps = [mid - 2.0, mid, mid + 5.0]
    cold = make(2, "air_temperature", [round(t - 273.15, 2) for t in temps] if celsius else temps, "celsius" if celsius else "K", above)
    cs = [cold, rain, sleet]
    if wrong == "two":
        cs = cs[1:]
    if wrong == "twice":
        cs = [cold, rain, rain.copy()]
    if wrong == "other":
        sleet.rename("probability_of_snowfall_rate_above_threshold")
    plugin = c.mod(F).FreezingRain("mosg__model_configuration" if model else None)
    bad, r = c.raises(ValueError, lambda: plugin(c.iris.cube.CubeList(cs)))
    c.check("refused", bad == (wrong != "nothing"))
    if bad:
        return
    c.check("shape", c.same_shape(r.data, (2, ny, nx)))
    c.check("named", r.name() == "probability_of_lwe_freezing_rainfall_rate_above_threshold" and str(r.units) == "1")
    t = r.coord(var_name="threshold")
    c.check("threshold", t.name() == "lwe_freezing_rainfall_rate" and t.attributes == {"spp__relative_to_threshold": "greater_than"})
    c.check("model", r.attributes.get("mosg__model_configuration") == ("nc_det" if model else None))
    c.check("no members", not r.coords("realization"))
    i, j = c.index("cell", (ny, nx))
    common = [None] if ms is None else sorted(set(ms[0]) & set(ms[1]) & set(ms[2]))
    for k in range(2):
        tot = 0.0
        for m in common:
            key = lambda q: () if ms is None else (ms[q].index(m),)
            p = c.at(arr[2], *(key(2) + (1, i, j)))
            p = p if above == "less_than" else 1 - p
            tot = tot + (c.at(arr[0], *(key(0) + (k, i, j))) + c.at(arr[1], *(key(1) + (k, i, j)))) * p
        c.check("probability", c.near(c.at(r.data, k, i, j) * len(common), tot, 1e-4))


@contract("C38", [S + ":ShowerConditionProbability.process", S + ":ShowerConditionProbability._extract_inputs",
                  S + ":ShowerConditionProbability._create_shower_condition_cube",
                  "improver.precipitation_type.utilities:make_shower_condition_cube"], trials=200, budget=150)
def showery(c):
    """the share of members in which the cloud is at most, or the convective ratio above, its limit; no ratio counts as none"""
    np = c.np
    wrong = c.choice("wrong", ["nothing", "no cloud", "no ratio", "shape"])
    nm = c.choice("members", [0, 1, 2, 3])
    gaps = c.flag("gaps")
    lim = c.choice("limits", [(0.8125, 0.8), (0.5, 0.25)])
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    sh = ((nm,) if nm else ()) + (ny, nx)
    a = c.array("cloud", sh, lo=0, hi=1, often=(0.5, 0.8125, 0.0, 1.0))
    b = c.array("ratio", sh, lo=0, hi=1, often=(0.25, 0.0, 1.0))
    gap = c.array("gap", sh, dtype="bool")
    lead = [realization(c, nm)] if nm else []
    cloud = field(c, a.copy(), "low_and_medium_type_cloud_area_fraction", "1", lead=lead, attributes={"source": "x", "mosg__m": "other"})
    ratio = field(c, np.ma.masked_array(b.copy(), mask=gap.copy()) if gaps else b.copy(), "convective_ratio", "1", lead=lead,
                  attributes={"source": "here", "mosg__m": "uk"})
    if wrong == "no cloud":
        cloud.rename("cloudiness")
    if wrong == "no ratio":
        ratio.rename("ratio")
    if wrong == "shape":
        if nm < 2:
            return
        cloud = cloud[0]
    plugin = c.mod(S).ShowerConditionProbability(lim[0], lim[1], model_id_attr="mosg__m")
    bad, r = c.raises(ValueError, lambda: plugin(c.iris.cube.CubeList([ratio, cloud])))
    c.check("refused", bad == (wrong != "nothing"))
    if bad:
        return
    c.check("shape", c.same_shape(r.data, (ny, nx)))
    c.check("named", r.name() == "probability_of_shower_condition_above_threshold" and str(r.units) == "1")
    t = r.coord("shower_condition")
    c.check("threshold", t.var_name == "threshold" and float(t.points[0]) == 1.0 and str(t.units) == "1")
    c.check("model", r.attributes.get("mosg__m") == "uk" and not r.coords("realization"))
    i, j = c.index("cell", (ny, nx))
    tot = 0.0
    for m in range(nm or 1):
        key = ((m,) if nm else ()) + (i, j)
        x, y = c.at(a, *key), c.at(b, *key)
        if not c.symbolic and abs(y - lim[1]) < 1e-4:
            return
        yes = c.or_(c.le(x, lim[0]), c.and_(y > c.np.float32(lim[1]) if not c.symbolic else y > lim[1], c.not_(c.and_(gaps, c.at(gap, *key)))))
        tot = tot + c.ite(yes, 1.0, 0.0)
    if c.symbolic:
        close = c.or_(*[c.and_(c.ge(c.at(b, *(((m,) if nm else ()) + (i, j))), lim[1] - 1e-6),
                               c.le(c.at(b, *(((m,) if nm else ()) + (i, j))), lim[1] + 1e-6)) for m in range(nm or 1)])
        c.check("share", c.or_(close, c.near(c.at(r.data, i, j) * (nm or 1), tot, 1e-4)))
    else:
        c.check("share", c.near(c.at(r.data, i, j) * (nm or 1), tot, 1e-4))


@contract("C38", [PP + ":PrecipPhaseProbability.process", PP + ":PrecipPhaseProbability._extract_input_cubes"], trials=200, budget=120)
def phase_at_surface(c):
    """snow is certain where the ground is at or above its falling level, rain where the ground is below its own, neither elsewhere,
    in whatever units; of percentiles the 80th is used for snow and the 20th for rain; other grids and fields are refused"""
    np = c.np
    wrong = c.choice("wrong", ["nothing", "nothing", "three", "grid", "percentile", "no level", "no ground"])
    kind = c.choice("phase", ["snow", "rain", "rain_from_hail"])
    pct = c.flag("percentiles") or wrong == "percentile"
    km = c.flag("kilometres")
    again = c.flag("used before")
    ny, nx = (2, 3) if wrong == "grid" else (c.dim("ny"), c.dim("nx"))
    ps = [10.0, 50.0, 90.0] if wrong == "percentile" else [20.0, 50.0, 80.0]
    lv = c.array("level", ((3,) if pct else ()) + (ny, nx), lo=0, hi=5000)
    h = c.array("ground", (ny, nx), lo=-100, hi=5000)
    lead = [dimcoord(c, "percentile", ps, "%")] if pct else []
    name = "altitude_of_%s_falling_level" % kind if wrong != "no level" else "altitude_of_sleet_level"
    level = field(c, lv / 1000 if km else lv.copy(), name, "km" if km else "m", lead=lead, attributes={"source": "here"})
    y, x = yx(c, ny, nx, y0=2000.0 if wrong == "grid" else 0.0)
    ground = cube(c, h.copy(), "surface_altitude" if wrong != "no ground" else "height", "m", [y, x])
    plugin = c.mod(PP).PrecipPhaseProbability()
    if again:
        for k in ("snow", "rain"):
            o = field(c, np.zeros((2, 2), dtype=np.float32), "altitude_of_%s_falling_level" % k, "m")
            plugin(o, cube(c, np.ones((2, 2), dtype=np.float32), "surface_altitude", "m", list(yx(c, 2, 2))))
    cs = [ground, level] + ([ground.copy()] if wrong == "three" else [])
    bad, r = c.raises(ValueError, lambda: plugin(*cs))
    c.check("refused", bad == (wrong != "nothing"))
    if bad:
        return
    c.check("shape", c.same_shape(r.data, (ny, nx)))
    c.check("named", r.name() == "probability_of_%s_at_surface" % kind and str(r.units) == "1" and not r.coords("percentile"))
    i, j = c.index("cell", (ny, nx))
    v = c.at(lv, *(((2 if kind == "snow" else 0),) if pct else ()) + (i, j))
    g = c.at(h, i, j)
    if km and not c.symbolic and abs(float(v) - float(g)) < 1e-2:
        return
    yes = c.ge(g, v) if kind == "snow" else g < v
    c.check("phase", c.eq(c.at(r.data, i, j), c.ite(yes, 1, 0)))
    c.check("level kept", str(level.units) == ("km" if km else "m") and bool(level.coords("percentile")) == pct)


@contract("C38", [SP + ":SignificantPhaseMask.process", SP + ":SignificantPhaseMask._validate_snow_fraction",
                  SP + ":SignificantPhaseMask._rain_phase", SP + ":SignificantPhaseMask._snow_phase",
                  SP + ":SignificantPhaseMask._sleet_phase"], trials=150)
def phase_masks(c):
    """each point is in exactly one of the masks: rain up to 0.01 of snow, snow from 0.99, sleet between; other fields are refused"""
    np = c.np
    wrong = c.choice("wrong", ["nothing", "name", "units", "phase", "range", "gap"])
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (ny, nx), lo=0, hi=1, often=(0.0, 1.0))
    if wrong == "range":
        d = np.ones((ny, nx), dtype=np.float32) * 2
    gap = np.ones((ny, nx), dtype=bool) if wrong == "gap" else None
    cu = field(c, np.ma.masked_array(d.copy(), mask=gap) if wrong == "gap" else d.copy(), "snow_fraction", "1", attributes={"mosg__m": "uk"})
    if wrong == "name":
        cu.rename("rain_fraction")
    if wrong == "units":
        cu.units = "%"
    plugin = c.mod(SP).SignificantPhaseMask("mosg__m")
    if wrong != "nothing":
        exc = {"phase": KeyError, "gap": NotImplementedError}.get(wrong, ValueError)
        c.check("refused", c.raises(exc, lambda: plugin(cu, "hail" if wrong == "phase" else "rain"))[0])
        return
    got = {p: plugin(cu, p) for p in ("rain", "sleet", "snow")}
    i, j = c.index("cell", (ny, nx))
    v = c.at(d, i, j)
    if not c.symbolic and (abs(v - 0.01) < 1e-6 or abs(v - 0.99) < 1e-6):
        return
    want = {"rain": c.le(v, 0.01), "snow": c.ge(v, 0.99)}
    want["sleet"] = c.not_(c.or_(want["rain"], want["snow"]))
    for p, r in got.items():
        c.check("shape", c.same_shape(r.data, (ny, nx)))
        c.check("mask", c.eq(c.at(r.data, i, j), c.ite(want[p], 1, 0)))
        c.check("named", r.name() == p + "_mask" and str(r.units) == "1" and r.attributes.get("mosg__m") == "uk" and r.data.dtype == np.int8)
