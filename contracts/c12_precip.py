"""C12: precipitation fractions and phases."""
from vc import contract
from contracts._cubes import cube, field, realization, time_coords, yx

T = "improver.precipitation_type."


@contract("C12", T + "snow_fraction:SnowFraction.process", trials=100)
def snow_fraction(c):
    """snow over rain plus snow where anything falls; elsewhere the fraction of a nearest point where something does"""
    ny, nx = c.dim("ny"), c.dim("nx")
    nr = c.choice("members", [0, 2])
    sh = (nr, ny, nx) if nr else (ny, nx)
    rain = c.array("rain", sh, dtype="float32", lo=0, hi=50, often=[0, 0, 1])
    snow = c.array("snow", sh, dtype="float32", lo=0, hi=50, often=[0, 0, 1])
    km = c.flag("snow in mm")
    order = c.flag("snow first")
    lead = [realization(c, nr)] if nr else []
    sd = snow.copy()
    if km:
        sd = c.from_fn(sh, lambda *i: c.at(snow, *i) * 1000, "float32") if c.symbolic else sd * c.np.float32(1000)
    cr = field(c, rain.copy(), "rainfall_rate", "m s-1", lead=lead)
    cs = field(c, sd, "lwe_snowfall_rate", "mm s-1" if km else "m s-1", lead=lead)
    L = c.iris.cube.CubeList([cs, cr] if order else [cr, cs])
    k = c.index("member", (nr,)) if nr else None
    k = k[0] if isinstance(k, tuple) else k
    at = lambda a, i, j: c.at(a, k, i, j) if nr else c.at(a, i, j)
    r = c.mod(T + "snow_fraction").SnowFraction().process(L)
    c.check("name", r.name() == "snow_fraction" and str(r.units) == "1")
    i, j = c.index("point", (ny, nx))
    p, q = c.index("source", (ny, nx))
    R, S, v = at(rain, i, j), at(snow, i, j), at(r.data, i, j)
    fell = R + S > 0
    c.check("ratio", c.implies(fell, c.and_(c.not_(c.isnan(v)), c.near(v, S / c.ite(fell, R + S, 1), 1e-6))))
    src = at(rain, p, q) + at(snow, p, q) > 0
    c.check("fraction of one where it falls somewhere", c.implies(src, c.and_(c.not_(c.isnan(v)), v >= 0, v <= 1)))
    # nearest: the value of the closest point with precipitation
    other = lambda a, b: c.and_(at(rain, a, b) + at(snow, a, b) > 0, c.or_(c.not_(c.eq(a, p)), c.not_(c.eq(b, q))))
    dist = lambda a, b: (a - i) * (a - i) + (b - j) * (b - j)
    if c.symbolic:
        c.assume(c.and_(c.not_(fell), src))
        c.assume_all((ny, nx), lambda a, b: c.implies(other(a, b), dist(a, b) > dist(p, q)))
        close = True
    else:
        close = not fell and src and all(dist(a, b) > dist(p, q) for a in range(ny) for b in range(nx) if other(a, b))
    T2 = at(rain, p, q) + at(snow, p, q)
    c.check("nearest fraction", c.implies(close, c.near(v, at(snow, p, q) / c.ite(src, T2, 1), 1e-6)))


@contract("C12", T + "snow_fraction:SnowFraction.process", trials=40)
def snow_fraction_masked(c):
    """masked rain or snow rates are refused"""
    ny, nx = c.dim("ny"), c.dim("nx")
    rain = c.array("rain", (ny, nx), dtype="float32", lo=0, hi=50, mask=True)
    snow = c.array("snow", (ny, nx), dtype="float32", lo=0, hi=50, mask=True)
    i, j = c.index("point", (ny, nx))
    bad = c.or_(c.masked(rain, i, j), c.masked(snow, i, j))
    L = c.iris.cube.CubeList([field(c, rain, "rainfall_rate", "m s-1"), field(c, snow, "lwe_snowfall_rate", "m s-1")])
    c.use_index(i, j)
    raised, r = c.raises(ValueError, lambda: c.mod(T + "snow_fraction").SnowFraction().process(L))
    c.check("refused when masked", c.implies(bad, raised))


@contract("C12", T + "snow_splitter:SnowSplitter.process", trials=80)
def snow_splitter(c):
    """rain and snow rates are each the precipitation rate times a coefficient in [0, 1]; the two coefficients sum to one;
    where one phase is certain it takes everything; probabilities summing to more than one are refused"""
    ny, nx = c.dim("ny"), c.dim("nx")
    pr = c.array("rain", (ny, nx), dtype="float32", lo=0, hi=1, often=[0, 0.25, 0.5, 1])
    ps = c.array("snow", (ny, nx), dtype="float32", lo=0, hi=1, often=[0, 0.25, 0.5])
    rate = c.array("rate", (ny, nx), dtype="float32", lo=0, hi=50)
    i, j = c.index("point", (ny, nx))
    p, q = c.index("bad point", (ny, nx))
    ok = c.flag("valid probabilities")
    if ok:
        if c.symbolic:
            c.assume_all((ny, nx), lambda a, b: c.at(pr, a, b) + c.at(ps, a, b) <= 1)
        else:
            pr = c.np.minimum(pr, 1 - ps)
    else:
        c.assume(c.at(pr, p, q) + c.at(ps, p, q) > 1)
        c.use_index(p, q)
    mk = lambda: c.iris.cube.CubeList([field(c, pr.copy(), "probability_of_rain_at_surface", "1"),
                                       field(c, ps.copy(), "probability_of_snow_at_surface", "1"),
                                       field(c, rate.copy(), "lwe_precipitation_rate", "m s-1")])
    S = c.mod(T + "snow_splitter").SnowSplitter
    raised, r = c.raises(ValueError, lambda: S(output_is_rain=True).process(mk()))
    if not ok:
        c.check("refused", raised)
        return
    c.check("accepted", not raised)
    s = S(output_is_rain=False).process(mk())
    c.check("names", r.name() == "rainfall_rate" and s.name() == "lwe_snowfall_rate")
    R, Sn, P = c.at(r.data, i, j), c.at(s.data, i, j), c.at(rate, i, j)
    a, b = c.at(pr, i, j), c.at(ps, i, j)
    c.check("conserved", c.near(R + Sn, P, 1e-4))
    c.check("bounded", c.and_(R >= 0, Sn >= 0, R <= P + 1e-4, Sn <= P + 1e-4))
    c.check("rain share", c.near(R, P * (a - b + 1) / 2, 1e-4))
    c.check("snow share", c.near(Sn, P * (b - a + 1) / 2, 1e-4))


@contract("C12", T + "hail_fraction:HailFraction.process", trials=100)
def hail_fraction(c):
    """zero where the cloud base or top is wrong or hail melts above ground, else the updraught ramp from 5 to 50 m/s up to
    a quarter; at least 0.05 where hail stones exceed 2 mm"""
    ny, nx = c.dim("ny"), c.dim("nx")
    A = lambda n, lo, hi, vals=None: c.array(n, (ny, nx), dtype="float32", lo=lo, hi=hi, often=vals)
    w, size = A("updraught", 0, 70, [5, 50]), A("size", 0, 0.02, [0.001953125])
    ccl, cct = A("ccl", 200, 300), A("cct", 200, 300)
    melt, oro = A("melt", 0, 3000, [10]), A("oro", 0, 3000, [10])
    spec = [("maximum_vertical_updraught", "m s-1", w), ("diameter_of_hail_stones", "m", size),
            ("air_temperature_at_condensation_level", "K", ccl), ("air_temperature_at_convective_cloud_top", "K", cct),
            ("altitude_of_rain_from_hail_falling_level", "m", melt), ("surface_altitude", "m", oro)]
    cubes = [field(c, d.copy(), n, u) for n, u, d in spec]
    if c.flag("reversed"):
        cubes = cubes[::-1]
    r = c.mod(T + "hail_fraction").HailFraction().process(c.iris.cube.CubeList(cubes))
    c.check("name", r.name() == "hail_fraction" and str(r.units) == "1")
    i, j = c.index("point", (ny, nx))
    g = lambda a: c.at(a, i, j)
    v = g(r.data)
    ramp = c.ite(g(w) <= 5, 0, c.ite(g(w) >= 50, 0.25, (g(w) - 5) * 0.25 / 45))
    none = c.or_(g(ccl) < 268.15, g(cct) > 258.15, g(melt) > g(oro))
    base = c.ite(none, 0, ramp)
    big = g(size) > 0.002
    if not c.symbolic:      # comparisons of rounded limits
        c.assume(abs(float(g(ccl)) - 268.15) > 1e-4 and abs(float(g(cct)) - 258.15) > 1e-4 and abs(float(g(size)) - 0.002) > 1e-7)
    c.check("value", c.near(v, c.ite(c.and_(big, base < 0.05), 0.05, base), 1e-6))
    c.check("fraction", c.and_(v >= 0, v <= 0.250001))


@contract("C12", T + "convection:ConvectionRatioFromComponents.process", trials=100)
def convective_ratio(c):
    """convective over convective plus dynamic rate; undefined exactly where their sum is (nearly) zero; inputs unaltered"""
    ny, nx = c.dim("ny"), c.dim("nx")
    a = c.array("conv", (ny, nx), dtype="float32", lo=0, hi=1, often=[0, 0, 0.5])
    b = c.array("dyn", (ny, nx), dtype="float32", lo=0, hi=1, often=[0, 0, 0.5])
    mm = c.flag("convective in mm")
    d = a.copy()
    if mm:
        d = c.from_fn((ny, nx), lambda i, j: c.at(a, i, j) * 1000, "float32") if c.symbolic else d * c.np.float32(1000)
    x = field(c, d, "lwe_convective_precipitation_rate", "mm s-1" if mm else "m s-1")
    y = field(c, b.copy(), "lwe_stratiform_precipitation_rate", "m s-1")
    L = [y, x] if c.flag("dynamic first") else [x, y]
    r = c.mod(T + "convection").ConvectionRatioFromComponents().process(L)
    c.check("name", r.name() == "convective_ratio" and str(r.units) == "1")
    i, j = c.index("point", (ny, nx))
    A, B = c.at(a, i, j), c.at(b, i, j)
    tot = A + B
    if not c.symbolic:
        c.assume(abs(float(tot) - 1e-9) > 1e-11)
    some = tot > 1e-9
    c.check("undefined where nothing falls", c.iff(c.masked(r.data, i, j), c.not_(some)))
    v = c.at(r.data, i, j)
    c.check("ratio", c.implies(some, c.and_(c.near(v, A / c.ite(some, tot, 1), 1e-6), v >= 0, v <= 1)))
    c.check("units kept", str(x.units) == ("mm s-1" if mm else "m s-1"))


@contract("C12", T + "calculate_sleet_prob:calculate_sleet_probability", trials=80)
def sleet_probability(c):
    """rain, sleet and snow probabilities sum to one; rain and snow summing to more than one are refused"""
    ny, nx = c.dim("ny"), c.dim("nx")
    nr = c.choice("members", [0, 2])
    sh = (nr, ny, nx) if nr else (ny, nx)
    s = c.array("snow", sh, dtype="float32", lo=0, hi=1, often=[0, 0.25, 0.5])
    a = c.array("rain", sh, dtype="float32", lo=0, hi=1, often=[0, 0.25, 0.5])
    lead = [realization(c, nr)] if nr else []
    p = c.index("point", sh)
    b = c.index("bad", sh)
    ok = c.flag("valid")
    if ok:
        if c.symbolic:
            c.assume_all(sh, lambda *i: c.at(s, *i) + c.at(a, *i) <= 1)
        else:
            a = c.np.minimum(a, 1 - s)
    else:
        c.assume(c.at(s, *b) + c.at(a, *b) > 1.0001)
        c.use_index(*b)
    f = c.fn(T + "calculate_sleet_prob:calculate_sleet_probability")
    raised, r = c.raises(ValueError, lambda: f(field(c, s, "probability_of_snow", "1", lead=lead), field(c, a, "probability_of_rain", "1", lead=lead)))
    c.check("refused exactly when impossible", raised == (not ok))
    if ok:
        v = c.at(r.data, *p)
        c.check("sum to one", c.near(v + c.at(s, *p) + c.at(a, *p), 1, 1e-5))
        c.check("probability", c.and_(v >= 0, v <= 1))
