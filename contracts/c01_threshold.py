from vc import contract
from _cubes import field, realization

MOD = "improver.threshold"


def truth(c, x, op, thr, lo, hi, fuzzy):
    """specified truth value of one cell"""
    if not fuzzy:
        cond = {"gt": x > thr, "ge": x >= thr, "lt": x < thr, "le": x <= thr}[op]
        return c.ite(cond, 1.0, 0.0)
    below = c.ite(x <= lo, 0.0, 0.5 * (x - lo) / (thr - lo))
    above = c.ite(x >= hi, 1.0, 0.5 + 0.5 * (x - thr) / (hi - thr))
    v = c.ite(x < thr, below, above)
    return 1.0 - v if op in ("lt", "le") else v


NAMES = [("gt", ">"), ("ge", ">="), ("lt", "<"), ("le", "<="), ("gt", "gt"), ("ge", "GE"), ("lt", "lt"), ("le", "LE")]


@contract("C01", MOD + ":Threshold._calculate_truth_value", trials=300)
def truth_value_exact(c):
    """without fuzzy bounds the truth value is the named comparison of value and threshold"""
    op, name = c.choice("op", NAMES)
    thr = c.real("thr", -500, 500)
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (ny, nx), lo=-1000, hi=1000)
    if not c.symbolic:
        thr = float(c.np.float32(thr))
    T = c.mod(MOD).Threshold
    cube = field(c, d, "air_temperature", "K")
    p = T(threshold_values=thr, comparison_operator=name)
    r = p._calculate_truth_value(cube, p.thresholds[0], p.fuzzy_bounds[0])
    c.check("shape", c.same_shape(r, d))
    c.check("float32", c.dtype_is(r, "float32"))
    c.check_all("truth value is the comparison", (ny, nx),
                lambda i, j: c.eq(c.at(r, i, j), truth(c, c.at(d, i, j), op, thr, None, None, False)))


@contract("C01", [MOD + ":Threshold._calculate_truth_value", "improver.utilities.rescale:rescale"], trials=300)
def truth_value_fuzzy(c):
    """with fuzzy bounds the truth value is the linear ramp, within [0, 1], one half at the threshold"""
    op, name = c.choice("op", NAMES[:4])
    thr = c.real("thr", -500, 500)
    lo = c.real("lo", -600, 500)
    hi = c.real("hi", -500, 600)
    c.assume(thr - lo > 0.5)
    c.assume(hi - thr > 0.5)
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (ny, nx), lo=-1000, hi=1000)
    T = c.mod(MOD).Threshold
    cube = field(c, d, "air_temperature", "K")
    p = T(threshold_config={"1.0": [0.5, 2.0]}, comparison_operator=name)
    r = p._calculate_truth_value(cube, thr, (lo, hi))
    c.check_all("value is the ramp", (ny, nx),
                lambda i, j: c.eq(c.at(r, i, j), truth(c, c.at(d, i, j), op, thr, lo, hi, True), tol=1e-3))
    c.check_all("in [0, 1]", (ny, nx), lambda i, j: c.and_(c.ge(c.at(r, i, j), 0), c.le(c.at(r, i, j), 1)))


@contract("C01", MOD + ":Threshold.__init__", trials=200)
def fuzzy_factor_bounds(c):
    """a fuzzy factor f bounds each threshold t by t*f and t*(2-f) (ordered); without it both bounds equal t"""
    thr = c.real("thr", -500, 500)
    c.assume(c.abs(thr) > 0.001)
    ff = c.real("ff", 0.01, 0.99)
    use = c.flag("use")
    T = c.mod(MOD).Threshold
    p = T(threshold_values=[thr], fuzzy_factor=ff if use else None)
    lo, hi = p.fuzzy_bounds[0]
    if use:
        c.check("lower", c.eq(lo, c.min(thr * ff, thr * (2 - ff))))
        c.check("upper", c.eq(hi, c.max(thr * ff, thr * (2 - ff))))
    else:
        c.check("lower", c.eq(lo, thr))
        c.check("upper", c.eq(hi, thr))
    c.check("threshold kept", c.eq(p.thresholds[0], thr))


@contract("C01", [MOD + ":Threshold.process", MOD + ":Threshold._create_threshold_cube"], budget=120, trials=200)
def threshold_process(c):
    """process: one truth-value slice per threshold, in the order of thresholds; masked points stay masked"""
    op, name = c.choice("op", NAMES[:4])
    masked = c.flag("masked")
    thr = [c.real("t0", -500, 500), c.real("t1", -500, 500)]
    c.assume(thr[1] - thr[0] > 0.5)
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    d = c.array("d", (ny, nx), lo=-1000, hi=1000, mask=masked)
    if not c.symbolic:
        thr = [float(c.np.float32(t)) for t in thr]
    d0 = c.snap(d)
    cube = field(c, d, "air_temperature", "K")
    r = c.mod(MOD).Threshold(threshold_values=thr, comparison_operator=name)(cube)
    c.check("shape", c.same_shape(r.data, (2, ny, nx)))
    co = r.coord(var_name="threshold")
    for k in range(2):
        c.check("threshold coordinate", c.eq(c.at(co.points, k), thr[k]))

        def post(i, j):
            m = c.masked(d0, i, j)
            return c.and_(c.iff(c.masked(r.data, k, i, j), m),
                          c.implies(c.not_(m), c.eq(c.at(r.data, k, i, j),
                                                    truth(c, c.at(d0, i, j), op, thr[k], None, None, False))))
        c.check_all("truth value slice %d" % k, (ny, nx), post)


@contract("C01", [MOD + ":Threshold.process"], budget=120, trials=200)
def threshold_collapse_realizations(c):
    """collapsing realizations: the mean truth value over the realizations with valid data at the point"""
    nr = c.choice("nr", [1, 2, 3])
    masked = c.flag("masked")
    thr = c.real("t0", -500, 500)
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    d = c.array("d", (nr, ny, nx), lo=-1000, hi=1000, mask=masked)
    if not c.symbolic:
        thr = float(c.np.float32(thr))
    d0 = c.snap(d)
    cube = field(c, d, "air_temperature", "K", lead=[realization(c, nr)])
    r = c.mod(MOD).Threshold(threshold_values=[thr], comparison_operator=">=", collapse_coord="realization")(cube)
    c.check("shape", c.same_shape(r.data, (ny, nx)))

    def post(i, j):
        valid = [c.not_(c.masked(d0, k, i, j)) for k in range(nr)]
        n, s = 0, 0.0
        for k in range(nr):
            n = n + c.ite(valid[k], 1, 0)
            s = s + c.ite(c.and_(valid[k], c.at(d0, k, i, j) >= thr), 1.0, 0.0)
        none = c.eq(n, 0)
        return c.and_(c.iff(c.masked(r.data, i, j), none),
                      c.implies(c.not_(none), c.eq(c.at(r.data, i, j), s / c.ite(none, 1, n))))
    c.check_all("mean over valid members", (ny, nx), post)


@contract("C01", [MOD + ":LatitudeDependentThreshold.process"], budget=90, trials=200)
def threshold_latitude(c):
    """a latitude-dependent threshold compares each row with the threshold function of its latitude"""
    op, name = c.choice("op", NAMES[:4])
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    masked = c.flag("masked")
    d = c.array("d", (ny, nx), lo=-1000, hi=1000, mask=masked)
    a, b = c.real("a", -10, 10), c.real("b", -300, 300)
    d0 = c.snap(d)
    cube = field(c, d, "air_temperature", "K", kind="latlon")
    lat = c.snap(cube.coord("latitude").points)
    r = c.mod(MOD).LatitudeDependentThreshold(lambda lat: lat * a + b, comparison_operator=name)(cube)

    def post(i, j):
        m = c.masked(d0, i, j)
        t = c.at(lat, i) * a + b
        x = c.at(d0, i, j)
        ok = c.or_(m, c.eq(c.at(r.data, i, j), truth(c, x, op, t, None, None, False)))
        if not c.symbolic and abs(x - t) < 1e-3:
            return True
        return c.and_(ok, c.iff(c.masked(r.data, i, j), m))
    c.check_all("row truth value", (ny, nx), post)


@contract("C01", [MOD + ":Threshold.process", MOD + ":Threshold._set_thresholds", MOD + ":Threshold._generate_fuzzy_bounds",
                  MOD + ":Threshold._create_threshold_cube", MOD + ":Threshold._update_metadata",
                  MOD + ":Threshold._add_threshold_coord"], budget=150, trials=200)
def threshold_in_other_units(c):
    """thresholds and bounds stated in other units apply to the values in those units; the result is dimensionless, says which
    comparison was made, and gives the thresholds in the units of the field; masked points can be given a value first"""
    np = c.np
    op, name = c.choice("op", NAMES[:4])
    how = c.choice("how", ["plain", "factor", "config"])
    fill = c.choice("masked", ["none", "kept", "filled"])
    t = [c.real("t0", 1, 20), c.real("t1", 21, 40)]
    if not c.symbolic:
        t = [float(np.float32(v)) for v in t]
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    d = c.array("d", (ny, nx), lo=270, hi=320, mask=fill != "none")
    d0 = c.snap(d)
    cu = field(c, d, "air_temperature", "K")
    cu.cell_methods = (c.iris.coords.CellMethod("maximum", coords="time"),)
    T = c.mod(MOD).Threshold
    kw = dict(threshold_units="celsius", comparison_operator=name)
    if fill == "filled":
        kw["fill_masked"] = 290.0
    if how == "config":
        p = T(threshold_config={"7.0": [5.0, 10.0], "12.0": [11.0, 16.0]}, **kw)
        t, b = [7.0, 12.0], [(5.0, 10.0), (11.0, 16.0)]
    else:
        p = T(threshold_values=t, fuzzy_factor=0.5 if how == "factor" else None, **kw)
        b = [(v * 0.5, v * 1.5) for v in t]
    r = p(cu)
    c.check("shape", c.same_shape(r.data, (2, ny, nx)))
    co = r.coord("air_temperature")
    rel = {"gt": "greater_than", "ge": "greater_than_or_equal_to", "lt": "less_than", "le": "less_than_or_equal_to"}[op]
    c.check("threshold coordinate", co.var_name == "threshold" and str(co.units) == "K" and
            co.attributes["spp__relative_to_threshold"] == rel and tuple(r.coord_dims(co)) == (0,))
    c.check("types", c.dtype_is(r.data, "float32") and c.dtype_is(co.points, "float32"))
    c.check("probability", str(r.units) == "1" and
            r.name() == "probability_of_air_temperature_%s_threshold" % ("above" if op[0] == "g" else "below"))
    c.check("method", [(m.method, tuple(m.coord_names), tuple(m.comments)) for m in r.cell_methods]
            == [("maximum", ("time",), ("of air_temperature",))])
    i, j = c.index("point", (ny, nx))
    m = c.masked(d0, i, j) if fill == "kept" else False
    x = c.at(d0, i, j) if fill != "filled" else c.ite(c.masked(d0, i, j), 290.0, c.at(d0, i, j))
    x = x - 273.15
    for k in range(2):
        c.check("threshold in the field's units", c.near(c.at(co.points, k), t[k] + 273.15, 1e-3))
        v = truth(c, x, op, t[k], b[k][0], b[k][1], how != "plain")
        near = c.abs(x - t[k]) < 1e-3 if how == "plain" else False
        c.check("missing", c.iff(c.masked(r.data, k, i, j), m))
        c.check("truth value", c.or_(m, near, c.near(c.at(r.data, k, i, j), v, 1e-3)))


@contract("C01", MOD + ":Threshold.process", trials=60)
def threshold_refusals(c):
    """not-a-number values, land masks without a vicinity and fuzzy factors about zero are refused"""
    np = c.np
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    T = c.mod(MOD).Threshold
    d = c.array("d", (ny, nx), lo=270, hi=320, nan=True)
    i, j = c.index("point", (ny, nx))
    cu = field(c, d, "air_temperature", "K")
    if c.symbolic:
        c.assume(c.isnan(c.at(d, i, j)))
    else:
        cu.data[i, j] = np.nan
    c.check("nan refused", c.raises(ValueError, lambda: T(threshold_values=[280.0])(cu))[0])
    lm = field(c, c.array("lm", (ny, nx), dtype="int8", lo=0, hi=1), "land_binary_mask")
    ok = field(c, c.array("e", (ny, nx), lo=270, hi=320), "air_temperature", "K")
    c.check("land mask refused", c.raises(ValueError, lambda: T(threshold_values=[280.0])(ok, lm))[0])
    c.check("zero and factor", c.raises(ValueError, lambda: T(threshold_values=[0.0], fuzzy_factor=0.5))[0])
    c.check("factor beyond", c.raises(ValueError, lambda: T(threshold_values=[1.0], fuzzy_factor=1.5))[0])
    c.check("bounds beside the threshold", c.raises(ValueError, lambda: T(threshold_config={"2.0": [3.0, 4.0]}))[0])


@contract("C01", [MOD + ":Threshold.process", MOD + ":Threshold._vicinity_processing"], budget=150, trials=150)
def threshold_in_vicinity(c):
    """with vicinities, each member's truth values become the largest among valid points of the same kind of surface within each
    radius, before realizations are averaged"""
    np = c.np
    fuzzy = c.flag("fuzzy")
    masked = c.flag("masked")
    nr = c.choice("members", [0, 2])
    land = c.flag("land mask")
    radii = c.choice("radii", [[2000.0], [2000.0, 4500.0]])
    op = c.choice("op", ["gt", "le"])
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    d = c.array("d", ((nr,) if nr else ()) + (ny, nx), lo=270, hi=320, mask=masked)
    d0 = c.snap(d)
    cu = field(c, d, "air_temperature", "K", lead=[realization(c, nr)] if nr else [])
    lm = field(c, c.array("lm", (ny, nx), dtype="int8", lo=0, hi=1), "land_binary_mask") if land else None
    kw = dict(comparison_operator=op, vicinity=radii, collapse_coord="realization" if nr else None)
    p = c.mod(MOD).Threshold(threshold_config={"290.0": [288.0, 293.0]}, **kw) if fuzzy else \
        c.mod(MOD).Threshold(threshold_values=[290.0], **kw)
    i, j = c.index("point", (ny, nx))
    if c.symbolic:
        e, f = c.index("elsewhere", (ny, nx))
        bit = lambda v: c.ite(v, 1.0, 0.0)

        def know(v, w, away, w_away, k, k_away, rad):
            return c.opaque("vic", v, c.ite(w, 0.0, away), bit(w_away), k, k_away, rad)

        def spread(g, rad, l=None):
            G = c.snap(g)
            at = lambda a, b: 0.0 if l is None else bit(c.at(l, a, b))
            out = c.from_fn((ny, nx), lambda a, b: know(c.at(G, a, b), c.masked(G, e, f), c.at(G, e, f), c.masked(G, e, f), at(a, b),
                                                        at(e, f), rad), "float32")
            m = c.from_fn((ny, nx), lambda a, b: c.masked(G, a, b), bool)
            return c.masked_array(out, m) if masked else out
        c.cut(MOD + ":maximum_within_vicinity", spread)
    for k in range(2):
        c.use_index(k, i, j)
        c.use_index(0, k, i, j)
    r = p(cu, lm) if land else p(cu)
    one = len(radii) == 1
    c.check("shape", c.same_shape(r.data, (ny, nx) if one else (2, ny, nx)))
    c.check("radius", c.and_(*[c.eq(c.at(r.coord("radius_of_vicinity").points, k), v) for k, v in enumerate(radii)]))
    c.check("name", r.name() == "probability_of_air_temperature_in_vicinity_%s_threshold" % ("above" if op == "gt" else "below"))
    tv = lambda h, a, b: truth(c, c.at(d0, *(h + (a, b))), op, 290.0, 288.0, 293.0, fuzzy)
    hs = [(k,) for k in range(nr)] if nr else [()]
    for k, rad in enumerate(radii):
        w = int(rad // 2000)
        n, s = 0, 0.0
        for h in hs:
            best = -1.0
            if c.symbolic:
                kind = lambda a, b: bit(c.eq(c.at(lm.data, a, b), 1)) if land else 0.0
                away = c.masked(d0, *(h + (e, f)))
                best = know(tv(h, i, j), away, tv(h, e, f), away, kind(i, j), kind(e, f), w)
            for a in range(-w, w + 1) if not c.symbolic else ():
                for b in range(-w, w + 1):
                    y, x = c.min(c.max(i + a, 0), ny - 1), c.min(c.max(j + b, 0), nx - 1)
                    inside = c.and_(c.eq(y, i + a), c.eq(x, j + b))
                    y, x = int(y), int(x)
                    kind = c.eq(c.at(lm.data, y, x), c.at(lm.data, i, j)) if land else True
                    use = c.and_(inside, kind, c.not_(c.masked(d0, *(h + (y, x)))))
                    best = c.ite(use, c.max(best, tv(h, y, x)), best)
            v = c.not_(c.masked(d0, *(h + (i, j))))
            n = n + c.ite(v, 1, 0)
            s = s + c.ite(v, best, 0.0)
        ix = (i, j) if one else (k, i, j)
        none = c.eq(n, 0)
        c.check("missing", c.iff(c.masked(r.data, *ix), none))
        c.check("largest in the vicinity", c.or_(none, c.near(c.at(r.data, *ix), s / c.ite(none, 1, n), 1e-3)))
