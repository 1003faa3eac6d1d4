from vc import contract
from _cubes import cube, dimcoord, field, realization, threshold_coord, time_coords, yx, EPOCH
from _spots import neighbours, sites

B = "improver.calibration.simple_bias_correction"
CI = "improver.calibration"
Z = "improver.calibration.dz_rescaling"
DAY = 86400


def _series(c, data, name, n, frt=True, hour=3, lead=3600, bounds=False):
    """n forecasts a day apart, each for the same hour"""
    np, D = c.np, c.iris.coords.DimCoord
    A = c.iris.coords.AuxCoord
    fr = [DAY * (k + 1) + hour * 3600 for k in range(n)]
    y, x = yx(c, *data.shape[-2:])
    if n == 1:
        t = D(np.array(fr[0] + lead, dtype=np.int64), standard_name="time", units=EPOCH)
        f = D(np.array(fr[0], dtype=np.int64), standard_name="forecast_reference_time", units=EPOCH)
        p = D(np.array(lead, dtype=np.int32), standard_name="forecast_period", units="seconds")
        return cube(c, data, name, "K", [y, x], [(t, None), (p, None), (f, None)])
    t = D(np.array([v + lead for v in fr], dtype=np.int64), standard_name="time", units=EPOCH)
    f = A(np.array(fr, dtype=np.int64), standard_name="forecast_reference_time", units=EPOCH)
    p = A(np.array(lead, dtype=np.int32), standard_name="forecast_period", units="seconds")
    return cube(c, data, name, "K", [t, y, x], [(f, 0), (p, None)])


@contract("C28", [B + ":CalculateForecastBias.process", B + ":evaluate_additive_error", B + ":CalculateForecastBias._create_bias_cube"],
          trials=120, budget=150)
def bias_learnt(c):
    """the bias at a point is the mean of forecast less truth over the pairs of equal validity time in which both are there; it is
    missing where there is no such pair; the reference times used are recorded"""
    n = c.choice("pairs", [1, 2, 3])
    ny, nx = c.dim("ny"), c.dim("nx")
    m = c.choice("masked", [None, "truth", "both"])
    sh = ((n,) if n > 1 else ()) + (ny, nx)
    d = c.array("forecast", sh, dtype="float32", lo=250, hi=300)
    e = c.array("truth", sh, dtype="float32", lo=250, hi=300)
    md = c.array("no forecast", sh, dtype="bool") if m == "both" else None
    me = c.array("no truth", sh, dtype="bool") if m else None
    f = _series(c, d if md is None else c.masked_array(d, md), "air_temperature", n)
    t = _series(c, e if me is None else c.masked_array(e, me), "air_temperature", n)
    i, j = c.index("point", (ny, nx))
    for k in range(n):
        c.use_index(*(((k,) if n > 1 else ()) + (i, j)))
    r = c.mod(B).CalculateForecastBias().process(f, t)
    c.check("shape", c.same_shape(r.data, (ny, nx)))
    c.check("name", r.name() == "forecast_error_of_air_temperature" and str(r.units) == "K")
    c.check("coordinates", not r.coords("time") and int(r.coord("forecast_period").points[0]) == 3600)
    fr = r.coord("forecast_reference_time")
    c.check("latest cycle", int(fr.points[0]) == DAY * n + 3 * 3600)
    if n > 1:
        c.check("cycles used", [int(v) for v in fr.bounds[0]] == [DAY + 3 * 3600, DAY * n + 3 * 3600])
    else:
        c.check("one cycle has no bounds", fr.bounds is None)
    ix = lambda k: ((k,) if n > 1 else ()) + (i, j)
    tot, num = 0.0, 0
    for k in range(n):
        ok = True
        for q in (md, me):
            if q is not None:
                ok = c.and_(ok, c.not_(c.at(q, *ix(k))))
        tot = tot + c.ite(ok, c.at(d, *ix(k)) - c.at(e, *ix(k)), 0.0)
        num = num + c.ite(ok, 1, 0)
    if m:
        c.check("missing", c.iff(c.masked(r.data, i, j), c.eq(num, 0)))
    got = c.at(c.np.ma.getdata(r.data), i, j)
    c.check("mean", c.or_(c.eq(num, 0), c.near(got * num, tot, 1e-3)))
    for k in range(n):
        c.check("inputs left alone", c.and_(c.eq(c.at(c.np.ma.getdata(f.data), *ix(k)), c.at(d, *ix(k))),
                                            c.eq(c.at(c.np.ma.getdata(t.data), *ix(k)), c.at(e, *ix(k)))))


@contract("C28", B + ":CalculateForecastBias._ensure_single_valued_forecast", trials=30)
def one_value_each(c):
    """probabilities, and forecasts with several realizations or percentiles, are refused as training forecasts"""
    kind = c.choice("kind", ["realization", "percentile", "threshold"])
    n = c.choice("n", [1, 2])
    d = c.array("d", (n, c.dim("ny"), c.dim("nx")), dtype="float32", lo=0, hi=1)
    lead = {"realization": lambda: realization(c, n), "percentile": lambda: dimcoord(c, "percentile", [25.0 * (k + 1) for k in range(n)], "%"),
            "threshold": lambda: threshold_coord(c, [280.0 + k for k in range(n)])}[kind]()
    f = field(c, d, "probability_of_air_temperature_above_threshold" if kind == "threshold" else "air_temperature",
              "1" if kind == "threshold" else "K", lead=[lead])
    bad, r = c.raises(ValueError, lambda: c.mod(B).CalculateForecastBias()._ensure_single_valued_forecast(f))
    c.check("refused", bad == (kind == "threshold" or n > 1))


def _bias(c, d, frt, mask=None, bounds=None, lead=3600):
    np, D = c.np, c.iris.coords.DimCoord
    y, x = yx(c, *d.shape)
    f = D(np.array(frt, dtype=np.int64), standard_name="forecast_reference_time", units=EPOCH,
          bounds=None if bounds is None else np.array(bounds, dtype=np.int64))
    p = D(np.array(lead, dtype=np.int32), standard_name="forecast_period", units="seconds")
    return cube(c, d.copy() if mask is None else c.masked_array(d.copy(), mask), "forecast_error_of_air_temperature", "K", [y, x],
                [(f, None), (p, None)])


@contract("C28", [B + ":ApplyBiasCorrection.process", B + ":ApplyBiasCorrection._get_mean_bias", B + ":apply_additive_correction",
                  CI + ":split_forecasts_and_bias_files", "improver.utilities.cube_manipulation:clip_cube_data"], trials=150, budget=150, max_paths=6000)
def bias_removed(c):
    """each member has the mean of the given biases taken off it, is then limited to the bounds, and is missing (or, if so requested,
    left as it is) where the bias is; neither the forecast nor the biases are altered"""
    n = c.choice("biases", [1, 2, 3])
    ny, nx = c.dim("ny"), c.dim("nx")
    masked = c.choice("masked", [None, "one", "all"])
    fill = c.flag("fill")
    lo, hi = c.choice("bounds", [(None, None), (255.0, None), (255.0, 290.0)])
    d = c.array("forecast", (2, ny, nx), dtype="float32", lo=250, hi=300)
    bs = [c.array("bias%d" % k, (ny, nx), dtype="float32", lo=-20, hi=20) for k in range(n)]
    ms = [c.array("mask%d" % k, (ny, nx), dtype="bool") if masked == "all" or (masked and k == 0) else None for k in range(n)]
    np = c.np
    H = DAY * 9 + 3 * 3600
    f = field(c, d.copy(), "air_temperature", "K", lead=[realization(c, 2)], time=False)
    D = c.iris.coords.DimCoord
    for co in (D(np.array(H + 3600, dtype=np.int64), standard_name="time", units=EPOCH),
               D(np.array(H, dtype=np.int64), standard_name="forecast_reference_time", units=EPOCH),
               D(np.array(3600, dtype=np.int32), standard_name="forecast_period", units="seconds")):
        f.add_aux_coord(co)
    cubes = [_bias(c, b, H - DAY * (n - k), m) for k, (b, m) in enumerate(zip(bs, ms))]
    i, j = c.index("point", (ny, nx))
    mem = c.choice("member", [0, 1])
    for k in range(2):
        c.use_index(k, i, j)
    c.use_index(i, j)
    at = c.choice("forecast at", [0, 1]) if n == 2 and not masked else 0
    r = c.mod(B).ApplyBiasCorrection(lo, hi, fill).process(c.iris.cube.CubeList(cubes[:at] + [f] + cubes[at:]))
    tot, num = 0.0, 0
    for b, m in zip(bs, ms):
        ok = True if m is None else c.not_(c.at(m, i, j))
        tot, num = tot + c.ite(ok, c.at(b, i, j), 0.0), num + c.ite(ok, 1, 0)
    got = c.at(np.ma.getdata(r.data), mem, i, j)
    v = c.at(d, mem, i, j)
    none = c.eq(num, 0)
    c.check("shape", c.same_shape(r.data, (2, ny, nx)))
    c.check("missing", c.iff(c.masked(r.data, mem, i, j), False if fill else none))

    def lim(w, low, high):
        if lo is not None:
            w = c.ite(w < lo * num if low else w < lo, lo * num if low else lo, w)
        if hi is not None:
            w = c.ite(w > hi * num if low else w > hi, hi * num if low else hi, w)
        return w
    c.check("corrected", c.or_(none, c.near(got * num, lim(v * num - tot, True, True), 1e-2)))
    if fill:
        c.check("filled", c.implies(none, c.near(got, lim(v, False, False), 1e-3)))
    c.check("forecast left alone", c.eq(c.at(f.data, mem, i, j), v))
    c.check("name", r.name() == "air_temperature")
    for b, m, q in zip(bs, ms, cubes):
        c.check("bias left alone", c.and_(c.iff(c.masked(q.data, i, j), False if m is None else c.at(m, i, j)),
                                          c.or_(False if m is None else c.at(m, i, j), c.eq(c.at(np.ma.getdata(q.data), i, j), c.at(b, i, j)))))


@contract("C28", [B + ":ApplyBiasCorrection._check_forecast_bias_consistent", B + ":ApplyBiasCorrection._get_mean_bias",
                  B + ":ApplyBiasCorrection._split_forecasts_and_bias", CI + ":add_warning_comment"], trials=60)
def bias_applies(c):
    """biases of another cycle hour or lead time, and several of which one is a mean over cycles already, are refused; without any the
    forecast comes back as it is, with a warning in its comment"""
    kind = c.choice("kind", ["good", "none", "other hour", "second of other hour", "other lead", "second of other lead", "mean", "one mean",
                             "two forecasts", "no forecast"])
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("forecast", (ny, nx), dtype="float32", lo=250, hi=300)
    b = [c.array("bias%d" % k, (ny, nx), dtype="float32", lo=-20, hi=20) for k in range(2)]
    H = DAY * 9 + 3 * 3600
    f = lambda: field(c, d.copy(), "air_temperature", "K", time=False, aux=time_coords(c, H + 3600, H))
    h = [3600 * (kind == "other hour"), 3600 * (kind in ("other hour", "second of other hour"))]
    p = [3600 + 3600 * (kind == "other lead"), 3600 + 3600 * (kind in ("other lead", "second of other lead"))]
    bd = [H - 3 * DAY, H - 2 * DAY] if kind in ("mean", "one mean") else None
    q = [_bias(c, b[0], H - 2 * DAY + h[0], None, bd, p[0]), _bias(c, b[1], H - DAY + h[1], None, None, p[1])]
    q = q[:1] if kind == "one mean" else [] if kind == "none" else q
    fc = [f()] + ([f()] if kind == "two forecasts" else [])
    bad, r = c.raises(ValueError, lambda: c.mod(B).ApplyBiasCorrection().process(
        c.iris.cube.CubeList(([] if kind == "no forecast" else fc) + q)))
    c.check("refused", bad == (kind not in ("good", "none", "one mean")))
    if kind == "none" and not bad:
        i, j = c.index("point", (ny, nx))
        c.check("same", c.eq(c.at(r.data, i, j), c.at(d, i, j)))
        c.check("comment", r.attributes["comment"].startswith("Warning: "))


@contract("C28", [Z + ":EstimateDzRescaling._compute_scaled_dz"], trials=100)
def displacement_factor(c):
    """the factor at a site is exp(-scale * displacement), limited to the factors of the bounds"""
    n = c.dim("n")
    lo, hi = c.choice("bounds", [(None, None), (-100, 200), (-100, None), (None, 50)])
    s = c.choice("scale", [0.01, -0.02, 0.0])
    d = c.array("dz", (n,), dtype="float32", lo=-400, hi=400)
    P = c.mod(Z).EstimateDzRescaling(forecast_period=6, dz_lower_bound=lo, dz_upper_bound=hi)
    if s == 0 and (lo is None or hi is None):
        return
    r = P._compute_scaled_dz(s, d)
    i = c.index("site", (n,))[0]
    v = c.at(d, i)
    e = c.f("exp", -s * v) if s else 1.0
    if s:
        ends = [float(c.np.exp(-s * b)) for b in (lo, hi) if b is not None]
        low = min(ends) if lo is not None and hi is not None or (lo is not None and s < 0) or (hi is not None and s > 0) else None
        top = max(ends) if lo is not None and hi is not None or (lo is not None and s > 0) or (hi is not None and s < 0) else None
        e = e if low is None else c.ite(e < low, low, e)
        e = e if top is None else c.ite(e > top, top, e)
    c.check("factor", c.near(c.at(r, i), e, 1e-3 if c.symbolic else 1e-4 * e, True))


def _factors(c, n, hours, leads, order=None):
    """factors of each lead time and cycle hour"""
    np = c.np
    A, D = c.iris.coords.AuxCoord, c.iris.coords.DimCoord
    out, cubes = {}, c.iris.cube.CubeList()
    for h in hours:
        for p in leads:
            a = c.array("factor%d_%d" % (h, p), (n,), dtype="float32", lo=0.5, hi=2)
            out[h, p] = a
            q = sites(c, a, "scaled_vertical_displacement", "1")
            q.add_aux_coord(D(np.array(p * 3600, dtype=np.int32), standard_name="forecast_period", units="seconds"))
            q.add_aux_coord(D(np.array(h * 3600, dtype=np.int32), long_name="forecast_reference_time_hour", units="seconds"))
            cubes.append(q)
    return out, cubes.merge_cube()


@contract("C28", [Z + ":ApplyDzRescaling.process", Z + ":ApplyDzRescaling._create_forecast_period_constraint",
                  Z + ":ApplyDzRescaling._create_forecast_reference_time_constraint", Z + ":ApplyDzRescaling._check_mismatched_sites"],
          trials=120)
def rescaled(c):
    """each site is multiplied by its own factor: that of the first lead time not shorter than the forecast's (else the longest) and of
    the forecast's cycle hour, or the nearest hour within the leniency, around midnight too; anything else is refused"""
    np = c.np
    n = c.dim("n")
    lead = c.choice("lead", [3, 6, 9, 12, 15])
    hour = c.choice("hour", [2, 3, 4, 5, 23, 1, 0])
    lenient = c.choice("leniency", [0, 1, 2])
    hours = c.choice("hours", [[3], [0, 3]])
    fac, dz = _factors(c, n, hours, [6, 12])
    d = c.array("forecast", (2, n), dtype="float32", lo=0, hi=30)
    H = DAY * 9 + hour * 3600
    pc = dimcoord(c, "percentile", [25.0, 75.0], "%")
    f = sites(c, d.copy(), "wind_speed", "m s-1", lead=[pc], aux=time_coords(c, H + lead * 3600, H))
    dist = {h: min((hour - h) % 24, (h - hour) % 24) for h in hours}
    ok = [h for h in hours if dist[h] <= lenient]
    bad, r = c.raises(ValueError, lambda: c.mod(Z).ApplyDzRescaling(frt_hour_leniency=lenient).process(f, dz))
    c.check("refused", bad == (not ok))
    if bad:
        return
    h = min(ok, key=lambda q: dist[q])
    p = 6 if lead <= 6 else 12
    i = c.index("site", (n,))[0]
    for k in range(2):
        c.check("factor", c.near(c.at(r.data, k, i), c.at(d, k, i) * c.at(fac[h, p], i), 1e-3))
    c.check("name", r.name() == "wind_speed" and str(r.units) == "m s-1")


@contract("C28", [Z + ":EstimateDzRescaling.process", Z + ":EstimateDzRescaling._fit_polynomial",
                  Z + ":EstimateDzRescaling._compute_scaled_dz_cube", Z + ":EstimateDzRescaling._create_hour_coord"], trials=100)
def rescaling_learnt(c):
    """the line is fitted to the logarithm of the median forecast over the truth against displacement, over exactly the sites common to
    all inputs, the times common to forecasts and truths, and the pairs within the displacement bounds without zeros; every site
    of the neighbour cube then gets its factor, for the stated lead time and the hour of the cycle it belongs to"""
    import types
    np = c.np
    slope, (lo, hi), (method, mk), common, (lead, hour) = c.choice("setting", [
        (0.01, (None, None), ("nearest", {}), (2, 2), (6, 3)),
        (0.01, (-100, 200), ("nearest_land", dict(land_constraint=True)), (1, 2), (6, 22)),
        (-0.02, (-100, 200), ("nearest", {}), (1, 2), (6, 3)),
        (-0.02, (None, None), ("nearest_land", dict(land_constraint=True)), (2, 1), (6, 22))])   # sites of forecast and truth of three
    seen = []

    def fit(x, y, deg):
        seen.append((x, y, deg))
        return np.array([0.25, slope])
    c.replace(Z + ":polyfit", fit)
    c.replace(Z + ":poly1d", lambda k: types.SimpleNamespace(coef=k))
    dz = [c.array("dz %d" % k, (3,), dtype="float32", lo=-300, hi=300) for k in range(2)]
    zero = np.zeros((3,), dtype=np.float32)
    M = c.np.stack
    nb = neighbours(c, M([zero, zero]), M([zero, zero]), M(dz))
    D, A = c.iris.coords.DimCoord, c.iris.coords.AuxCoord
    fr = [DAY + hour * 3600, 2 * DAY + hour * 3600]

    def site_dim(k):
        return [(dimcoord(c, "spot_index", list(range(k)), "1", dtype="int32"), A(np.array([3000 + q for q in range(k)], dtype=np.int32), long_name="wmo_id", units="no_unit"))][0]
    nf, nt = common
    n = min(common)
    fdat = c.array("forecast", (2, 3, nf), dtype="float32", lo=0, hi=30)     # percentile, time, site
    tdat = c.array("truth", (3, nt), dtype="float32", lo=0, hi=30)
    f0 = [[c.at(fdat, 1, t, s) for s in range(n)] for t in range(3)]
    t0 = [[c.at(tdat, t, s) for s in range(n)] for t in range(3)]
    times = [v + lead * 3600 for v in fr] + [3 * DAY + (hour + lead) * 3600]
    ttimes = times[:2] + [times[2] + DAY]
    per = A(np.array(lead * 3600, dtype=np.int32), standard_name="forecast_period", units="seconds")

    def series(data, tm, k, pre):
        ax = len(pre)
        si, wm = site_dim(k)
        t = D(np.array(tm, dtype=np.int64), standard_name="time", units=EPOCH)
        q = cube(c, data, "wind_speed", "m s-1", pre + [t, si], [(wm, ax + 1)])
        q.add_aux_coord(A(np.array([v - lead * 3600 for v in tm], dtype=np.int64), standard_name="forecast_reference_time", units=EPOCH), ax)
        q.add_aux_coord(per.copy())
        return q
    f = series(fdat, times, nf, [dimcoord(c, "percentile", [25.0, 50.0], "%")])
    t = series(tdat, ttimes, nt, [])
    P = c.mod(Z).EstimateDzRescaling(forecast_period=lead, dz_lower_bound=lo, dz_upper_bound=hi, **mk)
    r = P.process(f, t, nb)
    row = 1 if mk else 0
    c.check("straight line", len(seen) == 1 and seen[0][2] == 1)
    x, y = (v.materialise() if hasattr(v, "materialise") else v for v in seen[0][:2])
    want = []
    for a in range(2):
        for s in range(n):
            z = c.at(dz[row], s)
            keep = [f0[a][s] != 0, t0[a][s] != 0]
            if lo is not None:
                keep += [z >= lo, z <= hi]
            if all(bool(k) for k in keep):
                want.append((z, f0[a][s] / t0[a][s]))
    c.check("pairs", c.same_shape(x, (len(want),)) and c.same_shape(y, (len(want),)))
    for k, (z, q) in enumerate(want):
        c.check("displacement", c.eq(c.at(x, k), z))
        c.check("ratio", c.near(c.at(y, k), c.f("log", q), 1e-3))
    c.check("name", r.name() == "scaled_vertical_displacement" and str(r.units) == "1" and c.same_shape(r.data, (3,)))
    c.check("times", int(r.coord("forecast_period").points[0]) == lead * 3600
            and int(r.coord("forecast_reference_time_hour").points[0]) == hour * 3600)
    c.check("other coordinates", not r.coords("grid_attributes") and not r.coords("neighbour_selection_method")
            and "model_grid_hash" not in r.attributes)
    for k in range(3):
        e = c.f("exp", -slope * c.at(dz[row], k))
        if lo is not None:
            ends = sorted(float(np.exp(-slope * b)) for b in (lo, hi))
            e = c.ite(e < ends[0], ends[0], c.ite(e > ends[1], ends[1], e))
        c.check("factor", c.near(c.at(r.data, k), e, 1e-3 if c.symbolic else 1e-4 * e, True))
