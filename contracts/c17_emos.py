"""C17: calibration of ensembles (EMOS)."""
from vc import contract
from contracts._cubes import cube, dimcoord, field, realization, time_coords, yx
from contracts._spots import sites

E = "improver.calibration.ensemble_calibration"
U = "improver.calibration.utilities"
ATTS = {"title": "t", "source": "s", "institution": "i"}


def _coefs(c, layout, nb, pred, vals, names, ny, nx, n, fp=14400, frt=None, diag="air_temperature", sub=0):
    """alpha, beta, gamma and delta cubes; one set of coefficients for the domain, or one for each point or site.
    vals: {"alpha": .., "beta": .., ...}"""
    C = c.iris.coords
    np = c.np
    frt = 1510286400 - 4 * 3600 if frt is None else frt
    aux = [(a, d) for a, d in time_coords(c, frt + fp, frt) if a.name() != "time"]
    out = []
    for k in ("alpha", "beta", "gamma", "delta"):
        dims, ax = [], list(aux)
        lead = []
        if k == "beta":
            if pred == "realizations":
                lead = [realization(c, nb)]
                ax.append((C.DimCoord(np.array(0, dtype=np.int8), long_name="predictor_index", units="1"), None))
                ax.append((C.AuxCoord([names[0]], long_name="predictor_name", units="no_unit"), None))
            elif nb > 1:
                lead = [C.DimCoord(np.array(list(range(nb)), dtype=np.int8), long_name="predictor_index", units="1")]
                ax.append((C.AuxCoord(list(names), long_name="predictor_name", units="no_unit"), 0))
            else:
                ax.append((C.DimCoord(np.array(0, dtype=np.int8), long_name="predictor_index", units="1"), None))
                ax.append((C.AuxCoord([names[0]], long_name="predictor_name", units="no_unit"), None))
        at = {"diagnostic_standard_name": diag, "distribution": "norm"}
        if layout == "sites":
            r = sites(c, vals[k], "emos_coefficient_" + k, "1", lead, ())
            for a, d in ax:
                r.add_aux_coord(a, d)
            r.attributes = at
        elif layout == "grid":
            r = field(c, vals[k], "emos_coefficient_" + k, "1", lead, aux=ax, time=False, attributes=at)
        else:
            y, x = _yx_scalar(c, ny, nx)
            r = cube(c, vals[k], "emos_coefficient_" + k, "1", lead, ax + [(y, None), (x, None)], attributes=at)
        out.append(r)
    return c.iris.cube.CubeList(out)


def _yx_scalar(c, ny, nx):
    from contracts._cubes import yx
    return [q.collapsed() for q in yx(c, ny, nx)]


def _setup(c, pred, layout, nb, nr):
    """forecast, coefficients, additional fields and accessors for their values at a point"""
    ny, nx, n = (c.dim("ny"), c.dim("nx"), None) if layout != "sites" else (None, None, c.dim("sites"))
    pts = (n,) if layout == "sites" else (ny, nx)
    d = c.array("d", (nr,) + pts, dtype="float32", lo=-50, hi=50)
    extra = [c.array("e%d" % k, pts, dtype="float32", lo=-50, hi=50) for k in range(nb - 1)] if pred == "mean" else []
    cs = pts if layout in ("grid", "sites") else ()
    vals = {k: c.array(k, cs, dtype="float32", lo=-8, hi=8) for k in ("alpha", "gamma", "delta")}
    vals["beta"] = c.array("beta", ((nb,) if nb > 1 else ()) + cs, dtype="float32", lo=-8, hi=8)
    names = ["air_temperature"] + ["surface_altitude", "distance_to_water"][:nb - 1]
    co = _coefs(c, layout, nb, pred, vals, names, ny, nx, n)
    if layout == "sites":
        f = sites(c, d, "air_temperature", "K", [realization(c, nr)])
        for a, q in time_coords(c):
            f.add_aux_coord(a, q)
        f.attributes = dict(ATTS)
        ad = [sites(c, e, nm, "m") for e, nm in zip(extra, names[1:])]
    else:
        f = field(c, d, "air_temperature", "K", [realization(c, nr)], attributes=dict(ATTS))
        ad = [field(c, e, nm, "m", time=False) for e, nm in zip(extra, names[1:])]

    def coef(k, p, q=None):
        i = () if q is None or nb == 1 else (q,)
        return c.at(vals[k], *(i + (p if cs else ())))
    return pts, d, extra, f, co, ad, coef


@contract("C17", E + ":CalibratedForecastDistributionParameters.process", trials=80, budget=240)
def distribution_parameters(c):
    """location is alpha plus the sum of beta times each predictor (ensemble mean and additional fields), or of beta squared
    times each member; scale is the root of gamma squared plus delta squared times the unbiased ensemble variance; only sea
    points are masked; the forecast is not altered"""
    pred, layout, nb, nr = c.choice("case", [("mean", "domain", 1, 2), ("mean", "domain", 2, 3), ("mean", "grid", 2, 2),
                                             ("mean", "grid", 1, 2), ("mean", "sites", 2, 2), ("realizations", "domain", 3, 3),
                                             ("realizations", "domain", 2, 2), ("realizations", "sites", 2, 2)])
    pts, d, extra, f, co, ad, coef = _setup(c, pred, layout, nb, nr)
    d0 = d.copy()
    land = c.flag("land mask") if layout != "sites" else 0
    m = c.array("land", pts, dtype="int8", values=[0, 1], lo=0, hi=1) if land else None
    P = c.mod(E).CalibratedForecastDistributionParameters(predictor=pred)
    kw = {}
    if land:
        kw["landsea_mask"] = field(c, m, "land_binary_mask", "1", time=False)
    loc, sc = P(f, co, additional_fields=c.iris.cube.CubeList(ad) if ad else None, **kw)
    c.check("names", loc.name() == "location_parameter" and sc.name() == "scale_parameter" and str(loc.units) == "K"
            and str(sc.units) == "K")
    c.check("no members left", not loc.coords("realization") and not sc.coords("realization"))
    c.check("shape", c.and_(c.same_shape(loc.data, pts), c.same_shape(sc.data, pts)))
    p = c.index("point", pts)
    x = [c.at(d0, q, *p) for q in range(nr)]
    mean = sum(x) / nr
    if pred == "mean":
        want = coef("alpha", p) + coef("beta", p, 0) * mean
        for q, e in enumerate(extra):
            want = want + coef("beta", p, q + 1) * c.at(e, *p)
    else:
        want = coef("alpha", p)
        for q in range(nr):
            want = want + coef("beta", p, q) * coef("beta", p, q) * x[q]
    var = sum((v - mean) * (v - mean) for v in x) / (nr - 1)
    g, dl = coef("gamma", p), coef("delta", p)
    sea = c.at(m, *p) == 0 if land else False
    for r in (loc, sc):
        c.check("sea points and no others are masked", c.iff(c.masked(r.data, *p), sea))
    c.check("location", c.or_(sea, c.eq(c.at(loc.data, *p), want, atol=1e-2)))
    s = c.at(sc.data, *p)
    c.check("scale is not negative", c.or_(sea, s >= 0))
    c.check("scale", c.or_(sea, c.eq(s * s, g * g + dl * dl * var, atol=5e-2)))
    for q in range(nr):
        c.check("forecast left alone", c.eq(c.at(f.data, q, *p), c.at(d0, q, *p)))


@contract("C17", E + ":CalibratedForecastDistributionParameters.process", trials=20)
def calibration_refused(c):
    """coefficients for another diagnostic, forecast period, cycle hour, domain or number of predictors are refused; the time
    checks alone can be waived"""
    nx = 3
    ny = 2
    d = c.array("d", (2, ny, nx), dtype="float32", lo=-50, hi=50)
    e = c.array("e", (ny, nx), dtype="float32", lo=-50, hi=50)
    nb = c.choice("coefficients", [1, 2])
    vals = {k: c.array(k, (), dtype="float32", lo=-8, hi=8) for k in ("alpha", "gamma", "delta")}
    vals["beta"] = c.array("beta", (nb,) if nb > 1 else (), dtype="float32", lo=-8, hi=8)
    names = ["air_temperature", "surface_altitude"]
    f = field(c, d, "air_temperature", "K", [realization(c, 2)], attributes=dict(ATTS))
    P = c.mod(E).CalibratedForecastDistributionParameters
    frt = 1510286400 - 4 * 3600
    mk = lambda **k: _coefs(c, "domain", nb, "mean", vals, names, k.pop("ny", ny), k.pop("nx", nx), None, **k)
    alt = c.iris.cube.CubeList([field(c, e, "surface_altitude", "m", time=False)])
    right = alt if nb == 2 else None
    refused = lambda co, ad=right, **k: c.raises(ValueError, lambda: P().process(f, co, additional_fields=ad, **k))[0]
    c.check("another diagnostic", refused(mk(diag="wind_speed")))
    c.check("another forecast period", refused(mk(fp=14400 + 3600)))
    c.check("another cycle", refused(mk(frt=frt + 3600)))
    c.check("another domain", refused(mk(ny=ny + 1)))
    c.check("wider domain", refused(mk(nx=nx + 1)))
    c.check("predictors and coefficients differ in number", refused(mk(), None if nb == 2 else alt))
    c.check("time checks waived", not refused(mk(frt=frt + 3600, fp=7200), tolerate_time_mismatch=True))
    c.check("within the same hour", not refused(mk(fp=14400 - 900)))
    c.check("the same hour another day", not refused(mk(frt=frt - 86400)))
    c.check("matching", not refused(mk()))
    c.check("predictor", c.raises(ValueError, lambda: P(predictor="median"))[0])


@contract("C17", E + ":ContinuousRankedProbabilityScoreMinimisers._normal_crps_preparation", trials=80)
def crps_preparation(c):
    """training uses the location and scale that application uses: alpha plus the sum of beta (or beta squared for members) times
    the predictors, and the root of gamma squared plus delta squared times the variance"""
    pred, k = c.choice("case", [("mean", 1), ("mean", 2), ("realizations", 2), ("realizations", 3)])
    n = c.dim("n")
    g = c.array("g", (k + 3,), dtype="float64", lo=-4, hi=4)
    x = c.array("x", (n,) if k == 1 else (n, k), dtype="float64", lo=-50, hi=50)
    t = c.array("t", (n,), dtype="float64", lo=-50, hi=50)
    v = c.array("v", (n,), dtype="float64", lo=0, hi=50)
    P = c.mod(E).ContinuousRankedProbabilityScoreMinimisers(pred)
    mu, sigma, xz, cdf, pdf = P._normal_crps_preparation(g, x, t, v)
    i = c.index("point", (n,))[0]
    want = c.at(g, 0)
    for q in range(k):
        b = c.at(g, 1 + q)
        want = want + (b * b if pred == "realizations" else b) * (c.at(x, i) if k == 1 else c.at(x, i, q))
    ga, de = c.at(g, k + 1), c.at(g, k + 2)
    c.check("location", c.eq(c.at(mu, i), want, tol=1e-6))
    s = c.at(sigma, i)
    c.check("scale", c.and_(s >= 0, c.eq(s * s, ga * ga + de * de * c.at(v, i), tol=1e-6)))
    z = c.at(xz, i)
    c.check("standardised error", c.implies(s > 0, c.eq(z * s, c.at(t, i) - want, tol=1e-6)))
    c.check("distribution function", c.implies(s > 0, c.eq(c.at(cdf, i), c.f("ndtr", z), tol=1e-6)))
    c.check("density", c.implies(s > 0, c.eq(c.at(pdf, i) * 2.5066282746310002, c.f("exp", -(z * z) / 2), tol=1e-6)))


@contract("C17", E + ":ContinuousRankedProbabilityScoreMinimisers.calculate_normal_crps", trials=60)
def crps_normal(c):
    """the score is the mean over points of the distribution's CRPS, as Gneiting et al (2005) and Thorarinsdottir and Gneiting (2010)
    give it; the location, scale and standardised errors are those of crps_preparation"""
    n = c.dim("n")
    kind = c.choice("distribution", ["norm", "truncnorm"])
    mu = c.array("mu", (n,), dtype="float64", lo=-2, hi=50)
    sg = c.array("sigma", (n,), dtype="float64", lo=0.125, hi=50)
    xz = c.array("z", (n,), dtype="float64", lo=-8, hi=8)
    cd = c.array("cdf", (n,), dtype="float64", lo=0, hi=1)
    pd = c.array("pdf", (n,), dtype="float64", lo=0, hi=0.4)
    sq = 1.7724538509055159
    P = c.mod(E).ContinuousRankedProbabilityScoreMinimisers("mean")
    P._normal_crps_preparation = lambda *a, **k: (mu, sg, xz, cd, pd)
    fn = P.calculate_normal_crps if kind == "norm" else P.calculate_truncated_normal_crps
    r = fn(None, None, None, None, sq)

    def point(i):
        s, z, f, d = c.at(sg, i), c.at(xz, i), c.at(cd, i), c.at(pd, i)
        if kind == "norm":
            return s * (z * (2 * f - 1) + 2 * d - 1 / sq)
        x0 = c.at(mu, i) / s
        p0 = c.f("ndtr", x0)
        p2 = c.f("ndtr", 1.4142135623730951 * x0)
        return s / (p0 * p0) * (z * p0 * (2 * f + p0 - 2) + 2 * d * p0 - p2 / sq)
    c.check("score", c.eq(r * n, c.sum(n, point), tol=1e-6))


@contract("C17", E + ":EstimateCoefficientsForEnsembleCalibration.compute_initial_guess", trials=60)
def initial_guess(c):
    """without regression: no bias, equal weights (weights squared summing to one for members) and the raw spread"""
    n = c.dim("n")
    pred = c.choice("predictor", ["mean", "realizations"])
    k = c.choice("number", [1, 2, 3])
    t = c.array("t", (n,), dtype="float32", lo=-50, hi=50, nan=True)
    x = c.array("x", (k, n), dtype="float32", lo=-50, hi=50, nan=True)
    P = c.mod(E).EstimateCoefficientsForEnsembleCalibration("norm", use_default_initial_guess=True, predictor=pred)
    g = P.compute_initial_guess(t, x, pred, k if pred == "realizations" else None)
    c.check("number", c.same_shape(g, (k + 3,)))
    c.check("no bias", c.at(g, 0) == 0)
    for q in range(k):
        b = c.at(g, 1 + q)
        c.check("equal weights", c.near(b * b if pred == "realizations" else b, 1.0 / k, 1e-5, True))
    c.check("raw spread", c.and_(c.at(g, k + 1) == 0, c.at(g, k + 2) == 1))


@contract("C17", U + ":flatten_ignoring_masked_data", trials=60)
def flatten(c):
    """every value of an array without missing points, in order; the leading dimension is kept on request; masks that differ between
    slices are refused"""
    keep = c.flag("keep the leading dimension")
    nz, ny, nx = c.choice("leading", [1, 2, 3]), c.dim("ny"), c.dim("nx")
    d = c.array("d", (nz, ny, nx), dtype="float32", lo=-50, hi=50)
    r = c.mod(U).flatten_ignoring_masked_data(d, preserve_leading_dimension=bool(keep))
    c.check("shape", c.same_shape(r, (nz, ny * nx) if keep else (nz * ny * nx,)))
    k, i, j = c.index("cell", (nz, ny, nx))
    c.check("value", c.eq(c.at(r, k, i * nx + j) if keep else c.at(r, (k * ny + i) * nx + j), c.at(d, k, i, j)))


@contract("C17", U + ":flatten_ignoring_masked_data", trials=60)
def flatten_masked(c):
    """exactly the valid values, in order, for every pattern of missing points of a small grid"""
    nz, nx = 2, 3
    d = c.array("d", (nz, 1, nx), dtype="float32", lo=-50, hi=50)
    a = [c.choice("missing %d" % j, [False, True]) for j in range(nx)]
    b = c.choice("other slice", ["same", "first flipped"])
    e = [not a[0]] + a[1:] if b != "same" else a
    keep = c.flag("keep the leading dimension")
    F = c.mod(U).flatten_ignoring_masked_data
    m = c.np.ma.masked_array(d, mask=c.np.array([[a], [e]]))
    if b != "same":
        c.check("differing masks refused", c.raises(ValueError, lambda: F(m, preserve_leading_dimension=bool(keep)))[0])
        return
    if all(a):
        return
    r = F(m, preserve_leading_dimension=bool(keep))
    v = [j for j in range(nx) if not a[j]]
    c.check("shape", c.same_shape(r, (nz, len(v)) if keep else (nz * len(v),)))
    for k in range(nz):
        for q, j in enumerate(v):
            c.check("value", c.eq(c.at(r, k, q) if keep else c.at(r, k * len(v) + q), c.at(d, k, 0, j)))


@contract("C17", U + ":convert_cube_data_to_2d", trials=60)
def to_2d(c):
    """one row for each point and one column for each member, whatever the order of dimensions; missing values become NaN"""
    nr, ny, nx = c.choice("members", [2, 3]), c.dim("ny"), c.dim("nx")
    last = c.flag("members last")
    masked = c.flag("masked")
    d = c.array("d", (nr, ny, nx), dtype="float32", lo=-50, hi=50, mask=masked)
    f = field(c, d, "air_temperature", "K", [realization(c, nr)])
    d0 = d.copy()
    if last:
        f.transpose([1, 2, 0])
    r = c.mod(U).convert_cube_data_to_2d(f)
    c.check("shape", c.same_shape(r, (ny * nx, nr)))
    i, j = c.index("point", (ny, nx))
    for k in range(nr):
        c.use_index(k, i, j)
        c.use_index(i, j, k)
        v = c.at(r, i * nx + j, k)
        c.check("value", c.ite(c.masked(d0, k, i, j), c.isnan(v), c.eq(v, c.at(d0, k, i, j))))


@contract("C17", U + ":merge_land_and_sea", trials=60)
def merge_land_sea(c):
    """calibrated values where calibration was done, raw values elsewhere, nothing missing; other dimensions are refused"""
    nr, ny, nx = c.choice("members", [1, 2]), c.dim("ny"), c.dim("nx")
    d = c.array("d", (nr, ny, nx), dtype="float32", lo=-50, hi=50, mask=True)
    e = c.array("e", (nr, ny, nx), dtype="float32", lo=-50, hi=50)
    d0 = d.copy()
    a = field(c, d, "air_temperature", "K", [realization(c, nr)])
    b = field(c, e, "air_temperature", "K", [realization(c, nr)])
    F = c.mod(U).merge_land_and_sea
    F(a, b)
    k, i, j = c.index("cell", (nr, ny, nx))
    c.check("value", c.eq(c.at(a.data, k, i, j), c.ite(c.masked(d0, k, i, j), c.at(e, k, i, j), c.at(d0, k, i, j))))
    c.check("nothing missing", c.not_(c.masked(a.data, k, i, j)))
    c.check("raw forecast left alone", c.eq(c.at(b.data, k, i, j), c.at(e, k, i, j)))
    o = field(c, e.copy(), "air_temperature", "K", [dimcoord(c, "realization", list(range(5, 5 + nr)), "1", dtype="int32")])
    c.check("other members refused", c.raises(ValueError, lambda: F(a, o))[0])


@contract("C17", E + ":EstimateCoefficientsForEnsembleCalibration.mask_cube", trials=60)
def land_only_training(c):
    """sea points, and only they and values that are missing already, are masked in every slice"""
    nt, ny, nx = c.choice("times", [1, 2]), c.dim("ny"), c.dim("nx")
    d = c.array("d", (nt, ny, nx), dtype="float32", lo=-50, hi=50, nan=True)
    m = c.array("land", (ny, nx), dtype="int8", values=[0, 1], lo=0, hi=1)
    d0 = d.copy()
    f = cube(c, d, "air_temperature", "K", [dimcoord(c, "time", [3600 * k for k in range(nt)], "seconds since 1970-01-01 00:00:00",
                                                     dtype="int64"), None, None])
    land = cube(c, m, "land_binary_mask", "1", [None, None])
    c.mod(E).EstimateCoefficientsForEnsembleCalibration.mask_cube(f, land)
    k, i, j = c.index("cell", (nt, ny, nx))
    x = c.at(d0, k, i, j)
    c.check("masked", c.iff(c.masked(f.data, k, i, j), c.or_(c.at(m, i, j) == 0, c.isnan(x))))
    c.check("value", c.or_(c.masked(f.data, k, i, j), c.eq(c.at(f.data, k, i, j), x)))
    c.check("mask left alone", c.eq(c.at(land.data, i, j), c.at(m, i, j)))


@contract("C17", U + ":forecast_coords_match", trials=60)
def coefficients_apply(c):
    """coefficients apply to a forecast exactly when the forecast periods agree rounded up to the hour and the cycle hours agree"""
    fp1, fp2 = c.int("fp1", 0, 400000), c.int("fp2", 0, 400000)
    h1 = c.choice("cycle", [0, 3600, 5 * 3600 + 900, 86400])
    h2 = c.choice("other cycle", [0, 3600, 5 * 3600, 2 * 86400])
    d = c.array("d", (2, 2), dtype="float32", lo=-50, hi=50)

    def mk(fp, frt):
        C = c.iris.coords.DimCoord
        np = c.np
        return cube(c, d, "air_temperature", "K", [None, None], [
            (C(np.array(frt, dtype=np.int64), standard_name="forecast_reference_time", units="seconds since 1970-01-01 00:00:00"), None),
            (C(np.array(fp, dtype=np.int32), standard_name="forecast_period", units="seconds"), None)])
    a, b = mk(fp1, h1), mk(fp2, h2)
    bad, _ = c.raises(ValueError, lambda: c.mod(U).forecast_coords_match(a, b))
    up = lambda v: c.idiv(v + 3599, 3600)
    same = c.and_(c.eq(up(fp1), up(fp2)), (h1 // 3600) % 24 == (h2 // 3600) % 24)
    c.check("refused exactly when they differ", c.iff(bad, c.not_(same)))
    c.check("units left alone", str(a.coord("forecast_period").units) == "seconds")


@contract("C17", U + ":filter_non_matching_cubes", trials=40)
def matching_pairs(c):
    """each forecast is paired with the truth of its validity time or period; times without either, or with only NaN forecasts, are dropped"""
    nx = c.dim("nx")
    T = [0, 3600, 7200]
    hf = [t for k, t in enumerate(T) if c.choice("forecast %d" % k, [True, False])]
    tt = [t for k, t in enumerate(T) if c.choice("truth %d" % k, [True, False])]
    gap = c.flag("first forecast all NaN")
    np = c.np
    if len(hf) < 2 or len(tt) < 2:
        return
    d = c.array("d", (len(hf), nx), dtype="float32", lo=-50, hi=50)
    e = c.array("e", (len(tt), nx), dtype="float32", lo=-50, hi=50)
    if gap:
        d = d.copy()
        d[0] = np.nan
    S = "seconds since 1970-01-01 00:00:00"

    length = c.choice("truth period", [None, 3600, 7200])

    def mk(data, times, p=3600):
        if length is None:
            t = dimcoord(c, "time", times, S, dtype="int64")
        else:
            t = c.iris.coords.DimCoord(np.array(times, dtype=np.int64), standard_name="time", units=S,
                                       bounds=np.array([[v - p, v] for v in times], dtype=np.int64))
        return cube(c, data, "air_temperature", "K", [t, dimcoord(c, "spot_index", c.from_fn((nx,), lambda k: k, "int32"), "1")])
    fn = c.mod(U).filter_non_matching_cubes
    keep = [t for k, t in enumerate(hf) if t in tt and not (gap and k == 0) and length != 7200]
    f, t = mk(d, hf), mk(e, tt, length)
    bad, r = c.raises(ValueError, lambda: fn(f, t))
    c.check("refused exactly when nothing matches", bad == (not keep))
    if bad:
        return
    a, b = r
    n = len(keep)
    c.check("times", [int(v) for v in a.coord("time").points] == keep and [int(v) for v in b.coord("time").points] == keep)
    i = c.index("point", (nx,))[0]
    for q, tm in enumerate(keep):
        h = (q,) if n > 1 else ()
        c.check("forecast", c.eq(c.at(a.data, *(h + (i,))), c.at(d, hf.index(tm), i)))
        c.check("truth", c.eq(c.at(b.data, *(h + (i,))), c.at(e, tt.index(tm), i)))


@contract("C17", U + ":check_forecast_consistency", trials=20)
def one_cycle_one_period(c):
    """training forecasts from several cycle hours or with several forecast periods are refused; the cycle that is recorded is the
    latest, with bounds spanning them all"""
    d = c.array("d", (2, 2), dtype="float32", lo=-50, hi=50)
    S = "seconds since 1970-01-01 00:00:00"
    b = c.choice("second cycle", [86400, 90000])
    fps = c.choice("periods", [[3600], [3600, 7200]])
    D = c.iris.coords.DimCoord
    np = c.np
    fr = dimcoord(c, "forecast_reference_time", [0, b], S, dtype="int64")
    f = cube(c, d, "air_temperature", "K", [fr, None], [(D(np.array(fps, dtype=np.int32), standard_name="forecast_period",
                                                           units="seconds"), 1 if len(fps) > 1 else None)])
    bad = c.raises(ValueError, lambda: c.mod(U).check_forecast_consistency(f))[0]
    c.check("refused", bad == (b == 90000 or len(fps) > 1))
    r = c.mod(U).create_unified_frt_coord(fr)
    c.check("latest", int(r.points[0]) == b and [int(v) for v in r.bounds[0]] == [0, b])


@contract("C17", E + ":ContinuousRankedProbabilityScoreMinimisers._prepare_forecasts", trials=40)
def predictors_flattened(c):
    """the training predictors are laid out point by point in the order of the truths, fixed fields repeated for each time"""
    nt, ny, nx = c.choice("times", [2, 3]), c.dim("ny"), c.dim("nx")
    two = c.flag("additional field")
    d = c.array("d", (nt, ny, nx), dtype="float64", lo=-50, hi=50)
    t = dimcoord(c, "time", [3600 * k for k in range(nt)], "seconds since 1970-01-01 00:00:00", dtype="int64")
    cubes = [cube(c, d, "air_temperature", "K", [t, None, None])]
    if two:
        e = c.array("e", (ny, nx), dtype="float64", lo=-50, hi=50)
        cubes.append(cube(c, e, "surface_altitude", "m", [None, None]))
    P = c.mod(E).ContinuousRankedProbabilityScoreMinimisers("mean")
    r = P._prepare_forecasts(c.iris.cube.CubeList(cubes))
    n = nt * ny * nx
    c.check("shape", c.same_shape(r, (2, n) if two else (n,)))
    k, i, j = c.index("point", (nt, ny, nx))
    p = (k * ny + i) * nx + j
    c.check("forecast", c.eq(c.at(r, *((0, p) if two else (p,))), c.at(d, k, i, j)))
    if two:
        c.check("fixed field", c.eq(c.at(r, 1, p), c.at(e, i, j)))


def _emos_inputs(c, kind, lead):
    """a forecast, the members standing in for it and the coefficients of one domain"""
    ny, nx = c.dim("ny"), c.dim("nx")
    np = c.np
    d = c.array("d", (len(lead),) + (ny, nx), dtype="float32", lo=0, hi=1) if kind == "probabilities" else \
        c.array("d", (len(lead),) + (ny, nx), dtype="float32", lo=-50, hi=50)
    if kind == "percentiles":
        co = dimcoord(c, "percentile", lead, "%")
        f = field(c, d, "air_temperature", "K", [co], attributes=dict(ATTS))
    else:
        from contracts._cubes import threshold_coord
        f = field(c, d, "probability_of_air_temperature_above_threshold", "1", [threshold_coord(c, lead)], attributes=dict(ATTS))
    r = c.array("members", (2, ny, nx), dtype="float32", lo=-50, hi=50)
    members = field(c, r, "air_temperature", "K", [realization(c, 2)], attributes=dict(ATTS))
    vals = {k: c.array(k, (), dtype="float32", lo=0.5 if k == "gamma" else -2, hi=2) for k in ("alpha", "beta", "gamma", "delta")}
    coefs = _coefs(c, "domain", 1, "mean", vals, ["air_temperature"], ny, nx, None)
    return ny, nx, d, f, r, members, vals, coefs


@contract("C17", [E + ":ApplyEMOS.process", E + ":ApplyEMOS._format_forecast"], trials=60, budget=240)
def apply_emos(c):
    """the calibrated forecast is the distribution the coefficients give, in the form of the input or the template: its quantiles or
    its probabilities of exceeding the thresholds; with a land mask, land points alone are calibrated and sea points keep the input"""
    kind = c.choice("kind", ["percentiles", "probabilities"])
    lead = [25, 50] if kind == "percentiles" else [270, 275]
    ny, nx, d, f, r, members, vals, coefs = _emos_inputs(c, kind, lead)
    d0, land = d.copy(), c.flag("land mask")
    P = c.mod(E).ApplyEMOS()
    np = c.np
    got = []

    def convert(fc, n, ignore):
        got.append((n, fc.name()))
        return members
    P._convert_to_realizations = convert
    kw = {}
    if land:
        m = c.array("land", (ny, nx), dtype="int8", values=[0, 1], lo=0, hi=1)
        kw["land_sea_mask"] = field(c, m, "land_binary_mask", "1", time=False)
    la = c.array("location", (ny, nx), dtype="float32", lo=-50, hi=350)
    sa = c.array("scale", (ny, nx), dtype="float32", lo=0.5, hi=20)

    def parameters(plugin, current, coefficients, additional_fields=None, landsea_mask=None, tolerate_time_mismatch=None):
        got.append((current is members, coefficients is coefs, additional_fields, landsea_mask is kw.get("land_sea_mask"),
                    tolerate_time_mismatch, plugin.predictor))
        out = []
        for name, a in (("location_parameter", la), ("scale_parameter", sa)):
            a = a.copy()
            if land:
                a = np.ma.masked_where(np.logical_not(m), a)
            out.append(field(c, a, name, "K", attributes=dict(ATTS)))
        return tuple(out)
    c.replace(E + ":CalibratedForecastDistributionParameters.process", parameters)
    i, j = c.index("point", (ny, nx))
    c.use_index(i * nx + j)
    c.use_index(i, j)
    c.use_index(0, i, j)
    c.use_index(1, i, j)
    tol = c.flag("tolerate")
    out = P.process(f, coefs, realizations_count=2, tolerate_time_mismatch=tol, **kw)
    c.check("members and parameters asked for", got == [(2, f.name()), (True, True, None, True, tol, "mean")])
    c.check("form", out.name() == f.name() and str(out.units) == str(f.units) and c.same_shape(out.data, (2, ny, nx)))
    loc, sc = c.at(la, i, j), c.at(sa, i, j)
    sea = c.at(m, i, j) == 0 if land else False
    for k, q in enumerate(lead):
        w = loc + sc * c.f("ndtri", q / 100.0) if kind == "percentiles" else 1 - c.f("ndtr", (q - loc) / sc)
        w = c.ite(sea, c.at(d0, k, i, j), w)
        c.use_index(k, i, j)
        c.check("value", c.near(c.at(out.data, k, i, j), w, 2e-2))
        c.check("nothing missing", c.not_(c.masked(out.data, k, i, j)))
        c.check("input left alone", c.eq(c.at(f.data, k, i, j), c.at(d0, k, i, j)))


@contract("C17", [E + ":ApplyEMOS.process", E + ":ApplyEMOS._format_forecast"], trials=60, budget=200)
def apply_emos_realizations(c):
    """calibrated members are the evenly spaced quantiles of the calibrated distribution, in the order of the raw members; a
    probability template makes the output probabilities whatever the input, and then no land mask is accepted"""
    np = c.np
    ny, nx = c.dim("ny"), c.dim("nx")
    r = c.array("members", (2, ny, nx), dtype="float32", lo=-50, hi=50)
    f = field(c, r, "air_temperature", "K", [realization(c, 2)], attributes=dict(ATTS))
    vals = {k: c.array(k, (), dtype="float32", lo=0.5 if k == "gamma" else -2, hi=2) for k in ("alpha", "beta", "gamma", "delta")}
    coefs = _coefs(c, "domain", 1, "mean", vals, ["air_temperature"], ny, nx, None)
    la = c.array("location", (ny, nx), dtype="float32", lo=-50, hi=350)
    sa = c.array("scale", (ny, nx), dtype="float32", lo=0.5, hi=20)
    use, land = c.flag("template"), c.flag("land mask")
    kw = {}
    i, j = c.index("point", (ny, nx))
    if land:
        m = c.array("land", (ny, nx), dtype="int8", values=[0, 1], lo=0, hi=1)
        kw["land_sea_mask"] = field(c, m, "land_binary_mask", "1", time=False)
    if use:
        from contracts._cubes import threshold_coord
        t = c.array("template", (2, ny, nx), dtype="float32", lo=0, hi=1)
        kw["prob_template"] = field(c, t, "probability_of_air_temperature_above_threshold", "1", [threshold_coord(c, [270, 275])],
                                    attributes=dict(ATTS))

    def parameters(plugin, current, coefficients, additional_fields=None, landsea_mask=None, tolerate_time_mismatch=None):
        out = []
        for name, a in (("location_parameter", la), ("scale_parameter", sa)):
            a = a.copy()
            if land:
                a = np.ma.masked_where(np.logical_not(m), a)
            out.append(field(c, a, name, "K", attributes=dict(ATTS)))
        return tuple(out)
    c.replace(E + ":CalibratedForecastDistributionParameters.process", parameters)
    r0 = r.copy()
    for ix in ((i * nx + j,), (i, j), (0, i, j), (1, i, j)):
        c.use_index(*ix)
    P = c.mod(E).ApplyEMOS()
    bad, out = c.raises(ValueError, lambda: P.process(f, coefs, **kw))
    c.check("land mask with another form refused", bad == (use and land))
    if bad:
        return
    want = kw["prob_template"] if use else f
    c.check("form", out.name() == want.name() and str(out.units) == str(want.units) and c.same_shape(out.data, (2, ny, nx)))
    x = [c.at(r0, k, i, j) for k in range(2)]
    loc, sc = c.at(la, i, j), c.at(sa, i, j)
    c.assume(c.not_(c.eq(x[0], x[1])))
    for k in range(2):
        if use:
            w = 1 - c.f("ndtr", ([270, 275][k] - loc) / sc)
        else:
            w = loc + sc * c.ite(x[k] < x[1 - k], c.f("ndtri", 1 / 3.0), c.f("ndtri", 2 / 3.0))
            if land:
                w = c.ite(c.at(m, i, j) == 0, x[k], w)
        c.check("value", c.near(c.at(out.data, k, i, j), w, 2e-2))
        c.check("nothing missing", c.not_(c.masked(out.data, k, i, j)))
        c.check("input left alone", c.eq(c.at(f.data, k, i, j), x[k]))


def _history(c, nt, nr, pts, masked=False):
    """past forecasts of two times, their truths and the metadata training needs"""
    np = c.np
    S = "seconds since 1970-01-01 00:00:00"
    D, A = c.iris.coords.DimCoord, c.iris.coords.AuxCoord
    d = c.array("d", (nr, nt) + pts, dtype="float32", lo=250, hi=300)
    t = c.array("t", (nt,) + pts, dtype="float32", lo=250, hi=300)
    times = [86400 * k + 14400 for k in range(nt)]
    if len(pts) == 2:
        space = list(yx(c, *pts))
        f = cube(c, d, "air_temperature", "K", [realization(c, nr), dimcoord(c, "time", times, S, dtype="int64")] + space,
                 attributes=dict(ATTS))
        o = cube(c, t, "air_temperature", "K", [dimcoord(c, "time", times, S, dtype="int64")] + [q.copy() for q in space],
                 attributes=dict(ATTS))
    else:
        f = sites(c, d, "air_temperature", "K", [realization(c, nr), dimcoord(c, "time", times, S, dtype="int64")])
        o = sites(c, t, "air_temperature", "K", [dimcoord(c, "time", times, S, dtype="int64")])
        f.attributes = dict(ATTS)
        o.attributes = dict(ATTS)
    f.add_aux_coord(A(np.array([86400 * k for k in range(nt)], dtype=np.int64), standard_name="forecast_reference_time", units=S), (1,))
    f.add_aux_coord(D(np.array(14400, dtype=np.int32), standard_name="forecast_period", units="seconds"), None)
    return d, t, f, o


@contract("C17", [E + ":EstimateCoefficientsForEnsembleCalibration.process",
                  E + ":EstimateCoefficientsForEnsembleCalibration.guess_and_minimise",
                  E + ":EstimateCoefficientsForEnsembleCalibration.create_coefficients_cubelist",
                  E + ":EstimateCoefficientsForEnsembleCalibration._create_cubelist",
                  E + ":EstimateCoefficientsForEnsembleCalibration._add_predictor_coords",
                  E + ":EstimateCoefficientsForEnsembleCalibration._create_temporal_coordinates",
                  E + ":EstimateCoefficientsForEnsembleCalibration._get_spatial_associated_coordinates"], trials=80, budget=240)
def trained(c):
    """training is given the ensemble mean (or the members) and any fixed fields, the ensemble variance and the truth of the same
    times, in the same units, land only given a land mask; the coefficients it finds are recorded under their own names with the
    units, predictors, cycle, lead time and domain they belong to"""
    np = c.np
    nt, nr = 2, c.choice("members", [2, 3])
    pred, nb, layout, land, units = c.choice("case", [
        ("mean", 1, "grid", False, None), ("mean", 2, "grid", True, None), ("mean", 1, "grid", True, "celsius"),
        ("realizations", 0, "grid", False, None), ("realizations", 0, "grid", True, None), ("mean", 1, "sites", False, None),
        ("mean", 2, "sites", False, "celsius")])
    dist = c.choice("distribution", ["norm", "truncnorm"])
    pts = (c.dim("ny", lo=2), c.dim("nx", lo=2)) if layout == "grid" else (c.choice("sites", [2, 3]),)
    d, t, f, o = _history(c, nt, nr, pts)
    d0, t0 = d.copy(), t.copy()
    nb = nr if pred == "realizations" else nb
    extra = []
    kw = {}
    if pred == "mean" and nb == 2:
        e = c.array("e", pts, dtype="float32", lo=0, hi=500)
        if layout == "grid":
            extra = [field(c, e.copy(), "surface_altitude", "m", time=False)]
        else:
            extra = [sites(c, e.copy(), "surface_altitude", "m")]
        kw["additional_fields"] = c.iris.cube.CubeList(extra)
    if land:
        m = c.array("land", pts, dtype="int8", values=[0, 1], lo=0, hi=1)
        kw["landsea_mask"] = field(c, m, "land_binary_mask", "1", time=False)
    per_point = layout == "sites"
    x = c.array("x", (nb + 3,) + (pts if per_point else ()), dtype="float32", lo=-5, hi=5)
    got = []

    def minimise(plugin, guess, predictors, truth, var, distribution):
        got.append((guess, list(predictors), truth, var, distribution, plugin.point_by_point, plugin.predictor))
        return x.copy()
    c.replace(E + ":ContinuousRankedProbabilityScoreMinimisers.process", minimise)
    P = c.mod(E).EstimateCoefficientsForEnsembleCalibration(dist, point_by_point=per_point, use_default_initial_guess=True,
                                                            desired_units=units, predictor=pred)
    k = c.index("time", (nt,))[0]
    p = c.index("point", pts)
    for q in range(nr):
        c.use_index(*((k, q) + p))
        c.use_index(*((q, k) + p))
    c.use_index(*((k,) + p))
    for n in pts:
        c.use_index(0)
        c.use_index(n - 1)
    r = P.process(f, o, **kw)
    c.check("once", len(got) == 1)
    guess, predictors, truth, var, distribution, pbp, pr = got[0]
    off = 273.15 if units else 0.0
    c.check("how", distribution == dist and pbp == per_point and pr == pred and len(predictors) == 1 + len(extra))
    sea = c.at(m, *p) == 0 if land else False
    both = lambda a, ix, w, tol: c.and_(c.iff(c.masked(a, *ix), sea), c.or_(sea, c.near(c.at(a, *ix), w, tol)))
    ix = (k,) + p
    c.check("truth", both(truth.data, ix, c.at(t0, *ix) - off, 1e-3))
    mem = [c.at(d0, *((q, k) + p)) for q in range(nr)]
    mean = c.sum_list(mem) / nr
    if pred == "mean":
        c.check("mean of the members", both(predictors[0].data, ix, mean - off, 1e-3))
    else:
        for q in range(nr):
            c.check("members", both(predictors[0].data, (q,) + ix, mem[q] - off, 1e-3))
    if extra:
        c.check("fixed field", both(predictors[1].data, p, c.at(e, *p), 1e-3))
    c.check("variance", both(var.data, ix, c.sum_list([(v - mean) * (v - mean) for v in mem]) / (nr - 1), 0.1))
    c.check("names", [z.name() for z in r] == ["emos_coefficient_" + z for z in ("alpha", "beta", "gamma", "delta")])
    A, B, G, H = r
    u = units or "K"
    c.check("units", [str(z.units) for z in (A, G)] == [str(c.unit(u))] * 2 and [str(z.units) for z in (B, H)] == ["1", "1"])
    at = p if per_point else ()
    for z, row in ((A, 0), (G, nb + 1), (H, nb + 2)):
        c.check("coefficient", c.and_(c.same_shape(z.data, pts if per_point else ()), c.eq(c.at(z.data, *at), c.at(x, *((row,) + at)))))
    one = pred == "mean" and nb == 1
    for q in range(nb):
        c.check("slopes", c.eq(c.at(B.data, *(at if one else (q,) + at)), c.at(x, *((1 + q,) + at))))
    if pred == "mean":
        names = [str(v) for v in np.array(B.coord("predictor_name").points).ravel()]
        c.check("predictors named", names == ["air_temperature", "surface_altitude"][:nb])
    for z in r:
        c.check("belongs to", z.attributes["diagnostic_standard_name"] == "air_temperature" and z.attributes["distribution"] == dist
                and ("shape_parameters" in z.attributes) == (dist == "truncnorm"))
        fr = z.coord("forecast_reference_time")
        c.check("cycle", c.and_(c.eq(c.at(fr.points, 0), 86400), c.eq(c.at(fr.bounds, 0, 0), 0), c.eq(c.at(fr.bounds, 0, 1), 86400),
                                c.eq(c.at(z.coord("forecast_period").points, 0), 14400)))
        c.check("nothing else", not z.coords("time") and bool(z.coords("realization")) == (z is B and pred == "realizations"))
        if not per_point:
            c.check("domain", c.and_(*[c.and_(c.eq(c.at(z.coord(axis=a).bounds, 0, 0), 0.0),
                                              c.near(c.at(z.coord(axis=a).bounds, 0, 1), (s - 1) * 2000.0, 1e-1))
                                       for a, s in zip("yx", pts)]))


@contract("C17", [E + ":ContinuousRankedProbabilityScoreMinimisers.process",
                  E + ":ContinuousRankedProbabilityScoreMinimisers._process_points_together",
                  E + ":ContinuousRankedProbabilityScoreMinimisers._minimise_caller"], trials=80, budget=150)
def minimised(c):
    """the minimiser starts from the guess, is given the predictors, truth and variance of every time and point in the same order in
    double precision, and the coefficients are what it finds"""
    np = c.np
    nt = 2
    pred, nb = c.choice("case", [("mean", 1), ("mean", 2), ("realizations", 2)])
    ny, nx = c.dim("ny"), c.dim("nx")
    S = "seconds since 1970-01-01 00:00:00"
    tc = lambda: dimcoord(c, "time", [3600 * k for k in range(nt)], S, dtype="int64")
    last = pred == "realizations" and c.flag("members last")
    if pred == "mean":
        d = c.array("d", (nt, ny, nx), dtype="float32", lo=250, hi=300)
        fs = [cube(c, d.copy(), "air_temperature", "K", [tc()] + list(yx(c, ny, nx)))]
        if nb == 2:
            e = c.array("e", (ny, nx), dtype="float32", lo=0, hi=500)
            fs.append(cube(c, e.copy(), "surface_altitude", "m", list(yx(c, ny, nx))))
    else:
        d = c.array("d", (nb, nt, ny, nx), dtype="float32", lo=250, hi=300)
        fs = [cube(c, d.copy(), "air_temperature", "K", [realization(c, nb), tc()] + list(yx(c, ny, nx)))]
        if last:
            fs[0].transpose([1, 2, 3, 0])
    t = c.array("t", (nt, ny, nx), dtype="float32", lo=250, hi=300)
    v = c.array("v", (nt, ny, nx), dtype="float32", lo=0, hi=30)
    o = cube(c, t.copy(), "air_temperature", "K", [tc()] + list(yx(c, ny, nx)))
    w = cube(c, v.copy(), "air_temperature", "K2", [tc()] + list(yx(c, ny, nx)))
    g = [0.0] + [1.0 / nb] * nb + [0.0, 1.0]
    x = c.array("x", (nb + 3,), dtype="float64", lo=-5, hi=5)
    got = []

    class Found(object):
        success, message = True, ""

    def minimize(fun, x0, args=(), **k):
        got.append((fun, x0, args, k))
        res = Found()
        res.x = x.copy()
        res.allvecs = [x.copy() + 1.0, x.copy() + 1.0]
        return res
    c.replace(E + ":minimize", minimize)
    dist = c.choice("distribution", ["norm", "truncnorm"])
    P = c.mod(E).ContinuousRankedProbabilityScoreMinimisers(pred, tolerance=0.05, max_iterations=77)
    k, i, j = c.index("point", (nt, ny, nx))
    r = P.process(np.array(g), c.iris.cube.CubeList(fs), o, w, dist)
    c.check("once", len(got) == 1)
    fun, x0, args, opt = got[0]
    c.check("score of the distribution", fun == (P.calculate_normal_crps if dist == "norm" else P.calculate_truncated_normal_crps))
    c.check("method", opt.get("method") == "Nelder-Mead" and opt.get("tol") == 0.05 and opt["options"]["maxiter"] == 77)
    for q, z in enumerate(g):
        c.check("start", c.near(c.at(x0, q), z, 1e-6))
    pd, td, vd, sq = args
    n = nt * ny * nx
    p = (k * ny + i) * nx + j
    c.check("sizes", c.and_(c.same_shape(pd, (n,) if nb == 1 else (n, nb)), c.same_shape(td, (n,)), c.same_shape(vd, (n,))))
    c.check("double", all(c.dtype_is(z, "float64") for z in (pd, td, vd)))
    c.check("truth", c.eq(c.at(td, p), c.at(t, k, i, j)))
    c.check("variance", c.eq(c.at(vd, p), c.at(v, k, i, j)))
    for q in range(nb):
        want = c.at(d, q, k, i, j) if pred == "realizations" else c.at(d, k, i, j) if q == 0 else c.at(e, i, j)
        c.check("predictor", c.eq(c.at(pd, *((p,) if nb == 1 else (p, q))), want))
    c.check("root of pi", abs(float(sq) - 1.7724538509055159) < 1e-9)
    a = c.index("coefficient", (nb + 3,))[0]
    c.check("found", c.and_(c.same_shape(r, (nb + 3,)), c.near(c.at(r, a), c.at(x, a), 1e-5)))
