from vc import contract
from _cubes import cube, dimcoord, field, threshold_coord, time_coords, realization

U = "improver.ensemble_copula_coupling.utilities"
MOD = "improver.ensemble_copula_coupling.ensemble_copula_coupling"


@contract("C07", [U + ":concatenate_2d_array_with_2d_array_endpoints", U + ":insert_lower_and_upper_endpoint_to_1d_array"],
          trials=60)
def endpoints(c):
    """the end points go first and last; everything else keeps its value and order"""
    n, m = c.dim("n"), c.dim("m")
    a = c.array("a", (n, m), dtype="float32", lo=-50, hi=50)
    v = c.array("v", (m,), dtype=c.choice("dt", ["float32", "float64", "int64"]), lo=-50, hi=50)
    lo, hi = c.int("lo", -100, 100), c.int("hi", -100, 100)
    M = c.mod(U)
    r = M.concatenate_2d_array_with_2d_array_endpoints(a, lo, hi)
    c.check("shape", c.same_shape(r, (n, m + 2)))
    c.check_all("ends", (n,), lambda i: c.and_(c.eq(c.at(r, i, 0), lo), c.eq(c.at(r, i, m + 1), hi)))
    c.check_all("inside", (n, m), lambda i, j: c.eq(c.at(r, i, j + 1), c.at(a, i, j)))
    c.check("dtype", c.dtype_is(r, "float32"))
    w = M.insert_lower_and_upper_endpoint_to_1d_array(v, lo, hi)
    c.check("shape 1d", c.same_shape(w, (m + 2,)))
    c.check("ends 1d", c.and_(c.eq(c.at(w, 0), lo), c.eq(c.at(w, m + 1), hi)))
    c.check_all("inside 1d", (m,), lambda j: c.eq(c.at(w, j + 1), c.at(v, j)))
    raised, _ = c.raises(ValueError, lambda: M.concatenate_2d_array_with_2d_array_endpoints(v, lo, hi))
    raised2, _ = c.raises(ValueError, lambda: M.insert_lower_and_upper_endpoint_to_1d_array(a, lo, hi))
    c.check("wrong number of dimensions refused", raised and raised2)


@contract("C07", U + ":choose_set_of_percentiles", trials=40)
def percentile_set(c):
    """n quantiles partition (0, 100) into n + 1 equal steps; random sampling gives ordered values between the outermost"""
    n = c.choice("n", [1, 2, 3, 5, 9])
    M = c.mod(U)
    r = M.choose_set_of_percentiles(n)
    c.check("count", len(r) == n)
    for k in range(n):
        c.check("step %d" % k, c.near(r[k], 100.0 * (k + 1) / (n + 1), 1e-4))
    raised, _ = c.raises(ValueError, lambda: M.choose_set_of_percentiles(n, sampling="foo"))
    c.check("unknown sampling refused", raised)
    if not c.symbolic:
        r = M.choose_set_of_percentiles(n, sampling="random")
        c.check("random", len(r) == n and r == sorted(r) and min(r) >= 100 / (n + 1) - 1e-6 and max(r) <= 100 * n / (n + 1) + 1e-6)


def _bracket(c, X, F, v, r, n, j):
    """r is the value at v of the straight line through points j, j + 1 (if v lies there)"""
    xj, xk, fj, fk = c.at(X, j), c.at(X, j + 1), F(j), F(j + 1)
    inside = c.and_(xj <= v, v < xk)
    if not c.symbolic:
        if not inside:
            return True
        e = fj + (fk - fj) * (float(v) - xj) / (float(xk) - float(xj))
        return c.and_(c.near(r, e, 1e-3), c.ge(r, min(fj, fk), 1e-4), c.le(r, max(fj, fk), 1e-4))
    return c.and_(c.implies(inside, c.eq(r, fj + (fk - fj) / (xk - xj) * (v - xj))),
                  c.implies(c.and_(inside, fj <= fk), c.and_(r >= fj, r <= fk)))


def _ends(c, X, F, v, r, n):
    return c.and_(c.implies(v <= c.at(X, 0), c.eq(r, F(0), 1e-4)), c.implies(v >= c.at(X, n - 1), c.eq(r, F(n - 1), 1e-4)))


def _points(c, name, n, lo, hi):
    """n strictly increasing points"""
    return c.array(name, (n,), dtype="float64", lo=lo, hi=hi, sorted=("lt", 0))


@contract("C07", U + ":slow_interp_same_x", trials=100)
def interp_same_x(c):
    """row by row: the straight line between the two known points around each requested x; the end values beyond them"""
    rows, n, m = c.dim("rows"), c.dim("points"), c.dim("wanted")
    xp = _points(c, "xp", n, 0, 100)
    fp = c.array("fp", (rows, n), dtype="float64", lo=-50, hi=50)
    x = c.array("x", (m,), dtype="float64", lo=-5, hi=105)

    def inv(st):
        res = st.modified[0] if st.modified else None
        if res is None:
            return []
        F = lambda i: (lambda j: c.at(fp, i, j))
        return [("segments", c.forall((rows, m, n - 1), lambda i, q, j: c.implies(
                    i < st.k, _bracket(c, xp, F(i), c.at(x, q), c.at(res, i, q), n, j)))),
                ("ends", c.forall((rows, m), lambda i, q: c.implies(
                    i < st.k, _ends(c, xp, F(i), c.at(x, q), c.at(res, i, q), n))))]
    c.loop(U + ":*", inv)
    r = c.mod(U).slow_interp_same_x(x, xp, fp)
    c.check("shape", c.same_shape(r, (rows, m)))
    F = lambda i: (lambda j: c.at(fp, i, j))
    c.check_all("segments", (rows, m, n - 1), lambda i, q, j: _bracket(c, xp, F(i), c.at(x, q), c.at(r, i, q), n, j))
    c.check_all("ends", (rows, m), lambda i, q: _ends(c, xp, F(i), c.at(x, q), c.at(r, i, q), n))


@contract("C07", U + ":slow_interp_same_y", trials=100)
def interp_same_y(c):
    """row by row, each row with its own abscissae: as above"""
    rows, n, m = c.dim("rows"), c.dim("points"), c.dim("wanted")
    xp = c.array("xp", (rows, n), dtype="float64", lo=0, hi=1, sorted=("lt", 1))
    fp = c.array("fp", (n,), dtype="float64", lo=-50, hi=50)
    x = c.array("x", (m,), dtype="float64", lo=-0.2, hi=1.2)
    row = lambda i: xp[i]
    F = lambda j: c.at(fp, j)

    def inv(st):
        res = st.modified[0] if st.modified else None
        if res is None:
            return []
        return [("segments", c.forall((rows, m, n - 1), lambda i, q, j: c.implies(
                    i < st.k, _bracket(c, row(i), F, c.at(x, q), c.at(res, i, q), n, j)))),
                ("ends", c.forall((rows, m), lambda i, q: c.implies(
                    i < st.k, _ends(c, row(i), F, c.at(x, q), c.at(res, i, q), n))))]
    c.loop(U + ":*", inv)
    r = c.mod(U).slow_interp_same_y(x, xp, fp)
    c.check("shape", c.same_shape(r, (rows, m)))
    c.check_all("segments", (rows, m, n - 1), lambda i, q, j: _bracket(c, row(i), F, c.at(x, q), c.at(r, i, q), n, j))
    c.check_all("ends", (rows, m), lambda i, q: _ends(c, row(i), F, c.at(x, q), c.at(r, i, q), n))


@contract("C07", MOD + ":ResamplePercentiles._add_bounds_to_percentiles_and_forecast_at_percentiles", trials=150, budget=120)
def resample_bounds(c):
    """0 and 100 per cent get the distribution's bounds (widened to the data when allowed, else data outside them is refused)"""
    n, m = c.dim("points"), c.dim("percentiles")
    w = c.flag("warn")
    p = c.array("p", (m,), dtype="float32", lo=0, hi=100, sorted=("le", 0))
    f = c.array("f", (n, m), dtype="float32", lo=-60, hi=60, sorted=("le", 1))
    lo, hi = c.real("lo", -50, 0), c.real("hi", 0, 50)
    P = c.mod(MOD).ResamplePercentiles(ecc_bounds_warning=w)
    i, j = c.index("cell", (n, m))
    c.use_index(i, 0)
    c.use_index(i, 1)
    c.use_index(i, m)
    c.use_index(i, m - 1)
    c.use_index(i, j)
    c.use_index(i, j + 1)
    raised, r = c.raises(ValueError, lambda: P._add_bounds_to_percentiles_and_forecast_at_percentiles(p, f, (lo, hi)))
    out = c.or_(c.at(f, i, 0) < lo, c.at(f, i, m - 1) > hi)
    if w:
        c.check("never refused", not raised)
    elif not c.symbolic:
        c.check("refused when outside", raised == bool((f.min() < lo) or (f.max() > hi)))
    elif not raised:
        c.check("accepted only when inside", c.not_(out))
    if raised:
        return
    pp, ff = r
    c.check("shapes", c.and_(c.same_shape(pp, (m + 2,)), c.same_shape(ff, (n, m + 2))))
    c.check("percentile ends", c.and_(c.eq(c.at(pp, 0), 0), c.eq(c.at(pp, m + 1), 100)))
    c.check("kept", c.and_(c.eq(c.at(pp, j + 1), c.at(p, j)), c.eq(c.at(ff, i, j + 1), c.at(f, i, j))))
    a, b = c.at(ff, i, 0), c.at(ff, i, m + 1)
    c.check("not decreasing", c.and_(c.le(a, c.at(f, i, 0)), c.le(c.at(f, i, m - 1), b)))
    c.check("never narrower than the bounds", c.and_(c.le(a, lo, 1e-4), c.ge(b, hi, 1e-4)))
    if not w:
        c.check("the bounds themselves", c.and_(c.eq(a, lo), c.eq(b, hi)))
    elif c.symbolic:
        pass
    else:
        c.check("no wider than needed", c.and_(c.eq(a, min(lo, f.min())), c.eq(b, max(hi, f.max()))))


@contract("C07", MOD + ":ConvertProbabilitiesToPercentiles._add_bounds_to_thresholds_and_probabilities", trials=150, budget=120)
def threshold_bounds(c):
    """probability 0 and 1 get the distribution's bounds (widened to the thresholds when allowed, else refused)"""
    n, m = c.dim("points"), c.dim("thresholds")
    w = c.flag("warn")
    t = c.array("t", (m,), dtype="float32", lo=-60, hi=60, sorted=("lt", 0))
    p = c.array("p", (n, m), dtype="float32", lo=0, hi=1, sorted=("le", 1))
    lo, hi = c.real("lo", -50, 0), c.real("hi", 0, 50)
    P = c.mod(MOD).ConvertProbabilitiesToPercentiles(ecc_bounds_warning=w)
    i, j = c.index("cell", (n, m))
    for k in (0, 1, m, m + 1, m - 1, j, j + 1):
        c.use_index(k)
    raised, r = c.raises(ValueError, lambda: P._add_bounds_to_thresholds_and_probabilities(t, p, (lo, hi)))
    out = c.or_(c.at(t, 0) < lo, c.at(t, m - 1) > hi)
    if w:
        c.check("never refused", not raised)
    else:
        c.check("refused exactly when outside", c.iff(raised, out))
    if raised:
        return
    tt, pp = r
    c.check("shapes", c.and_(c.same_shape(tt, (m + 2,)), c.same_shape(pp, (n, m + 2))))
    c.check("probability ends", c.and_(c.eq(c.at(pp, i, 0), 0), c.eq(c.at(pp, i, m + 1), 1)))
    c.check("kept", c.and_(c.eq(c.at(tt, j + 1), c.at(t, j)), c.eq(c.at(pp, i, j + 1), c.at(p, i, j))))
    a, b = c.at(tt, 0), c.at(tt, m + 1)
    c.check("ends", c.and_(c.eq(a, c.min(lo, c.at(t, 0)), atol=1e-4), c.eq(b, c.max(hi, c.at(t, m - 1)), atol=1e-4)))


def _cut_rows(c):
    """callers of the row-by-row interpolation see its contract (interp_same_x, interp_same_y): np.interp on each row"""
    if not c.symbolic:
        return

    def rows(n, m, one):
        memo = {}

        def f(i, q):
            t = i.t if hasattr(i, "t") else i
            key = t.get_id() if hasattr(t, "get_id") else int(t)
            if key not in memo:
                memo[key] = (t, one(i))
            return c.at(memo[key][1], q)
        return c.from_fn((n, m), f, "float32")
    c.cut(U + ":interpolate_multiple_rows_same_x",
          lambda x, xp, fp: rows(fp.shape[0], len(x), lambda i: c.np.interp(x, xp, fp[i])))
    c.cut(U + ":interpolate_multiple_rows_same_y",
          lambda x, xp, fp: rows(xp.shape[0], len(x), lambda i: c.np.interp(x, xp[i], fp)))
    for n in ("interpolate_multiple_rows_same_x", "interpolate_multiple_rows_same_y"):
        c.cut(MOD + ":" + n, getattr(c.mod(U), n))


def _order(c, cu, lead, y="projection_y_coordinate", x="projection_x_coordinate"):
    """present the cube with its leading coordinate anywhere"""
    k = c.choice("leading axis at", [0, 2])
    if k == 2:
        cu.transpose([1, 2, 0])
    return cu


@contract("C07", [MOD + ":ResamplePercentiles.process", MOD + ":ResamplePercentiles._interpolate_percentiles",
                  U + ":restore_non_percentile_dimensions", U + ":create_cube_with_percentiles",
                  U + ":interpolate_multiple_rows_same_x", "improver.calibration.utilities:convert_cube_data_to_2d"],
          trials=120, budget=200)
def resample_process(c):
    """resampled percentiles lie on the line through the known percentiles, with the distribution's bounds at 0 and 100 %"""
    ny, nx = c.dim("ny"), c.dim("nx")
    _cut_rows(c)
    src = c.choice("from", [[10.0, 50.0, 90.0], [20.0, 30.0, 70.0, 80.0]])
    want = c.choice("to", [[10.0, 45.0, 95.0], [50.0], None, [0.0, 100.0]])
    masked = c.flag("masked")
    nb = c.flag("skip bounds")
    m = len(src)
    d = c.array("d", (m, ny, nx), lo=-10, hi=25, sorted=("le", 0))
    if masked:
        mk = c.array("mk", (ny, nx), dtype="bool")
        y0, x0 = c.index("masked point", (ny, nx))
        c.assume(c.at(mk, y0, x0))
        c.use_index(0, y0, x0)
        c.use_index(y0, x0, 0)
        data = c.masked_array(d, c.from_fn((m, ny, nx), lambda k, i, j: c.at(mk, i, j), "bool"))
    else:
        data = d
    p = dimcoord(c, "percentile", src, "%")
    cu = _order(c, field(c, data, "air_temperature", "Celsius", lead=[p]), "percentile")
    r = c.mod(MOD).ResamplePercentiles(skip_ecc_bounds=nb)(cu, percentiles=want)
    exp = want or [100.0 * (k + 1) / (m + 1) for k in range(m)]
    X, lo, hi = list(src), -100.0, 60.0
    if not nb:
        X = [0.0] + X + [100.0]
    c.check("shape", c.same_shape(r, (len(exp), ny, nx) if len(exp) > 1 else (ny, nx)))
    pts = r.coord("percentile").points
    for k in range(len(exp)):
        c.check("percentile %d" % k, c.near(c.at(pts, k), exp[k], 1e-4))
    y, x = c.index("point", (ny, nx))
    if masked:
        c.use_index(y, x)
        c.check("is masked array", c.isma(r.data))
    V = [c.at(d, k, y, x) for k in range(m)]
    if not nb:
        V = [lo] + V + [hi]
    prev = None
    for k, q in enumerate(exp):
        ix = (k, y, x) if len(exp) > 1 else (y, x)
        v = c.at(r.data, *ix)
        if masked:
            c.check("mask", c.iff(c.masked(r.data, *ix), c.at(mk, y, x)))
        ok = True if not masked else c.not_(c.at(mk, y, x))
        if q <= X[0]:
            e = V[0]
        elif q >= X[-1]:
            e = V[-1]
        else:
            j = max(i for i in range(len(X)) if X[i] <= q)
            e = V[j] + (V[j + 1] - V[j]) * ((q - X[j]) / (X[j + 1] - X[j]))
        c.check("value", c.implies(ok, c.near(v, e, 2e-3)))
        if prev is not None:
            c.check("ordered", c.implies(ok, c.ge(v, prev, 1e-3)))
        prev = v


@contract("C07", [MOD + ":ConvertProbabilitiesToPercentiles.process",
                  MOD + ":ConvertProbabilitiesToPercentiles._probabilities_to_percentiles",
                  U + ":interpolate_multiple_rows_same_y", U + ":get_bounds_of_distribution"], trials=150, budget=420)
def probs_to_percentiles(c):
    """a percentile is where the cumulative distribution (0 and 1 at the distribution's bounds) reaches it"""
    ny, nx = c.dim("ny"), c.dim("nx")
    _cut_rows(c)
    th = c.choice("thresholds", [[270.0, 275.0, 280.0], [280.0]])
    above = c.flag("above")
    want = c.choice("to", [[10.0, 45.0, 95.0], 25.0])
    masked = c.flag("masked")
    m = len(th)
    cdf = c.array("cdf", (m, ny, nx), dtype="float32", lo=0.0, hi=1.0, sorted=("le", 0))
    pr = c.from_fn((m, ny, nx), lambda k, i, j: 1 - c.at(cdf, k, i, j), "float32") if above else cdf
    if masked:
        mk = c.array("mk", (ny, nx), dtype="bool")
        y0, x0 = c.index("masked point", (ny, nx))
        c.assume(c.at(mk, y0, x0))
        c.use_index(0, y0, x0)
        c.use_index(y0, x0, 0)
        pr = c.masked_array(pr, c.from_fn((m, ny, nx), lambda k, i, j: c.at(mk, i, j), "bool"))
    t = threshold_coord(c, th, rel="greater_than" if above else "less_than")
    cu = field(c, pr, "probability_of_air_temperature_%s_threshold" % ("above" if above else "below"), "1", lead=[t])
    cu = _order(c, cu, "air_temperature")
    r = c.mod(MOD).ConvertProbabilitiesToPercentiles()(cu, percentiles=want)
    exp = want if isinstance(want, list) else [want]
    c.check("shape", c.same_shape(r, (len(exp), ny, nx) if len(exp) > 1 else (ny, nx)))
    c.check("name", r.name() == "air_temperature" and str(r.units) == "K")
    pts = r.coord("percentile").points
    y, x = c.index("point", (ny, nx))
    if masked:
        c.use_index(y, x)
        c.check("is masked array", c.isma(r.data))
    T = [173.15] + th + [333.15]
    P = [0.0] + [c.at(cdf, k, y, x) for k in range(m)] + [1.0]
    prev = None
    for k, q in enumerate(exp):
        c.check("percentile %d" % k, c.near(c.at(pts, k), q, 1e-4))
        ix = (k, y, x) if len(exp) > 1 else (y, x)
        v = c.at(r.data, *ix)
        if masked:
            c.check("mask", c.iff(c.masked(r.data, *ix), c.at(mk, y, x)))
        ok = True if not masked else c.not_(c.at(mk, y, x))
        f = q / 100.0
        c.check("within bounds", c.implies(ok, c.and_(c.ge(v, T[0], 1e-3), c.le(v, T[-1], 1e-3))))
        for j in range(m + 1):
            # strictly inside a segment that is not too steep: the straight line
            wide = P[j + 1] - P[j] > 0.02
            ins = c.and_(P[j] + 1e-6 <= f, f <= P[j + 1] - 1e-6)
            e = c.and_(c.ge(v, T[j], 1e-3), c.le(v, T[j + 1], 1e-3))
            c.check("segment %d" % j, c.implies(c.and_(ok, ins), e))
            lin = c.near((v - T[j]) * (P[j + 1] - P[j]), (T[j + 1] - T[j]) * (f - P[j]), 2e-3, True)
            c.check("line %d" % j, c.implies(c.and_(ok, ins, wide), lin))
        if prev is not None:
            c.check("ordered", c.implies(ok, c.ge(v, prev, 1e-3)))
        prev = v


@contract("C07", [MOD + ":RebadgeRealizationsAsPercentiles.process", MOD + ":RebadgePercentilesAsRealizations.process"], trials=80)
def rebadge(c):
    """realizations become percentiles by sorting at each point, evenly spaced; evenly spaced percentiles become realizations
    unchanged, any other percentiles are refused"""
    n = c.choice("n", [1, 2, 3, 4])
    ny, nx = c.dim("ny"), c.dim("nx")
    opt = c.flag("optimal")
    d = c.array("d", (n, ny, nx), lo=-50, hi=50)
    d0 = c.snap(d)
    axis = c.choice("axis", [0, 2])
    cu = field(c, d, "air_temperature", "K", lead=[realization(c, n)])
    if axis == 2:
        cu.transpose([1, 2, 0])
    M = c.mod(MOD)
    r = M.RebadgeRealizationsAsPercentiles(optimal_crps_percentiles=opt)(cu)
    y, x = c.index("point", (ny, nx))
    ix = (lambda k: (k, y, x)) if axis == 0 else (lambda k: (y, x, k))
    o, v = [c.at(r.data, *ix(k)) for k in range(n)], [c.at(d0, k, y, x) for k in range(n)]
    c.check("input kept", c.and_(*[c.eq(c.at(cu.data, *ix(k)), v[k]) for k in range(n)]))
    for k in range(n - 1):
        c.check("ordered", o[k] <= o[k + 1])
    import itertools
    c.check("same values", c.or_(*[c.and_(*[c.eq(o[k], v[s[k]]) for k in range(n)]) for s in itertools.permutations(range(n))]))
    pts = r.coord("percentile").points
    for k in range(n):
        c.check("percentile", c.near(c.at(pts, k), 100 * (k + 0.5) / n if opt else 100.0 * (k + 1) / (n + 1), 1e-3, True))
    c.check("units", str(r.coord("percentile").units) == "%")
    even = (not opt) or n == 1
    raised, q = c.raises(ValueError, lambda: M.RebadgePercentilesAsRealizations.process(r))
    c.check("unevenly spread percentiles refused", raised == (not even))
    if not raised:
        c.check("values", c.and_(*[c.eq(c.at(q.data, *ix(k)), o[k]) for k in range(n)]))
        c.check("numbers", c.and_(*[c.eq(c.at(q.coord("realization").points, k), k) for k in range(n)]))


def _params(c, ny, nx, masked, smin):
    loc = c.array("loc", (ny, nx), dtype="float32", lo=250, hi=300, mask=masked)
    sc = c.array("scale", (ny, nx), dtype="float32", lo=smin, hi=10, mask=masked)
    return loc, sc


@contract("C07", [MOD + ":ConvertLocationAndScaleParametersToPercentiles.process",
                  MOD + ":ConvertLocationAndScaleParametersToPercentiles._location_and_scale_parameters_to_percentiles",
                  MOD + ":ConvertLocationAndScaleParameters._rescale_shape_parameters"], trials=100, budget=420)
def params_to_percentiles(c):
    """percentiles of a (truncated) normal distribution are its quantiles, each call with its own parameters"""
    ny, nx = c.dim("ny"), c.dim("nx")
    trunc = c.flag("truncated")
    masked = c.flag("masked")
    want = [12.5, 75.0]
    loc, sc = _params(c, ny, nx, masked, 0.5 if trunc else 0.0)
    M = c.mod(MOD)
    P = M.ConvertLocationAndScaleParametersToPercentiles(
        **(dict(distribution="truncnorm", shape_parameters=c.np.array([260.0, 290.0], dtype=c.np.float32)) if trunc else {}))
    t = field(c, c.array("tmpl", (2, ny, nx)), "air_temperature", "K", lead=[realization(c, 2)])
    mk = lambda d, n: field(c, d, n, "K")
    twice = trunc and c.flag("second call")
    if twice:
        P(mk(c.np.full((1, 2), 271, dtype=c.np.float32), "location_parameter"),
          mk(c.np.full((1, 2), 5.5, dtype=c.np.float32), "scale_parameter"),
          field(c, c.np.zeros((2, 1, 2), dtype=c.np.float32), "air_temperature", "K", lead=[realization(c, 2)]), percentiles=want)
    y, x = c.index("point", (ny, nx))
    l, s = c.at(loc, y, x), c.at(sc, y, x)
    ok = c.not_(c.or_(c.masked(loc, y, x), c.masked(sc, y, x))) if masked else True
    c.use_index(y * nx + x)
    r = P(mk(loc, "location_parameter"), mk(sc, "scale_parameter"), t, percentiles=want)
    c.check("shape", c.same_shape(r, (len(want), ny, nx) if len(want) > 1 else (1, ny, nx)) if r.ndim == 3
            else len(want) == 1)
    for k, q in enumerate(want):
        v = c.at(r.data, k, y, x) if r.ndim == 3 else c.at(r.data, y, x)
        if masked:
            c.check("mask", c.iff(c.masked(r.data, *((k, y, x) if r.ndim == 3 else (y, x))), c.not_(ok)))
        f = q / 100.0
        if not trunc:
            e = l + s * c.f("ndtri", f)
            c.check("quantile", c.implies(ok, c.near(v, e, 2e-3)))
        else:
            A, B = c.f("ndtr", (260 - l) / s), c.f("ndtr", (290 - l) / s)
            if c.symbolic:
                c.check("quantile", c.implies(ok, c.near(c.f("ndtr", (v - l) / s), A + f * (B - A), 1e-5)))
            else:
                c.check("quantile", (not ok) or B - A < 1e-3 or abs(c.f("ndtr", (v - l) / s) - A - f * (B - A)) < 2e-3)
                c.check("in range", (not ok) or B - A < 1e-3 or 259.99 <= v <= 290.01)


@contract("C07", [MOD + ":ConvertLocationAndScaleParametersToProbabilities.process",
                  MOD + ":ConvertLocationAndScaleParametersToProbabilities._location_and_scale_parameters_to_probabilities"],
          trials=100, budget=320)
def params_to_probabilities(c):
    """probabilities of a (truncated) normal distribution are its distribution function (or one minus it) at each threshold"""
    ny, nx = c.dim("ny"), c.dim("nx")
    trunc = c.flag("truncated")
    masked = c.flag("masked")
    above = c.flag("above")
    loc, sc = _params(c, ny, nx, masked, 0.5)
    th = [255.0, 270.0, 285.0]
    P = c.mod(MOD).ConvertLocationAndScaleParametersToProbabilities(
        **(dict(distribution="truncnorm", shape_parameters=c.np.array([260.0, 290.0], dtype=c.np.float32)) if trunc else {}))
    co = threshold_coord(c, th, rel="greater_than" if above else "less_than")
    name = "probability_of_air_temperature_%s_threshold" % ("above" if above else "below")
    tm = field(c, c.array("tmpl", (3, ny, nx)), name, "1", lead=[co])
    mk = lambda d, n: field(c, d, n, "K")
    if trunc and c.flag("second call"):
        P(mk(c.array("loc0", (ny, nx), dtype="float32", lo=250, hi=300), "location_parameter"),
          mk(c.array("sc0", (ny, nx), dtype="float32", lo=0.5, hi=10), "scale_parameter"), tm.copy())
    y, x = c.index("point", (ny, nx))
    l, s = c.at(loc, y, x), c.at(sc, y, x)
    ok = c.not_(c.or_(c.masked(loc, y, x), c.masked(sc, y, x))) if masked else True
    r = P(mk(loc, "location_parameter"), mk(sc, "scale_parameter"), tm)
    c.check("shape", c.same_shape(r, (3, ny, nx)))
    c.check("name", r.name() == name)
    prev = None
    for k, t in enumerate(th):
        v = c.at(r.data, k, y, x)
        if masked:
            c.check("mask", c.iff(c.masked(r.data, k, y, x), c.not_(ok)))
        F = c.f("ndtr", (t - l) / s)
        if trunc:
            A, B = c.f("ndtr", (260 - l) / s), c.f("ndtr", (290 - l) / s)
            if not c.symbolic and B - A < 1e-3:
                continue
            F = 0.0 if t <= 260 else (F - A) / (B - A)
        e = 1 - F if above else F
        c.check("probability", c.implies(ok, c.near(v, e, 1e-5 if c.symbolic else 2e-3)))
        c.check("in [0, 1]", c.implies(ok, c.and_(c.ge(v, 0, 1e-5), c.le(v, 1, 1e-5))))
        if prev is not None:
            c.check("ordered", c.implies(ok, c.le(v, prev, 1e-5) if above else c.ge(v, prev, 1e-5)))
        prev = v
