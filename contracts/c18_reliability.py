from vc import contract
from _cubes import cube, dimcoord, field, threshold_coord, time_coords, yx, EPOCH

R = "improver.calibration.reliability_calibration"
ROWS = ["observation_count", "sum_of_forecast_probabilities", "forecast_count"]


def _plugin(c, n, lo=False, up=False):
    return c.mod(R).ConstructReliabilityCalibrationTables(n, single_value_lower_limit=lo, single_value_upper_limit=up)


@contract("C18", R + ":ConstructReliabilityCalibrationTables._define_probability_bins", trials=60)
def bins_partition(c):
    """the bins cover [0, 1] from end to end without gaps or overlap in single precision, in equal widths but for the ends"""
    np = c.np
    n = c.choice("bins", [1, 2, 3, 4, 5, 6, 7, 10, 13, 20])
    lo, up = c.flag("single value lower"), c.flag("single value upper")
    if n - lo - up < 1 and not (lo and up):
        return
    bad, P = c.raises(ValueError, lambda: _plugin(c, n, lo, up))
    c.check("too few bins refused", bad == (lo and up and n <= 2))
    if bad:
        return
    b = P.probability_bins
    v = [[float(b[k, q]) for q in (0, 1)] for k in range(n)]
    c.check("number", tuple(b.shape) == (n, 2) and str(b.dtype) == "float32")
    c.check("ends", v[0][0] == 0 and v[-1][1] == 1)
    c.check("no gap, no overlap", all(v[k][1] < v[k + 1][0] <= v[k][1] * (1 + 3e-7) + 1e-12 for k in range(n - 1)))
    inner = v[1 if lo else 0:n - 1 if up else n]
    c.check("equal widths", all(abs(q[1] - q[0] - 1.0 / len(inner)) < 3e-6 for q in inner))
    if lo:
        c.check("lowest", abs(v[0][1] - 1e-6) < 1e-9)
    if up:
        c.check("highest", abs(v[-1][0] - (1 - 1e-6)) < 1e-7)


def _row(c, f, t, bins, k):
    """what one forecast and one truth add to bin k (forecast not NaN)"""
    n = len(bins)
    inside = f >= bins[k]
    if k < n - 1:
        inside = c.and_(inside, f < bins[k + 1])
    ones = c.ite(inside, 1, 0)
    return [c.ite(c.and_(inside, c.eq(t, 1)), 1, 0), c.ite(inside, f, 0), ones]


@contract("C18", [R + ":ConstructReliabilityCalibrationTables._populate_reliability_bins",
                  R + ":ConstructReliabilityCalibrationTables._populate_masked_reliability_bins"], trials=80)
def populate(c):
    """each forecast counts in exactly the bin that holds it, with its probability and its outcome; NaN counts nowhere; where the
    truth is missing the table is missing"""
    n = c.choice("bins", [2, 3, 5])
    lo, up = (c.flag("single value lower"), c.flag("single value upper")) if n == 5 else (False, False)
    masked = c.flag("masked truth")
    ny, nx = c.dim("ny"), c.dim("nx")
    f = c.array("f", (ny, nx), dtype="float32", lo=0, hi=1, nan=not masked)
    t = c.array("t", (ny, nx), dtype="float32", values=[0.0, 1.0], lo=0, hi=1)
    i, j = c.index("point", (ny, nx))
    P = _plugin(c, n, lo, up)
    edges = [P.probability_bins[k, 0] for k in range(n)]
    c.assume(c.or_(c.eq(c.at(t, i, j), 0), c.eq(c.at(t, i, j), 1)))
    if masked:
        mk = c.array("mk", (ny, nx), dtype="bool")
        r = P._populate_masked_reliability_bins(f, c.masked_array(t, mk))
        gone = c.at(mk, i, j)
    else:
        r = P._populate_reliability_bins(f, t)
        gone = False
    c.check("shape", c.same_shape(r, (3, n, ny, nx)))
    nan = c.isnan(c.at(f, i, j))
    for k in range(n):
        w = _row(c, c.at(f, i, j), c.at(t, i, j), edges, k)
        for q in range(3):
            c.check("missing", c.iff(c.masked(r, q, k, i, j), gone))
            c.check(ROWS[q], c.or_(gone, c.near(c.at(r.data, q, k, i, j), c.ite(nan, 0, w[q]), 1e-6)))


def _forecast(c, data, thresholds, times, rel="greater_than"):
    """threshold x time x y x x"""
    np = c.np
    ny, nx = data.shape[-2:]
    y, x = yx(c, ny, nx)
    D = c.iris.coords.DimCoord
    t = D(np.array(times, dtype=np.int64), standard_name="time", units=EPOCH)
    frt = c.iris.coords.AuxCoord(np.array([q - 14400 for q in times], dtype=np.int64), standard_name="forecast_reference_time", units=EPOCH)
    fp = c.iris.coords.AuxCoord(np.array(14400, dtype=np.int32), standard_name="forecast_period", units="seconds")
    return cube(c, data, "probability_of_air_temperature_above_threshold", "1",
                [threshold_coord(c, thresholds, rel=rel), t, y, x], [(frt, 1), (fp, None)],
                attributes={"source": "s", "institution": "i", "title": "t"})


@contract("C18", R + ":ConstructReliabilityCalibrationTables.process", trials=60, budget=240)
def tables(c):
    """each threshold's table sums, over the times, every forecast that has a truth; a point is missing exactly when no time has a
    truth there"""
    np = c.np
    n, nt = 2, c.choice("times", [1, 2, 3])
    masked = c.flag("masked truth")
    T = [273, 275]
    ny, nx = c.dim("ny"), c.dim("nx")
    f = c.array("f", (2, nt, ny, nx), dtype="float32", lo=0, hi=1)
    t = c.array("t", (2, nt, ny, nx), dtype="float32", values=[0.0, 1.0], lo=0, hi=1)
    times = [1510286400 + 86400 * k for k in range(nt)]
    i, j = c.index("point", (ny, nx))
    for h in range(2):
        for k in range(nt):
            c.use_index(h, k, i, j)
            c.use_index(k, i, j)
    mk = None
    tin = t
    if masked:
        # times without any missing truth come between others that have some
        some = [bool(q) for q in c.choice("times with missing truths", [(1, 0, 1), (0, 1, 0), (1, 1, 1)])[:nt]]
        m = c.array("mk", (nt, ny, nx), dtype="bool")
        mk = [c.and_(s, c.at(m, k, i, j)) for k, s in enumerate(some)]
        full = c.from_fn((2, nt, ny, nx), lambda h, k, y, x: c.and_(c.or_(*[c.and_(c.eq(k, q), some[q]) for q in range(nt)]), c.at(m, k, y, x)), "bool")
        tin = c.masked_array(t, full)
    P = _plugin(c, n)
    c.std_by_range()
    r = P.process(_forecast(c, f, T, times), _forecast(c, tin, T, times))
    edges = [P.probability_bins[k, 0] for k in range(n)]
    c.check("shape", c.same_shape(r.data, (2, 3, n, ny, nx)))
    frt = r.coord("forecast_reference_time")
    c.check("cycles", [int(v) for v in frt.bounds[0]] == [times[0] - 14400, times[-1] - 14400] if nt > 1 else True)
    h = c.choice("threshold", [0, 1])
    for k in range(nt):
        c.assume(c.or_(c.eq(c.at(t, h, k, i, j), 0), c.eq(c.at(t, h, k, i, j), 1)))
    gone = c.and_(*mk) if masked else False
    for b in range(n):
        sums = [0, 0, 0]
        for k in range(nt):
            w = _row(c, c.at(f, h, k, i, j), c.at(t, h, k, i, j), edges, b)
            use = c.not_(mk[k]) if masked else True
            sums = [a + c.ite(use, q, 0) for a, q in zip(sums, w)]
        for q in range(3):
            c.check("missing", c.iff(c.masked(r.data, h, q, b, i, j), gone))
            c.check(ROWS[q], c.or_(gone, c.near(c.at(c.np.ma.getdata(r.data), h, q, b, i, j), sums[q], 1e-5)))


def _bins_coord(c, bounds):
    np = c.np
    b = np.array(bounds, dtype=np.float32)
    return c.iris.coords.DimCoord(np.array([(q + r) / 2 for q, r in bounds], dtype=np.float32), long_name="probability_bin", units="1", bounds=b)


def _table(c, data, nb, threshold=273, frt=None, frtb=None, lead=None):
    """rows x bins (a reliability table already collapsed over space)"""
    np = c.np
    D, A = c.iris.coords.DimCoord, c.iris.coords.AuxCoord
    rows = D(np.arange(3, dtype=np.int32), long_name="table_row_index", units="1")
    names = A(np.array(ROWS), long_name="table_row_name", units="1")
    bounds = [(k / float(nb), (k + 1) / float(nb)) for k in range(nb)]
    aux = [(names, 0), (threshold_coord(c, np.array(threshold, dtype=np.float32)), None)]
    if frt is not None:
        aux.append((D(np.array(frt, dtype=np.int64), standard_name="forecast_reference_time", units=EPOCH,
                      bounds=np.array(frtb, dtype=np.int64)), None))
    return cube(c, data, "reliability_calibration_table", "1", [rows, _bins_coord(c, bounds)], aux)


def _consistent(c, n, lo):
    """what a table can hold: no more events than forecasts, probabilities summed within their bin"""
    cnt = [c.real("cnt%d" % k, lo=lo, hi=500) for k in range(n)]
    obs = [c.real("obs%d" % k, lo=0, hi=cnt[k]) for k in range(n)]
    prob = [c.real("prob%d" % k, lo=cnt[k] * (k / float(n)), hi=cnt[k] * ((k + 1) / float(n))) for k in range(n)]
    f = lambda v: c.np.array(v, dtype=c.np.float32)
    return f(obs), f(prob), f(cnt)


def _rows(c, n, lo=0):
    return (c.array("obs", (n,), dtype="float32", lo=0, hi=500), c.array("prob", (n,), dtype="float32", lo=0, hi=500),
            c.array("cnt", (n,), dtype="float32", lo=lo, hi=500))


@contract("C18", [R + ":ManipulateReliabilityTable._combine_undersampled_bins", R + ":ManipulateReliabilityTable._sum_pairs",
                  R + ":ManipulateReliabilityTable._create_new_bin_coord"], trials=80, budget=150)
def undersampled(c):
    """bins with too few forecasts are merged with neighbours until none is left or one bin remains; nothing is lost, each new bin
    holds what its old bins held, and the bins still cover [0, 1] in order"""
    n = c.choice("bins", [1, 2, 3, 4])
    obs, prob, cnt = _rows(c, n)
    least = c.choice("minimum", [1, 200])
    o0, p0, c0 = obs.copy(), prob.copy(), cnt.copy()
    bounds = [(k / float(n), (k + 1) / float(n)) for k in range(n)]
    P = c.mod(R).ManipulateReliabilityTable(minimum_forecast_count=least)
    o, p, q, co = P._combine_undersampled_bins(obs, prob, cnt, _bins_coord(c, bounds))
    m = int(q.shape[0])
    c.check("rows of one length", all(tuple(x.shape) == (m,) for x in (o, p, q)) and tuple(co.bounds.shape) == (m, 2) and 1 <= m <= n)
    b = [[float(co.bounds[k, e]) for e in (0, 1)] for k in range(m)]
    c.check("cover", b[0][0] == 0 and b[-1][1] == 1 and all(b[k][1] == b[k + 1][0] for k in range(m - 1)))
    edge = [round(v[0] * n) for v in b] + [n]
    for k in range(m):
        for new, old in ((o, o0), (p, p0), (q, c0)):
            c.check("totals", c.near(c.at(new, k), c.sum_list([c.at(old, z) for z in range(edge[k], edge[k + 1])]), 1e-3))
        c.check("sampled", c.or_(m == 1, c.at(q, k) >= least))
        c.check("bin centre", abs(float(co.points[k]) - sum(b[k]) / 2) < 1e-6)


@contract("C18", R + ":ManipulateReliabilityTable._enforce_min_count_and_montonicity", trials=120, budget=200)
def monotone_table(c):
    """the observed frequency does not fall from one bin to the next, frequencies stay within [0, 1], forecasts and probabilities
    are kept in total, and a table that is already sampled and monotonic is left as it is"""
    np = c.np
    small = c.flag("undersampled bins")
    n = c.choice("bins", ([2, 3] if small else [2, 3, 4]) if c.symbolic else [2, 3, 4, 5])
    obs, prob, cnt = _consistent(c, n, 1 if small else 200)
    P = c.mod(R).ManipulateReliabilityTable(minimum_forecast_count=200)
    data = np.stack([obs, prob, cnt])
    t = _table(c, data, n)
    r = P._enforce_min_count_and_montonicity(t)
    m = int(r.shape[1])
    o, p, q = [[c.at(r.data, a, k) for k in range(m)] for a in range(3)]
    c.check("bins", 1 <= m <= n and r.coord("probability_bin").shape[0] == m)
    c.check("forecasts kept", c.near(c.sum_list(q), c.sum_list([c.at(cnt, k) for k in range(n)]), 1e-2))
    c.check("probabilities kept", c.near(c.sum_list(p), c.sum_list([c.at(prob, k) for k in range(n)]), 1e-2))
    fr = [c.at(obs, k) / c.at(cnt, k) for k in range(n)] if not small else None
    for k in range(m):
        c.check("sampled", c.or_(m == 1, q[k] >= 200 - 1e-3))
        c.check("frequency in range", c.and_(o[k] >= -1e-3, o[k] <= q[k] * (1 + 1e-5) + 1e-3))
        if k:
            c.check("monotonic", o[k] * q[k - 1] >= o[k - 1] * q[k] - 2e-1)
    if not small:
        ok = c.and_(*[fr[k] <= fr[k + 1] for k in range(n - 1)])
        c.check("left alone", c.implies(ok, c.and_(m == n, *[c.near(o[k], c.at(obs, k), 1e-3) for k in range(min(m, n))])))


@contract("C18", R + ":AggregateReliabilityCalibrationTables.process", trials=60)
def aggregated(c):
    """tables are added over cycles and over the coordinates asked for; tables whose cycles overlap are refused"""
    np = c.np
    nb = 2
    n = c.choice("tables", [1, 2, 3])
    order = c.choice("overlap", [False, True]) if n > 1 else False
    cubes, data = [], []
    day = 86400
    for k in range(n):
        d = c.array("table %d" % k, (3, nb), dtype="float32", lo=0, hi=500)
        data.append(d)
        b = [1510286400 + k * 5 * day, 1510286400 + (k * 5 + 3) * day]
        if order and k == n - 1:
            b[0] -= 2 * day
        cubes.append(_table(c, d, nb, frt=b[1], frtb=b))
    P = c.mod(R).AggregateReliabilityCalibrationTables()
    bad, r = c.raises(ValueError, lambda: P.process(c.iris.cube.CubeList(cubes)))
    c.check("overlapping cycles refused", bad == order)
    if bad:
        return
    c.check("shape", c.same_shape(r.data, (3, nb)))
    for a in range(3):
        for k in range(nb):
            c.check("sum", c.near(c.at(r.data, a, k), c.sum_list([c.at(d, a, k) for d in data]), 1e-2))
    frt = r.coord("forecast_reference_time")
    c.check("cycles", [int(v) for v in frt.bounds[0]] == [1510286400, 1510286400 + ((n - 1) * 5 + 3) * day])
    c.check("point", int(frt.points[0]) == 1510286400 + ((n - 1) * 5 + 3) * day)


@contract("C18", R + ":AggregateReliabilityCalibrationTables.process", trials=60)
def aggregated_space(c):
    """a table summed over its grid: each entry is the total of the points that are not missing"""
    np = c.np
    nb, ny, nx = 2, c.dim("ny"), c.dim("nx")
    d = c.array("d", (3, nb, ny, nx), dtype="float32", lo=0, hi=50)
    y, x = yx(c, ny, nx)
    D, A = c.iris.coords.DimCoord, c.iris.coords.AuxCoord
    rows = D(np.arange(3, dtype=np.int32), long_name="table_row_index", units="1")
    frt = D(np.array(86400, dtype=np.int64), standard_name="forecast_reference_time", units=EPOCH, bounds=np.array([0, 86400], dtype=np.int64))
    t = cube(c, d, "reliability_calibration_table", "1", [rows, _bins_coord(c, [(0, 0.5), (0.5, 1)]), y, x],
             [(A(np.array(ROWS), long_name="table_row_name", units="1"), 0), (frt, None)])
    which = c.choice("over", [["projection_y_coordinate", "projection_x_coordinate"], ["projection_x_coordinate"]])
    r = c.mod(R).AggregateReliabilityCalibrationTables().process([t], list(which))
    a, k = c.choice("row", [0, 1, 2]), c.choice("bin", [0, 1])
    if len(which) == 2:
        c.check("shape", c.same_shape(r.data, (3, nb)))
        c.check("total", c.near(c.at(r.data, a, k), c.asum((ny, nx), lambda i, j: c.at(d, a, k, i, j)), 1e-1))
    else:
        c.check("shape", c.same_shape(r.data, (3, nb, ny)))
        i = c.index("row of the grid", (ny,))[0]
        c.check("total", c.near(c.at(r.data, a, k, i), c.sum(nx, lambda j: c.at(d, a, k, i, j)), 1e-1))


def _curve(c, n, label=""):
    """reliability curve: one probability in each bin, observed frequencies that do not fall"""
    p = [c.real("%sp%d" % (label, k), lo=k / float(n) + 0.01, hi=(k + 1) / float(n) - 0.01) for k in range(n)]
    o = []
    for k in range(n):
        o.append(c.real("%so%d" % (label, k), lo=o[-1] if o else 0, hi=1))
    return p, o


def _calibrated(c, v, p, o):
    """linear between the points, extended at both ends with the slope there, cut to [0, 1]"""
    n = len(p)
    w = None
    for k in range(n - 2, -1, -1):
        seg = o[k] + (o[k + 1] - o[k]) / (p[k + 1] - p[k]) * (v - p[k])
        w = seg if w is None else c.ite(v <= p[k + 1], seg, w)
    return c.ite(w < 0, 0, c.ite(w > 1, 1, w))


@contract("C18", R + ":ApplyReliabilityCalibration._interpolate", trials=120)
def interpolation(c):
    """the calibrated probability lies on the reliability curve, within [0, 1]; a higher forecast never becomes a lower one; missing
    points stay missing"""
    n = c.choice("bins", [2, 3, 4])
    np = c.np
    p, o = _curve(c, n)
    ny, nx = c.dim("ny"), c.dim("nx")
    f = c.array("f", (ny, nx), dtype="float32", lo=0, hi=1)
    masked = c.flag("masked")
    i, j = c.index("point", (ny, nx))
    a, b = c.index("other", (ny, nx))
    fin = f
    if masked:
        mk = c.array("mk", (ny, nx), dtype="bool")
        fin = c.masked_array(f, mk)
    for q in ((i * nx + j,), (a * nx + b,), (i, j), (a, b)):
        c.use_index(*q)
    r = c.mod(R).ApplyReliabilityCalibration._interpolate(fin, np.array(p), np.array(o))
    c.check("shape", c.same_shape(r, (ny, nx)))
    v, w = c.at(r.data if masked else r, i, j), c.at(r.data if masked else r, a, b)
    gone = c.at(mk, i, j) if masked else False
    c.check("missing", c.iff(c.masked(r, i, j), gone))
    c.check("in range", c.or_(gone, c.and_(v >= 0, v <= 1)))
    c.check("on the curve", c.or_(gone, c.near(v, _calibrated(c, c.at(f, i, j), p, o), 1e-4)))
    other = c.at(mk, a, b) if masked else False
    c.check("order kept", c.or_(gone, other, c.at(f, i, j) > c.at(f, a, b), v <= w + 1e-4))


@contract("C18", [R + ":ApplyReliabilityCalibration._apply_calibration", R + ":ApplyReliabilityCalibration.process",
                  R + ":ApplyReliabilityCalibration._ensure_monotonicity_across_thresholds",
                  R + ":ApplyReliabilityCalibration._calculate_reliability_probabilities",
                  R + ":ApplyReliabilityCalibration._extract_matching_reliability_table"], trials=80, budget=200)
def calibrated(c):
    """each threshold goes through its own reliability table (single-bin tables leave it alone), and the results are put in order
    over the thresholds, whatever the order of the tables"""
    np = c.np
    above = c.flag("above")
    single = c.flag("one bin for the second threshold")
    T = [273, 275]
    ny, nx = c.dim("ny"), c.dim("nx")
    f = c.array("f", (2, ny, nx), dtype="float32", lo=0, hi=1)
    y, x = yx(c, ny, nx)
    fc = cube(c, f, "probability_of_air_temperature_above_threshold", "1",
              [threshold_coord(c, T, rel="greater_than" if above else "less_than"), y, x])
    i, j = c.index("point", (ny, nx))
    for q in ((i * nx + j,), (i, j), (0, i, j), (1, i, j)):
        c.use_index(*q)
    cnt = 300.0
    curves, tabs = [], []
    for k, t in enumerate(T):
        n = 1 if single and k == 1 else 2
        p, o = _curve(c, n, "t%d" % k)
        d = np.array([[v * cnt for v in o], [v * cnt for v in p], [cnt] * n], dtype=np.float32)
        curves.append((p, o))
        tabs.append(_table(c, d, n, threshold=t))
    if c.flag("tables reversed"):
        tabs = tabs[::-1]
    r = c.mod(R).ApplyReliabilityCalibration().process(fc, c.iris.cube.CubeList(tabs))
    c.check("shape", c.same_shape(r.data, (2, ny, nx)))
    c.check("form", str(r.data.dtype) == "float32" and r.name() == fc.name())
    w = [_calibrated(c, c.at(f, k, i, j), *curves[k]) if len(curves[k][0]) > 1 else c.at(f, k, i, j) for k in range(2)]
    a, b = c.at(r.data, 0, i, j), c.at(r.data, 1, i, j)
    hi, lo = c.ite(w[0] > w[1], w[0], w[1]), c.ite(w[0] > w[1], w[1], w[0])
    if above:
        a, b = b, a
    c.check("lower", c.near(a, lo, 1e-4))
    c.check("higher", c.near(b, hi, 1e-4))
    for k in range(2):
        c.check("input left alone", c.eq(c.at(fc.data, k, i, j), c.at(f, k, i, j)))


@contract("C18", [R + ":ApplyReliabilityCalibration._extract_matching_reliability_table",
                  R + ":ApplyReliabilityCalibration._ensure_monotonicity_across_thresholds"], trials=30)
def calibration_refused(c):
    """a forecast threshold without a table of its own, or thresholds of unknown sense, are refused"""
    np = c.np
    T = [273, 275]
    t2 = c.choice("second table", [275, 276])
    rel = c.choice("sense", ["greater_than", "less_than_or_equal_to", "near"])
    ny, nx = c.dim("ny"), c.dim("nx")
    f = c.array("f", (2, ny, nx), dtype="float32", lo=0, hi=1)
    y, x = yx(c, ny, nx)
    fc = cube(c, f, "probability_of_air_temperature_above_threshold", "1", [threshold_coord(c, T, rel=rel), y, x])
    d = np.array([[60, 240], [60, 240], [300, 300]], dtype=np.float32)
    tabs = c.iris.cube.CubeList([_table(c, d.copy(), 2, threshold=t) for t in (273, t2)])
    bad, r = c.raises(Exception, lambda: c.mod(R).ApplyReliabilityCalibration().process(fc, tabs))
    c.check("refused", bad == (t2 != 275 or rel == "near"))


@contract("C18", [R + ":ApplyReliabilityCalibration._apply_point_by_point_calibration", R + ":ManipulateReliabilityTable.process"], trials=40,
          budget=150)
def calibrated_sites(c):
    """calibration site by site uses at each site the tables of that site, and gives the forecast's own layout back"""
    np = c.np
    D, A = c.iris.coords.DimCoord, c.iris.coords.AuxCoord
    T, ns = [273, 275], 2
    f = c.array("f", (2, ns), dtype="float32", lo=0, hi=1)
    sites = [dimcoord(c, "spot_index", [0, 1], "1", dtype="int32")]
    lat, lon = np.array([50, 60], dtype=np.float32), np.array([0, 5], dtype=np.float32)

    def aux(d):
        return [(A(lat, "latitude", units="degrees"), d), (A(lon, "longitude", units="degrees"), d),
                (A(np.array(["03001", "03002"]), long_name="wmo_id", units="1"), d)]
    fc = cube(c, f, "probability_of_air_temperature_above_threshold", "1", [threshold_coord(c, T)] + sites, aux(1))
    tabs, curves = c.iris.cube.CubeList([]), {}
    for k in range(2):
        for s in range(ns):
            p, o = _curve(c, 2, "t%ds%d" % (k, s))
            curves[k, s] = (p, o)
            t = _table(c, np.array([[v * 300 for v in o], [v * 300 for v in p], [300] * 2], dtype=np.float32), 2, threshold=T[k])
            t.add_aux_coord(A(lat[s:s + 1], "latitude", units="degrees"))
            t.add_aux_coord(A(lon[s:s + 1], "longitude", units="degrees"))
            tabs.append(t)
    r = c.mod(R).ApplyReliabilityCalibration(point_by_point=True).process(fc, tabs)
    c.check("shape", c.same_shape(r.data, (2, ns)))
    c.check("layout", [q.name() for q in r.coords(dim_coords=True)] == ["air_temperature", "spot_index"] and
            [str(v) for v in r.coord("wmo_id").points] == ["03001", "03002"])
    for s in range(ns):
        w = [_calibrated(c, c.at(f, k, s), *curves[k, s]) for k in range(2)]
        hi, lo = c.ite(w[0] > w[1], w[0], w[1]), c.ite(w[0] > w[1], w[1], w[0])
        c.check("higher first", c.near(c.at(r.data, 0, s), hi, 1e-4))
        c.check("lower next", c.near(c.at(r.data, 1, s), lo, 1e-4))
