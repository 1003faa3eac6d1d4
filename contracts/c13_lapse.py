"""C13: lapse rates and their application."""
from vc import contract
from contracts._cubes import cube, dimcoord, field, realization, time_coords
from contracts._spots import METHODS, neighbours, sites

LR = "improver.lapse_rate"
SP = "improver.spotdata.apply_lapse_rate"
SH = "improver.spotdata.height_adjustment"
ELR = -0.0065
DALR = -0.0098


def _moved(c, t, lr, d, lim=50):
    """gradient times the height difference within the limit, and the environmental lapse rate times what lies beyond it"""
    near = c.min(c.max(d, -lim), lim)
    return t + lr * near + ELR * (d - near)


@contract("C13", LR + ":compute_lapse_rate_adjustment", trials=200)
def adjustment(c):
    """the lapse rate applies within the height difference limit and the environmental lapse rate beyond it"""
    ny, nx = c.dim("ny"), c.dim("nx")
    lead = c.flag("leading dimension")
    lim = c.choice("limit", [None, 50, 10])
    lr = c.array("lr", (2, ny, nx) if lead else (ny, nx), dtype="float32", lo=-0.125, hi=0.125)
    d = c.array("d", (ny, nx), dtype="float32", lo=-4096, hi=4096, often=[50.0, -50.0, 0.0, 49.0, -51.0])
    d0 = c.snap(d)
    kw = {} if lim is None else {"max_orog_diff_limit": lim}
    r = c.fn(LR + ":compute_lapse_rate_adjustment")(lr, d, **kw)
    c.check("shape", c.same_shape(r, lr))
    i, j = c.index("point", (ny, nx))
    for k in range(2 if lead else 1):
        q = (k, i, j) if lead else (i, j)
        c.check("value", c.near(c.at(r, *q), _moved(c, 0, c.at(lr, *q), c.at(d0, i, j), lim or 50), 1e-3))
    c.check("height difference kept", c.eq(c.at(d, i, j), c.at(d0, i, j)))


@contract("C13", LR + ":ApplyGriddedLapseRate.process", trials=80)
def apply_gridded(c):
    """temperatures move by the adjustment for the destination minus the source orography, realization by realization"""
    ny, nx = c.dim("ny"), c.dim("nx")
    m = c.choice("members", [0, 2])
    units = c.choice("units", ["K", "celsius"])
    shape = (m, ny, nx) if m else (ny, nx)
    lead = [realization(c, m)] if m else []
    t = c.array("t", shape, dtype="float32", lo=-50, hi=50)
    lr = c.array("lr", shape, dtype="float32", lo=-0.125, hi=0.125)
    z0 = c.array("source", (ny, nx), dtype="float32", lo=-100, hi=4096)
    z1 = c.array("destination", (ny, nx), dtype="float32", lo=-100, hi=4096)
    off = 273.15 if units == "celsius" else 0
    tc = field(c, t.copy(), "air_temperature", units, lead)
    r = c.mod(LR).ApplyGriddedLapseRate()(
        tc, field(c, lr.copy(), "air_temperature_lapse_rate", "K m-1", lead),
        field(c, z0.copy(), "surface_altitude", "m", time=False), field(c, z1.copy(), "surface_altitude", "m", time=False))
    c.check("shape", c.same_shape(r.data, t))
    c.check("units", str(r.units) == "K")
    i, j = c.index("point", (ny, nx))
    d = c.at(z1, i, j) - c.at(z0, i, j)
    for k in range(m or 1):
        q = (k, i, j) if m else (i, j)
        c.check("value", c.near(c.at(r.data, *q), _moved(c, c.at(t, *q) + off, c.at(lr, *q), d), 1e-2))
        c.check("input kept", c.eq(c.at(tc.data, *q), c.at(t, *q)))


@contract("C13", LR + ":ApplyGriddedLapseRate.process", trials=20)
def apply_gridded_refused(c):
    """orographies on another grid are refused"""
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    which = c.choice("which", [0, 1])
    t = c.array("t", (ny, nx), dtype="float32", lo=-50, hi=50)
    z = c.array("z", (ny, nx + 1), dtype="float32", lo=-50, hi=50)
    zz = c.array("zz", (ny, nx), dtype="float32", lo=-50, hi=50)
    zs = [field(c, (z if k == which else zz).copy(), "surface_altitude", "m", time=False) for k in range(2)]
    c.check("refused", c.raises(ValueError, lambda: c.mod(LR).ApplyGriddedLapseRate()(
        field(c, t.copy(), "air_temperature", "K"), field(c, zz.copy(), "air_temperature_lapse_rate", "K m-1"), *zs))[0])


@contract("C13", "improver.utilities.mathematical_operations:fast_linear_fit", trials=200)
def linear_fit(c):
    """gradient and intercept are those of the least squares line through the present points"""
    there = c.choice("present", [(0, 1), (0, 1, 2), (1, 2, 3), (0, 2)])
    n = c.choice("points", [4, 3])
    c.assume(max(there) < n)
    nan = len(there) < n
    k = c.dim("k")
    x0 = c.array("x", (k, n), dtype="float64", lo=-100, hi=100)
    y0 = c.array("y", (k, n), dtype="float64", lo=-100, hi=100)
    gone = c.np.array([a not in there for a in range(n)])
    x, y = (c.np.where(gone, c.np.nan, v) for v in (x0, y0)) if nan else (x0.copy(), y0.copy())
    g, b = c.fn("improver.utilities.mathematical_operations:fast_linear_fit")(x, y, axis=-1, with_nan=nan)
    i = c.index("row", (k,))[0]
    xs, ys = [c.at(x0, i, a) for a in there], [c.at(y0, i, a) for a in there]
    mx, my = sum(xs) / len(xs), sum(ys) / len(ys)
    var = sum((u - mx) * (u - mx) for u in xs)
    cov = sum((u - mx) * (v - my) for u, v in zip(xs, ys))
    c.assume(var >= 1e-2)
    gi, bi = c.at(g, i), c.at(b, i)
    c.check("gradient", c.near(gi * var, cov, 1e-6 * (1 + c.abs(cov))))
    c.check("through the mean", c.near(bi + gi * mx, my, 1e-6 * (1 + c.abs(gi))))


def _window(c, t, z, land, i, j, ny, nx, hmax):
    """(present, height, temperature) of the cells that count at i, j"""
    out = []
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            y, x = i + a, j + b
            c.use_index(y, x)
            inside = c.and_(y >= 0, y < ny, x >= 0, x < nx)
            if not c.symbolic and not inside:
                out.append((False, 0.0, 0.0))
                continue
            d = c.at(z, y, x) - c.at(z, i, j)
            p = c.and_(inside, c.at(land, y, x), d <= hmax, d >= -hmax)
            out.append((p, c.ite(p, c.at(z, y, x), 0), c.ite(p, c.at(t, y, x), 0)))
    return out


def _same(c, w, k):
    """all the present values are the same"""
    return c.and_(*[c.implies(c.and_(a[0], b[0]), a[k] == b[k]) for a in w for b in w if a is not b])


def _differ(c, w, k, d):
    return c.or_(*[c.and_(a[0], b[0], a[k] - b[k] >= d) for a in w for b in w if a is not b])


def _slope(c, w):
    if c.symbolic:
        return c.opaque("slope", *[v for p, z, t in w for v in (c.ite(p, 1, 0), z, t)])
    zs, ts = [x[1] for x in w if x[0]], [x[2] for x in w if x[0]]
    mz, mt = sum(zs) / len(zs), sum(ts) / len(ts)
    var = sum((a - mz) ** 2 for a in zs)
    return sum((a - mz) * (b - mt) for a, b in zip(zs, ts)) / var if var else 0.0


def _rate(c, v, t, z, land, i, j, ny, nx, hmax, limited=True):
    w = _window(c, t, z, land, i, j, ny, nx, hmax)
    flat = c.or_(c.not_(c.at(land, i, j)), _same(c, w, 1), _same(c, w, 2))
    rough = c.and_(c.at(land, i, j), _differ(c, w, 1, 2.0), _differ(c, w, 2, 0.01))
    lim = lambda x: c.max(c.min(x, -3 * DALR), DALR)
    if not limited:           # inside the loop, before or after the limits are applied
        return c.and_(c.implies(flat, c.near(v, DALR, 1e-5)), c.implies(rough, c.or_(
            c.near(v, _slope(c, w), 1e-4), c.near(v, c.max(c.min(_slope(c, w), -3 * DALR), DALR), 1e-4))))
    if not c.symbolic and not rough:
        return c.implies(flat, c.near(v, DALR, 1e-5))
    return c.and_(c.implies(flat, c.near(v, DALR, 1e-5)), c.implies(rough, c.near(v, lim(_slope(c, w)), 1e-4)))


@contract("C13", LR + ":LapseRate._generate_lapse_rate_array", trials=150, budget=200)
def lapse_rate_array(c):
    """over land, the least squares slope of temperature on height over the land points of the window whose height is close to
    the centre's, limited to the configured range; elsewhere and where no slope exists, the dry adiabatic rate"""
    ny, nx = c.dim("ny"), c.dim("nx")
    hmax = 35
    t = c.array("t", (ny, nx), dtype="float32", lo=250, hi=300)
    z = c.array("z", (ny, nx), dtype="float32", lo=0, hi=64)
    land = c.array("land", (ny, nx), dtype=bool)
    c.std_by_range()

    def fit(x, y, axis=None, gradient_only=False, with_nan=False):
        # contract of the fit (see linear_fit): a function of the values that are present in both
        X, Y = c.snap(x), c.snap(y)

        def g(j):
            a = []
            for u in range(3):
                for v in range(3):
                    xv, yv = c.at(X, j, u, v), c.at(Y, j, u, v)
                    c.check("fitted over the same points", c.iff(c.isnan(xv), c.isnan(yv)))
                    gone = c.isnan(xv)
                    a += [c.ite(gone, 0, 1), c.ite(gone, 0, c.finite_part(xv)), c.ite(gone, 0, c.finite_part(yv))]
            return c.opaque("slope", *a)
        return c.from_fn((nx,), g, "float64")
    c.cut("improver.utilities.mathematical_operations:fast_linear_fit", fit)

    def inv(st):
        if not st.modified:
            return []
        cur = st.modified[0]
        return [("rates", c.forall((ny, nx), lambda i, j: c.implies(i < st.k, _rate(
            c, c.at(cur, i, j), t, z, land, i, j, ny, nx, hmax, False))))]
    c.loop(LR + ":*", inv)
    p = c.mod(LR).LapseRate(max_height_diff=hmax, nbhood_radius=1)
    r = p._generate_lapse_rate_array(t.copy(), z.copy(), land)
    i, j = c.index("point", (ny, nx))
    v = c.at(r, i, j)
    c.check("bounded", c.and_(v >= DALR - 1e-6, v <= -3 * DALR + 1e-6))
    c.check("rate", _rate(c, v, t, z, land, i, j, ny, nx, hmax))


@contract("C13", LR + ":LapseRate.process", trials=60, budget=60)
def lapse_rate_process(c):
    """each realization's rates are found from its own temperatures in kelvin, the orography in metres and the land mask, and
    the inputs are left alone"""
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    m = c.choice("members", [0, 2])
    last = c.flag("realization last")
    units = c.choice("units", ["K", "celsius"])
    shape = ((ny, nx, m) if last else (m, ny, nx)) if m else (ny, nx)
    t = c.array("t", shape, dtype="float32", lo=0, hi=50)
    z = c.array("z", (ny, nx), dtype="float32", lo=0, hi=64)
    land = c.array("land", (ny, nx), dtype="int8", cell=lambda v, *q: c.or_(v == 0, v == 1), often=[0, 1], lo=0, hi=1)
    off = 273.15 if units == "celsius" else 0
    calls = []
    if c.symbolic:
        def stand_in(self, td, od, ld):
            T, Z, L = c.snap(td), c.snap(od), c.snap(ld)
            calls.append(1)
            return c.from_fn((ny, nx), lambda i, j: c.opaque("rate", c.at(T, i, j), c.ite(c.isnan(c.at(Z, i, j)), -1, c.finite_part(
                c.at(Z, i, j))), c.ite(c.at(L, i, j) != 0, 1, 0)), "float32")
        c.cut(LR + ":LapseRate._generate_lapse_rate_array", stand_in)
    tc = field(c, (c.np.moveaxis(t, 2, 0) if m and last else t).copy(), "air_temperature", units, [realization(c, m)] if m else [])
    if m and last:
        tc.transpose([1, 2, 0])
    zc = field(c, z.copy(), "surface_altitude", "m", time=False)
    lc = field(c, land.copy(), "land_binary_mask", "1", time=False)
    p = c.mod(LR).LapseRate(nbhood_radius=1)
    r = p.process(tc, zc, lc)
    c.check("metadata", r.name() == "air_temperature_lapse_rate" and str(r.units) == "K m-1"
            and [d.name() for d in r.coords(dim_coords=True)] == [d.name() for d in tc.coords(dim_coords=True)])
    i, j = c.index("point", (ny, nx))
    at = lambda a, k: c.at(a, *(((i, j, k) if last else (k, i, j)) if m else (i, j)))
    c.check("units kept", str(tc.units) == units)
    for k in range(m or 1):
        if c.symbolic:
            L = c.at(land, i, j)
            c.check("rate", c.eq(at(r.data, k), c.opaque("rate", at(t, k) + off, c.ite(L != 0, c.at(z, i, j), -1), L)))
        else:
            tt = (t[..., k] if last else t[k]) if m else t
            one = p._generate_lapse_rate_array((tt.astype("float64") + off).astype("float32"), c.np.where(land, z, c.np.nan), land)
            c.check("rate", c.near(at(r.data, k), c.at(one, i, j), 2e-3))
        c.check("input kept", c.eq(at(tc.data, k), at(t, k)))


@contract("C13", [SP + ":SpotLapseRateAdjust.process", SP + ":extract_vertical_displacements"], trials=80)
def spot_adjust(c):
    """site temperatures move by the adjustment for that site's vertical displacement under the chosen neighbour method, with a
    fixed lapse rate or that of the grid point the neighbour entry names"""
    n = c.dim("sites")
    ny, nx = c.dim("ny"), c.dim("nx")
    m = c.choice("percentiles", [0, 2])
    fixed = c.flag("fixed lapse rate")
    which = c.choice("method", METHODS)
    t = c.array("t", (m, n) if m else (n,), dtype="float32", lo=220, hi=320)
    xi = c.array("xi", (2, n), dtype="int32", lo=0, cell=lambda v, *q: v < nx)
    yi = c.array("yi", (2, n), dtype="int32", lo=0, cell=lambda v, *q: v < ny)
    dz = c.array("dz", (2, n), dtype="float32", lo=-4096, hi=4096, often=[50.0, -50.0, 0.0])
    lr = c.array("lr", (ny, nx), dtype="float32", lo=-0.125, hi=0.125)
    h = c.iris.coords.AuxCoord(c.np.array([1.5], dtype="float32"), "height", units="m")
    lead = [dimcoord(c, "percentile", [20.0, 60.0], "%")] if m else []
    tc = sites(c, t.copy(), "air_temperature", "K", lead, [(h, None)])
    nb = neighbours(c, xi, yi, dz)
    if fixed:
        r = c.mod(SP).SpotLapseRateAdjust(neighbour_selection_method=which, fixed_lapse_rate=-0.0078125)(tc, nb)
    else:
        g = field(c, lr.copy(), "air_temperature_lapse_rate", "K m-1", aux=[(h, None)], attributes={"model_grid_hash": "h"})
        r = c.mod(SP).SpotLapseRateAdjust(neighbour_selection_method=which)(tc, nb, g)
    c.check("shape", c.same_shape(r.data, t))
    k = c.index("site", (n,))[0]
    a = METHODS.index(which)
    y, x = c.at(yi, a, k), c.at(xi, a, k)
    if not c.symbolic:
        y, x = int(y), int(x)
    rate = -0.0078125 if fixed else c.at(lr, y, x)
    for q in range(m or 1):
        s = (q, k) if m else (k,)
        c.check("value", c.near(c.at(r.data, *s), _moved(c, c.at(t, *s), rate, c.at(dz, a, k)), 1e-3))
        c.check("input kept", c.eq(c.at(tc.data, *s), c.at(t, *s)))


@contract("C13", SP + ":SpotLapseRateAdjust._check_inputs", trials=20)
def spot_adjust_refused(c):
    """probabilities, other diagnostics, lapse rates of another height or grid, and two or no sources of lapse rate are refused"""
    n = c.dim("sites")
    t = c.array("t", (n,), dtype="float32", lo=220, hi=320)
    z = c.array("z", (2, n), dtype="int32", lo=0, hi=2)
    lr = c.array("lr", (3, 4), dtype="float32", lo=-0.125, hi=0.125)
    H = lambda v: c.iris.coords.AuxCoord(c.np.array([v], dtype="float32"), "height", units="m")
    S = c.mod(SP).SpotLapseRateAdjust
    E = c.mod("iris.exceptions").CoordinateNotFoundError if not c.symbolic else c.iris.exceptions.CoordinateNotFoundError
    tc = lambda name="air_temperature": sites(c, t.copy(), name, "K", [], [(H(1.5), None)])
    nb = lambda: neighbours(c, z, z, z)
    g = lambda h=1.5, name="air_temperature_lapse_rate", grid="h": field(
        c, lr.copy(), name, "K m-1", aux=[(H(h), None)] if h else [], attributes={"model_grid_hash": grid})
    bad = lambda f, e=ValueError: c.raises(e, f)[0]
    c.check("no lapse rate", bad(lambda: S()(tc(), nb())))
    c.check("two lapse rates", bad(lambda: S(fixed_lapse_rate=-0.01)(tc(), nb(), g())))
    c.check("another diagnostic", bad(lambda: S()(tc("wind_speed"), nb(), g())))
    c.check("another height", bad(lambda: S()(tc(), nb(), g(10.0))))
    c.check("no height", bad(lambda: S()(tc(), nb(), g(None)), E))
    c.check("not a lapse rate", bad(lambda: S()(tc(), nb(), g(name="air_temperature"))))
    c.check("another grid", bad(lambda: S()(tc(), nb(), g(grid="q"))))


@contract("C13", SH + ":SpotHeightAdjustment.process", trials=80)
def height_adjustment(c):
    """heights at sites move by that site's vertical displacement in metres, in whatever units they are"""
    n = c.dim("sites")
    m = c.choice("realizations", [0, 2])
    which = c.choice("method", METHODS)
    units = c.choice("units", ["m", "km"])
    t = c.array("t", (m, n) if m else (n,), dtype="float32", lo=0, hi=64)
    z = c.array("i", (2, n), dtype="int32", lo=0, hi=2)
    dz = c.array("dz", (2, n), dtype="float32", lo=-4096, hi=4096)
    tc = sites(c, t.copy(), "cloud_base_height", units, [realization(c, m)] if m else [])
    r = c.mod(SH).SpotHeightAdjustment(neighbour_selection_method=which)(tc, neighbours(c, z, z, dz))
    c.check("units", str(r.units) == units)
    k = c.index("site", (n,))[0]
    f = 1000 if units == "km" else 1
    for q in range(m or 1):
        s = (q, k) if m else (k,)
        c.check("value", c.near(c.at(r.data, *s) * f, c.at(t, *s) * f + c.at(dz, METHODS.index(which), k), 2e-2))


@contract("C13", SH + ":SpotHeightAdjustment.adjust_prob_cube", trials=60)
def height_probabilities(c):
    """probabilities of heights are read, site by site, off the straight lines between thresholds at the threshold plus the
    site's vertical displacement; beyond the thresholds, the largest (displaced up) or smallest (down) probability holds"""
    n, th, first = c.choice("sites, thresholds, sites first", [(2, [0.0, 64.0, 256.0], False), (2, [128.0, 1024.0], True),
                                                               (3, [128.0, 1024.0], False)])
    m = len(th)
    p = c.array("p", (n, m) if first else (m, n), dtype="float32", lo=0, hi=1)
    z = c.array("i", (2, n), dtype="int32", lo=0, hi=2)
    dz = c.array("dz", (2, n), dtype="float32", lo=-2048, hi=2048, often=[0.0, 64.0, -32.0])
    co = c.iris.coords.DimCoord(c.np.array(th, dtype=c.np.float32), long_name="cloud_base_height", units="m", var_name="threshold")
    co.attributes["spp__relative_to_threshold"] = "greater_than"
    tc = sites(c, (p.T if first else p).copy(), "probability_of_cloud_base_height_above_threshold", "1", [co])
    if first:
        tc.transpose([1, 0])
    r = c.mod(SH).SpotHeightAdjustment()(tc, neighbours(c, z, z, dz))
    c.check("shape", c.same_shape(r.data, p))
    for k in range(n):
        P = [c.at(p, *((k, q) if first else (q, k))) for q in range(m)]
        d = c.at(dz, 0, k)
        big = small = P[0]
        for x in P[1:]:
            big, small = c.max(big, x), c.min(small, x)
        for q in range(m):
            v = c.at(r.data, *((k, q) if first else (q, k)))
            x = th[q] + d
            for a in range(m - 1):
                f = (x - th[a]) / (th[a + 1] - th[a])
                c.check("line", c.or_(x < th[a], x > th[a + 1], c.near(v, P[a] * (1 - f) + P[a + 1] * f, 1e-4)))
            off = c.or_(x < th[0] - 1e-3, x > th[-1] + 1e-3)
            c.check("beyond", c.implies(off, c.near(v, c.ite(d > 0, big, small), 1e-5)))
