from vc import contract
from _cubes import field, realization

MOD = "improver.nbhood.nbhood"
NT = "improver.utilities.neighbourhood_tools"


def window_sum(c, get, i, j, ny, nx, hy, hx, outside=0.0):
    """sum over the (2hy+1) x (2hx+1) window centred on (i, j), cells outside the grid counting `outside`"""
    s = 0.0
    for a in range(-hy, hy + 1):
        for b in range(-hx, hx + 1):
            y, x = i + a, j + b
            inside = c.and_(y >= 0, y < ny, x >= 0, x < nx)
            if c.symbolic:
                s = s + c.ite(inside, get(y, x), outside)
            elif inside:
                s = s + get(y, x)
            else:
                s = s + outside
    return s


@contract("C02", NT + ":boxsum", budget=120, trials=200)
def boxsum_window(c):
    """each box sum is the sum of the window, the padding value counting outside the grid"""
    h = c.choice("h", [1, 2, 0])
    ny, nx = c.dim("ny"), c.dim("nx")
    pv = c.choice("pv", [0, 1])
    d = c.array("d", (ny, nx), "float64", lo=-100, hi=100)
    r = c.fn(NT + ":boxsum")(d, 2 * h + 1, mode="constant", constant_values=pv)
    c.check("shape", c.same_shape(r, d))
    c.check_all("window sum", (ny, nx), lambda i, j: c.eq(
        c.at(r, i, j), window_sum(c, lambda y, x: c.at(d, y, x), i, j, ny, nx, h, h, pv), tol=1e-4))


def near(c, i, j, hy, hx):
    """hint: facts assumed of all points are needed at the points of the window"""
    for a in range(-hy, hy + 1):
        for b in range(-hx, hx + 1):
            c.use_index(i + a, j + b)


def _plugin(c, method, h, **k):
    p = c.mod(MOD).NeighbourhoodProcessing(method, 2000.0, **k)
    p.nb_size = 2 * h + 1
    return p


def _trimming(h):
    @contract("C02", [MOD + ":NeighbourhoodProcessing._do_nbhood_sum", NT + ":boxsum", NT + ":pad_boxsum"], budget=300,
              trials=300, suffix="_%d" % h)
    def nbhood_sum_trimming(c):
        """the window sum is exact whatever box of zeros or ones is trimmed off first, zero counting outside the grid"""
        ones = c.flag("ones")
        ny, nx = c.dim("ny"), c.dim("nx")
        d = c.array("d", (ny, nx), "float64", lo=0, hi=1, often=[0.0, 1.0, 0.25])
        d0 = c.snap(d)
        c.name_bounds()
        p = _plugin(c, "square", h)
        me = None
        if ones:
            me = c.from_fn((ny, nx), lambda i, j: window_sum(c, lambda y, x: 1.0, i, j, ny, nx, h, h), "float64")
        r = p._do_nbhood_sum(d, max_extreme=me)
        c.check("shape", c.same_shape(r, d0))

        def post(i, j):
            near(c, i, j, h, h)
            return c.eq(c.split_at(r, i, j), window_sum(c, lambda y, x: c.at(d0, y, x), i, j, ny, nx, h, h), tol=1e-4)
        c.check_all("window sum", (ny, nx), post)
    return nbhood_sum_trimming


for _h in (0, 1, 2):
    _trimming(_h)


def clamp(c, k, n):
    return c.max(c.min(k, n - 1), 0)


def kernel_sum(c, K, get, i, j, ny, nx, h):
    """kernel-weighted sum about (i, j), the nearest edge value standing for points outside the grid"""
    s = 0.0
    for a in range(-h, h + 1):
        for b in range(-h, h + 1):
            w = float(K[a + h][b + h])
            if w:
                s = s + w * get(clamp(c, i + a, ny), clamp(c, j + b, nx))
    return s


def spec_kernel(h, weighted):
    K = []
    for a in range(-h, h + 1):
        row = []
        for b in range(-h, h + 1):
            q = a * a + b * b
            row.append(max(0.0, (h * h - q) / float(h * h)) if weighted else (1.0 if q <= h * h else 0.0))
        K.append(row)
    return K


@contract("C02", MOD + ":circular_kernel", trials=40)
def circular_kernel_values(c):
    """the kernel is one (or one minus the squared relative distance) inside the circle and zero outside"""
    h = c.choice("h", [1, 2, 3, 4, 5, 6, 7])
    weighted = c.flag("weighted")
    K = c.mod(MOD).circular_kernel(h, weighted)
    S = spec_kernel(h, weighted)
    c.check("size", c.same_shape(K, (2 * h + 1, 2 * h + 1)))
    for a in range(2 * h + 1):
        for b in range(2 * h + 1):
            c.check("kernel value", c.eq(c.at(K, a, b), S[a][b], tol=1e-6))


@contract("C02", MOD + ":NeighbourhoodProcessing._do_nbhood_sum", budget=300, trials=200)
def nbhood_sum_circular(c):
    """circular sums are the kernel-weighted sums whatever box is trimmed off, nearest edge values used off the grid"""
    h = c.choice("h", [1, 2])
    weighted = c.flag("weighted")
    ones = c.flag("ones")
    K = spec_kernel(h, weighted)
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (ny, nx), "float64", lo=0, hi=1, often=[0.0, 1.0, 0.25])
    d0 = c.snap(d)
    c.name_bounds()
    p = _plugin(c, "circular", h, weighted_mode=weighted)
    p.kernel = c.mod(MOD).circular_kernel(h, weighted)
    me = c.from_fn((ny, nx), lambda i, j: kernel_sum(c, K, lambda y, x: 1.0, i, j, ny, nx, h), "float64") if ones else None
    r = p._do_nbhood_sum(d, max_extreme=me)
    c.check("shape", c.same_shape(r, d0))

    def post(i, j):
        for a in range(-h, h + 1):
            for b in range(-h, h + 1):
                c.use_index(clamp(c, i + a, ny), clamp(c, j + b, nx))
        return c.eq(c.split_at(r, i, j), kernel_sum(c, K, lambda y, x: c.at(d0, y, x), i, j, ny, nx, h), tol=1e-4)
    c.check_all("kernel sum", (ny, nx), post)


def _sum_contract(c, method, h, K, calls):
    """callee contract of _do_nbhood_sum (proved above), used in place of its body"""
    def nbhood_sum(self, data, max_extreme=None):
        a = c.snap(data)
        ny, nx = a.shape
        if max_extreme is not None:
            m = calls[0]
            # precondition: max_extreme is the sum of the valid mask, and invalid data have been zeroed
            c.check_all("max_extreme is the sum of valid points", (ny, nx),
                        lambda i, j: c.eq(c.at(max_extreme, i, j), c.at(m, i, j)))
        if method == "square":
            r = c.from_fn((ny, nx), lambda i, j: c.ghost(
                window_sum(c, lambda y, x: c.at(a, y, x), i, j, ny, nx, h, h)), str(a.dtype))
        else:
            r = c.from_fn((ny, nx), lambda i, j: c.ghost(
                kernel_sum(c, K, lambda y, x: c.at(a, y, x), i, j, ny, nx, h)), str(a.dtype))
        calls.append(c.snap(r))
        return r
    return nbhood_sum


def range_lemma(c, tot, valid, d0, lo, hi):
    """lo * n <= s <= hi * n, one window point at a time"""
    cells = []

    class Rec(object):
        """records the weighted terms of the window sum"""
        def __init__(self, items):
            self.items = items

        def __add__(self, o):
            return Rec(self.items + o.items)

        def __radd__(self, o):
            return self

        def __rmul__(self, w):
            return Rec([(k * w, y, x, g) for k, y, x, g in self.items])
    ite = c.ite
    try:
        c.ite = lambda cond, a, b: Rec([(k, y, x, cond) for k, y, x, _ in a.items]) if isinstance(a, Rec) else ite(cond, a, b)
        r = tot(lambda y, x: Rec([(1.0, y, x, True)]))
    finally:
        c.ite = ite
    n, s = 0.0, 0.0
    for w, y, x, g in r.items:
        ok = c.and_(g, valid(y, x))
        n2 = c.ghost(n + c.ite(ok, w, 0.0))
        s2 = c.ghost(s + c.ite(ok, w * c.at(d0, y, x), 0.0))
        c.lemma("range of a partial sum", c.and_(lo * n2 <= s2, s2 <= hi * n2, n2 >= 0))
        n, s = n2, s2
    return n, s


def _neighbourhood(method, h, weighted=False):
    @contract("C02", MOD + ":NeighbourhoodProcessing._calculate_neighbourhood", budget=300, trials=250,
              suffix="_%s%s_%d" % (method, "_weighted" if weighted else "", h))
    def neighbourhood_mean(c):
        """mean (or sum) over the valid points of the window; masks, re-masking and range"""
        own = c.flag("own_mask")
        ext = c.flag("ext_mask")
        sum_only = c.flag("sum_only")
        re_mask = c.flag("re_mask")
        ny, nx = c.dim("ny"), c.dim("nx")
        d = c.array("d", (ny, nx), lo=-10, hi=10, mask=own)
        m = c.array("m", (ny, nx), "int32", values=[0, 1]) if ext else None
        d0 = c.snap(d)
        m0 = c.snap(m) if ext else None
        K = spec_kernel(h, weighted)

        def valid(y, x):
            ok = c.not_(c.masked(d0, y, x))
            return c.and_(ok, c.eq(c.at(m0, y, x), 1)) if ext else ok
        some = c.flag("some")
        if some and c.symbolic:
            # one valid point exists, so that minimum and maximum are defined
            c.assume(valid(0, 0))
        elif not c.symbolic:
            c.assume(c.np.any([[valid(y, x) for x in range(nx)] for y in range(ny)]))
        else:
            return
        lo, hi = (c.np.nanmin(d), c.np.nanmax(d)) if not sum_only else (None, None)
        p = _plugin(c, method, h, sum_only=sum_only, re_mask=re_mask, weighted_mode=weighted)
        p.kernel = c.mod(MOD).circular_kernel(h, weighted)
        calls = []
        c.cut(MOD + ":NeighbourhoodProcessing._do_nbhood_sum", _sum_contract(c, method, h, K, calls))
        r = p._calculate_neighbourhood(d, m)
        c.check("shape", c.same_shape(r, (ny, nx)))
        c.check("float32", c.dtype_is(r, "float32"))

        def post(i, j):
            if method == "square":
                near(c, i, j, h, h)

                def tot(g):
                    return window_sum(c, g, i, j, ny, nx, h, h)
            else:
                for a in range(-h, h + 1):
                    for b in range(-h, h + 1):
                        c.use_index(clamp(c, i + a, ny), clamp(c, j + b, nx))

                def tot(g):
                    return kernel_sum(c, K, g, i, j, ny, nx, h)
            s = tot(lambda y, x: c.ite(valid(y, x), c.at(d0, y, x), 0.0))
            n = tot(lambda y, x: c.ite(valid(y, x), 1.0, 0.0))
            if c.symbolic and not sum_only:
                n, s = range_lemma(c, tot, valid, d0, lo, hi)
                c.lemma("count", c.eq(c.at(calls[0], i, j), n))
                c.lemma("sum", c.eq(c.at(calls[1], i, j), s))
            if re_mask:
                ok = c.iff(c.masked(r, i, j), c.not_(valid(i, j)))
                read = valid(i, j)
            else:
                ok = c.not_(c.masked(r, i, j))
                read = True
            if sum_only:
                return c.and_(ok, c.implies(read, c.eq(c.at(r, i, j), s, tol=1e-3)))
            if not c.symbolic:
                if not read or not c.symbolic and 0 < abs(n) < 1e-5:
                    return ok
                if n == 0:
                    return ok and c.isnan(c.at(r, i, j))
                return ok and c.eq(c.at(r, i, j), s / n, tol=1e-3)
            v = c.at(r, i, j)
            return c.and_(ok, c.implies(c.and_(read, n > 0), c.and_(c.not_(c.isnan(v)), c.eq(v * n, s))),
                          c.implies(c.and_(read, c.eq(n, 0)), c.isnan(v)))
        c.check_all("mean of the valid points", (ny, nx), post)
    return neighbourhood_mean


_neighbourhood("square", 1)
_neighbourhood("circular", 1)
_neighbourhood("circular", 2, True)


def _brute(c, d, valid, i, j, h, sum_only):
    s, n = 0.0, 0
    ny, nx = len(d), len(d[0])
    for y in range(max(0, i - h), min(ny, i + h + 1)):
        for x in range(max(0, j - h), min(nx, j + h + 1)):
            if valid(y, x):
                s += float(d[y][x])
                n += 1
    return s if sum_only else (s / n if n else None)


@contract("C02", [MOD + ":NeighbourhoodProcessing.process", "improver.utilities.spatial:distance_to_number_of_grid_cells",
                  MOD + ":MetaNeighbourhood.process"], budget=120, trials=120)
def nbhood_process(c):
    """every two-dimensional slice is processed separately, with the window of whole cells inside the radius and the mask"""
    ny, nx = 5, 6
    lead = c.flag("lead")
    ext = c.flag("ext")
    sum_only = c.flag("sum_only")
    meta = c.flag("meta")
    radius = c.choice("radius", [2000.0, 4100.0, 5999.0])
    h = int(radius / 2000.0)
    shape = (2, ny, nx) if lead else (ny, nx)
    d = c.array("d", shape, lo=-10, hi=10)
    m = c.array("m", (ny, nx), "int32", values=[0, 1]) if ext else None
    d0 = c.snap(d)
    cube = field(c, d, "air_temperature", "K", lead=[realization(c, 2)] if lead else [])
    mcube = field(c, m, "land_binary_mask", "1", time=False) if ext else None
    seen = []

    def spy(self, data, mask=None):
        # contract of _calculate_neighbourhood: an (otherwise arbitrary) function of the slice, mask and window
        a = c.snap(data)
        seen.append((self.nb_size, self.neighbourhood_method, self.sum_only, self.re_mask, mask is None))
        k = c.snap(mask) if mask is not None else None
        return c.from_fn((ny, nx), lambda i, j: c.opaque("nb", c.at(a, i, j), c.at(k, i, j) if k is not None else 1))
    c.cut(MOD + ":NeighbourhoodProcessing._calculate_neighbourhood", spy)
    if meta:
        r = c.mod(MOD).MetaNeighbourhood("probabilities", [radius], area_sum=sum_only)(cube, mask=mcube)
    else:
        r = c.mod(MOD).NeighbourhoodProcessing("square", radius, sum_only=sum_only)(cube, mask_cube=mcube)
    c.check("shape", c.same_shape(r.data, shape))
    for s in seen:
        c.check("window", s[0] == 2 * h + 1)
        c.check("settings", s[1:] == ("square", sum_only, True, not ext))
    get = (lambda a, k, i, j: c.at(a, k, i, j)) if lead else (lambda a, k, i, j: c.at(a, i, j))
    for k in range(2 if lead else 1):
        def post(i, j):
            if c.symbolic:
                return c.eq(get(r.data, k, i, j), c.opaque("nb", get(d0, k, i, j), c.at(m, i, j) if ext else 1))
            dd = [[get(d0, k, y, x) for x in range(nx)] for y in range(ny)]
            ok = (lambda y, x: bool(c.at(m, y, x))) if ext else (lambda y, x: True)
            if not ok(i, j):
                return bool(c.masked(r.data, *((k, i, j) if lead else (i, j))))
            return c.eq(get(r.data, k, i, j), _brute(c, dd, ok, i, j, h, sum_only), tol=1e-3)
        c.check_all("slice result", (ny, nx), post)


@contract("C02", [MOD + ":BaseNeighbourhoodProcessing._find_radii", MOD + ":BaseNeighbourhoodProcessing.process",
                  "improver.nbhood:radius_by_lead_time"], trials=200)
def radius_follows_lead_time(c):
    """the radius is the linear interpolation of the radii in lead time, held constant beyond the ends"""
    r0, r1, r2 = c.real("r0", 1, 1e5), c.real("r1", 1, 1e5), c.real("r2", 1, 1e5)
    hours = c.choice("hours", [1, 2, 3, 5, 8, 10])
    leads = [2, 5, 8]
    rr, ll = c.mod("improver.nbhood").radius_by_lead_time([r0, r1, r2], [str(x) for x in leads])
    c.check("lead times", list(ll) == leads)
    d = c.array("d", (4, 4), lo=-10, hi=10)
    from _cubes import cube, time_coords, yx
    y, x = yx(c, 4, 4)
    cu = cube(c, d, "air_temperature", "K", [y, x], time_coords(c, frt=1510286400 - 3600 * hours))
    p = c.mod(MOD).BaseNeighbourhoodProcessing(rr, lead_times=ll)
    p.process(cu)
    R = [r0, r1, r2]
    if hours <= 2:
        want = r0
    elif hours >= 8:
        want = r2
    else:
        k = 0 if hours <= 5 else 1
        want = R[k] + (R[k + 1] - R[k]) * (hours - leads[k]) / 3
    got = p.radius
    got = got if not hasattr(got, "shape") or got.shape == () else c.at(got, 0)
    c.check("interpolated radius", c.eq(got, want, tol=1e-3))


@contract("C02", "improver.nbhood:radius_by_lead_time", trials=60)
def radius_single(c):
    """one radius applies at every lead time; several without lead times, or mismatched numbers, are refused"""
    r0 = c.real("r0", 1, 1e5)
    f = c.mod("improver.nbhood").radius_by_lead_time
    a, b = f([r0], None)
    c.check("radius", c.eq(a, r0))
    c.check("no lead times", b is None)
    c.check("refused", c.raises(ValueError, lambda: f([r0, r0], None))[0])
    c.check("mismatch refused", c.raises(ValueError, lambda: f([r0, r0], [1])[0])[0])


@contract("C02", MOD + ":BaseNeighbourhoodProcessing.process", trials=60)
def nan_refused(c):
    """fields holding not-a-number are refused"""
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    d = c.array("d", (ny, nx), lo=-10, hi=10)
    i, j = c.index("k", (ny, nx))
    bad = c.flag("bad")
    if bad:
        d[i, j] = c.np.nan
    cu = field(c, d, "air_temperature", "K")
    p = c.mod(MOD).BaseNeighbourhoodProcessing(2000.0)
    raised, _ = c.raises(ValueError, lambda: p.process(cu))
    c.check("refused exactly when a value is missing", raised == bad)


@contract("C02", NT + ":rolling_window", trials=100)
def rolling_windows(c):
    """window (i, j) of the rolling view holds the cells i..i+h-1, j..j+w-1"""
    h = c.choice("h", [1, 2, 3])
    w = c.choice("w", [1, 3])
    ny, nx = c.dim("ny"), c.dim("nx")
    c.assume(ny >= h)
    c.assume(nx >= w)
    lead = c.flag("lead")
    d = c.array("d", (2, ny, nx) if lead else (ny, nx), lo=-10, hi=10)
    r = c.fn(NT + ":rolling_window")(d, (h, w))
    shp = (ny - h + 1, nx - w + 1, h, w)
    c.check("shape", c.same_shape(r, ((2,) + shp) if lead else shp))
    if lead:
        c.check_all("cell", (2,) + shp, lambda k, i, j, a, b: c.eq(c.at(r, k, i, j, a, b), c.at(d, k, i + a, j + b)))
    else:
        c.check_all("cell", shp, lambda i, j, a, b: c.eq(c.at(r, i, j, a, b), c.at(d, i + a, j + b)))


@contract("C02", NT + ":pad_and_roll", trials=100)
def pad_and_roll_windows(c):
    """with padding, the window of every grid point is centred on it"""
    ny, nx = c.dim("ny"), c.dim("nx")
    h = c.choice("h", [3, 5])
    d = c.array("d", (ny, nx), lo=-10, hi=10)
    r = c.fn(NT + ":pad_and_roll")(d, (h, h), mode="constant", constant_values=7)
    q = h // 2
    c.check("shape", c.same_shape(r, (ny, nx, h, h)))

    def post(i, j, a, b):
        y, x = i + a - q, j + b - q
        inside = c.and_(y >= 0, y < ny, x >= 0, x < nx)
        if not c.symbolic:
            return c.eq(c.at(r, i, j, a, b), c.at(d, y, x) if inside else 7)
        return c.eq(c.at(r, i, j, a, b), c.ite(inside, c.at(d, y, x), 7))
    c.check_all("cell", (ny, nx, h, h), post)


@contract("C02", [MOD + ":GeneratePercentilesFromANeighbourhood.process"], kind="bounded", trials=40)
def neighbourhood_percentiles(c):
    """percentiles of the circular neighbourhood: exact over interior windows, non-decreasing and within the range"""
    ny, nx = c.choice("ny", [5, 6]), c.choice("nx", [5, 7])
    d = c.array("d", (ny, nx), lo=-10, hi=10)
    d0 = c.snap(d)
    cu = field(c, d, "air_temperature", "K")
    P = [10, 50, 80]
    r = c.mod(MOD).GeneratePercentilesFromANeighbourhood(2000.0, percentiles=P)(cu)
    c.check("shape", c.same_shape(r.data, (3, ny, nx)))
    for i in range(ny):
        for j in range(nx):
            v = [c.at(r.data, k, i, j) for k in range(3)]
            c.check("non-decreasing", v[0] <= v[1] + 1e-5 and v[1] <= v[2] + 1e-5)
            if 0 < i < ny - 1 and 0 < j < nx - 1:
                w = sorted(float(c.at(d0, y, x)) for y, x in ((i, j), (i - 1, j), (i + 1, j), (i, j - 1), (i, j + 1)))
                for k in range(3):
                    q = P[k] / 100.0 * 4
                    lo = int(q)
                    want = w[lo] + (w[min(lo + 1, 4)] - w[lo]) * (q - lo)
                    c.check("percentile of the five-point circle", c.eq(v[k], want, tol=1e-3))
