from vc import contract
from _cubes import cube, dimcoord, yx


@contract("C25", "improver.utilities.rescale:rescale")
def rescale_linear(c):
    """rescale maps data_range linearly onto scale_range; clipping confines the result to scale_range"""
    f = c.fn("improver.utilities.rescale:rescale")
    n, m = c.dim("n"), c.dim("m")
    d = c.array("d", (n, m))
    d0, d1 = c.real("d0", -1000, 1000), c.real("d1", -1000, 1000)
    s0, s1 = c.real("s0", -1000, 1000), c.real("s1", -1000, 1000)
    clip = c.flag("clip")
    c.assume(d1 - d0 > 0.001)
    c.assume(c.abs(s1 - s0) > 0.001)
    r = f(d, data_range=(d0, d1), scale_range=(s0, s1), clip=clip)
    c.check("shape kept", c.same_shape(r, d))
    lo, hi = c.min(s0, s1), c.max(s0, s1)

    def post(i, j):
        x = c.at(d, i, j)
        lin = s0 + (x - d0) * (s1 - s0) / (d1 - d0)
        want = c.ite(lin < lo, lo, c.ite(lin > hi, hi, lin)) if clip else lin
        return c.eq(c.at(r, i, j), want, tol=1e-3)
    c.check_all("value", (n, m), post)


R = "improver.utilities.rescale"
M = "improver.utilities.mathematical_operations"


@contract("C25", R + ":rescale", trials=60)
def rescale_defaults(c):
    """without a stated range the least value becomes the bottom of the scale and the greatest its top; ranges of no width are
    refused"""
    f = c.fn(R + ":rescale")
    n = c.dim("n", lo=2)
    d = c.array("d", (n,), dtype="float32", lo=-8, hi=8)
    s0, s1 = c.choice("scale", [(0.0, 1.0), (2.0, -1.0), (3.0, 3.0)])
    why = c.choice("range", ["own", "none"])
    if why == "none" or s0 == s1:
        c.check("no width", c.raises(ValueError, lambda: f(d, data_range=(1.0, 1.0) if why == "none" else (0.0, 1.0),
                                                           scale_range=(s0, s1)))[0])
        return
    i, j = c.index("i", n)[0], c.index("j", n)[0]
    c.assume(c.at(d, j) - c.at(d, i) > 0.01)
    c.assume_all((n,), lambda k: c.and_(c.at(d, k) >= c.at(d, i), c.at(d, k) <= c.at(d, j)))
    default = (s0, s1) == (0.0, 1.0)
    r = f(d) if default else f(d, scale_range=(s0, s1))
    c.check("bottom", c.near(c.at(r, i), s0, 1e-3))
    c.check("top", c.near(c.at(r, j), s1, 1e-3))


@contract("C25", R + ":apply_double_scaling", trials=150)
def double_scaling(c):
    """the limit runs straight from the first to the middle and from the middle to the last pair of values, and stays at the ends
    beyond them; the field given is cut down (or brought up) to it and otherwise kept"""
    f = c.fn(R + ":apply_double_scaling")
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (ny, nx), dtype="float32", lo=-10, hi=20)
    s = c.array("s", (ny, nx), dtype="float32", lo=-10, hi=20)
    x0, x1, x2 = c.choice("from", [(0.0, 4.0, 12.0), (-2.0, -1.0, 1.0)])
    y0, y1, y2 = c.choice("to", [(0.0, 2.0, 10.0), (8.0, 1.0, -3.0), (1.0, 5.0, 2.0)])
    up = c.flag("maximum")
    y, x = yx(c, ny, nx)
    dc, sc = cube(c, d, "air_temperature", "K", [y, x]), cube(c, s, "wind_speed", "m s-1", [y, x])
    i, j = c.index("point", (ny, nx))
    r = f(dc, sc, (x0, x1, x2), (y0, y1, y2), combine_function=c.np.maximum) if up else f(dc, sc, (x0, x1, x2), (y0, y1, y2))
    v = c.at(d, i, j)
    lim = c.ite(v <= x0, y0, c.ite(v < x1, y0 + (v - x0) * (y1 - y0) / (x1 - x0),
                                   c.ite(v < x2, y1 + (v - x1) * (y2 - y1) / (x2 - x1), y2)))
    w = c.at(s, i, j)
    c.check("value", c.near(c.at(r, i, j), (c.max if up else c.min)(w, lim), 1e-3))
    c.check("inputs left alone", c.and_(c.eq(c.at(dc.data, i, j), v), c.eq(c.at(sc.data, i, j), w)))


@contract("C25", "improver.utilities.round:round_close", trials=100)
def rounded(c):
    """a number close to an integer becomes that integer, of the type asked for; one that is not is refused"""
    f = c.fn("improver.utilities.round:round_close")
    n = c.choice("n", [0, 1, 3])
    dt = c.choice("type", ["int64", "int32", None])
    ks = [c.int("k%d" % q, -1000, 1000) for q in range(max(n, 1))]
    off = c.choice("off", [0.0, 1e-9, -1e-9, 0.25, -0.5])
    vals = [k + off for k in ks]
    c.assume(abs(off) < 0.1 or c.and_(*[c.and_(k > -900, k < 900) for k in ks]))
    np = c.np
    a = vals[0] if n == 0 else (np.array(vals, dtype=np.float64))
    go = lambda: f(a) if dt is None else f(a, dtype=getattr(np, dt))
    if abs(off) > 0.1:
        c.check("refused", c.raises(ValueError, go)[0])
        return
    r = go()
    c.check("type", c.dtype_is(np.array(r), dt or "int64"))
    for q in range(max(n, 1)):
        c.check("value", c.eq(r if n == 0 else c.at(r, q), ks[q]))


@contract("C25", "improver.utilities.indexing_operations:choose", trials=150, max_paths=1500)
def chosen(c):
    """each position of the result holds the value, at that position, of the member its index names; indices beyond the members, and
    arrays of different shapes, are refused"""
    f = c.fn("improver.utilities.indexing_operations:choose")
    sh = c.choice("shape", [(2,), (3, 2), (2, 1, 2)])
    n = sh[0]
    a = c.array("a", sh, dtype="float32", lo=-8, hi=8)
    ix = c.array("index", sh, dtype="int64", lo=0, hi=n)
    if c.flag("other shape"):
        b = c.array("b", (n + 1,) + sh[1:], dtype="float32", lo=-8, hi=8)
        c.check("refused", c.raises(ValueError, lambda: f(ix, b))[0])
        return
    import itertools
    cells = list(itertools.product(*[range(k) for k in sh]))
    over = c.or_(*[c.at(ix, *p) >= n for p in cells])
    failed, r = c.raises(IndexError, lambda: f(ix, a))
    c.check("refused", c.iff(failed, over))
    if failed:
        return
    for p in cells:
        want = c.at(a, 0, *p[1:])
        for k in range(1, n):
            want = c.ite(c.eq(c.at(ix, *p), k), c.at(a, k, *p[1:]), want)
        c.check("value", c.eq(c.at(r, *p), want))


@contract("C25", [M + ":Integration.process", M + ":Integration.perform_integration", M + ":Integration.prepare_for_integration",
                  M + ":Integration.ensure_monotonic_increase_in_chosen_direction", M + ":Integration._create_output_cube"],
          trials=150, budget=150)
def integrated(c):
    """the integral up to (or down to) each level is the sum, over the layers between, of layer depth times half the positive value at
    each of its ends; layers outside the stated limits are left out, a limit of nought counting like any other"""
    np = c.np
    up = c.flag("upwards")
    hs = c.choice("levels", [[-1.0, 0.0, 2.0, 5.0], [0.0, 1.0, 4.0, 9.0]])
    falls = c.flag("given downwards")
    start, end = c.choice("limits", [(None, None), (0.0, None), (None, 0.0), (1.0, 4.0), (4.0, 1.0), (50.0, None)])
    ny, nx = c.dim("ny"), c.dim("nx")
    given = hs[::-1] if falls else hs
    lead = c.flag("second axis")
    d = c.array("d", ((ny, 4, nx) if lead else (4, ny, nx)), dtype="float32", lo=-8, hi=8)
    h = dimcoord(c, "height", given, "m")
    y, x = yx(c, ny, nx)
    cu = cube(c, d, "air_temperature", "K", [y, h, x] if lead else [h, y, x])
    i, j = c.index("point", (ny, nx))
    at = lambda q, k: c.at(q, *((i, k, j) if lead else (k, i, j)))
    for k in range(4):
        c.use_index(*((i, k, j) if lead else (k, i, j)))
    layers = list(zip(hs, hs[1:]))
    if not up:
        layers = layers[::-1]
    first, last = (start, end) if up else (end, start)       # lower, upper limit
    keep = [(lo, hi) for lo, hi in layers if (first is None or lo >= first) and (last is None or hi <= last)]
    P = c.mod(M).Integration("height", start_point=start, end_point=end, positive_integration=up)
    if not keep:
        c.check("nothing to integrate", c.raises(ValueError, lambda: P.process(cu))[0])
        return
    r = P.process(cu)
    c.check("name", r.name() == "air_temperature_integral")
    pts = [float(q) for q in r.coord("height").points]
    want = [hi if up else lo for lo, hi in keep]
    c.check("levels", sorted(pts) == sorted(want))
    tot, pos = 0.0, lambda q: c.ite(q > 0, q, 0.0)
    for (lo, hi), p in zip(keep, want):
        tot = tot + (hi - lo) * 0.5 * (pos(at(d, given.index(lo))) + pos(at(d, given.index(hi))))
        k = pts.index(p)
        c.check("integral", c.near(at(r.data, k), tot, 1e-3))
        b = [float(q) for q in r.coord("height").bounds[k]]
        c.check("layer", sorted(b) == [lo, hi])
    c.check("input left alone", c.and_(*[c.eq(at(cu.data, k), at(d, k)) for k in range(4)]))


@contract("C25", M + ":fast_linear_fit", trials=120, budget=120)
def fitted(c):
    """the fitted line is that of least squares: its residuals and their products with x add up to nothing, so points on a line are
    fitted exactly; points missing from one of the two only are refused"""
    np = c.np
    n = c.choice("points", [2, 3])
    m = c.dim("columns")
    xs = c.array("x", (n, m), dtype="float64", lo=-4, hi=4)
    how = c.choice("y", ["any", "line"])
    j = c.index("column", m)[0]
    slope, off = c.real("slope", -2, 2), c.real("offset", -2, 2)
    ys = c.array("y", (n, m), dtype="float64", lo=-4, hi=4)
    if how == "line":
        ys = c.from_fn((n, m), lambda p, q: c.at(xs, p, q) * slope + off, "float64")
    for k in range(n):
        c.use_index(k, j)
    X = [c.at(xs, k, j) for k in range(n)]
    Y = [c.at(ys, k, j) for k in range(n)]
    c.assume(X[0] - X[1] > 0.25)
    keep = c.flag("keepdims")
    only = c.flag("gradient only")
    if c.choice("gaps", [False, True]) and not keep:
        mk = c.array("mask", (n, m), dtype="bool")
        other = c.array("other", (n, m), dtype="bool")
        a, b = c.index("gap", (n, m))
        c.assume(c.iff(c.at(mk, a, b), c.not_(c.at(other, a, b))))
        c.check("refused", c.raises(ValueError, lambda: c.fn(M + ":fast_linear_fit")(
            c.masked_array(xs, mk), c.masked_array(ys, other), axis=0))[0])
        return
    r = c.fn(M + ":fast_linear_fit")(xs, ys, axis=0, keepdims=keep, gradient_only=only)
    g = r if only else r[0]
    ix = (0, j) if keep else (j,)
    G = c.at(g, *ix)
    xm, ym = c.sum_list(X) / n, c.sum_list(Y) / n
    sxx = c.sum_list([(x - xm) * (x - xm) for x in X])
    sxy = c.sum_list([(x - xm) * (y - ym) for x, y in zip(X, Y)])
    c.check("gradient", c.near(G * sxx, sxy, 1e-3))
    if not only:
        c.check("through the mean", c.near(c.at(r[1], *ix), ym - G * xm, 1e-3))
