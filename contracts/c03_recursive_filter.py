from vc import contract
from _cubes import affine, cube, dimcoord, field, yx

MOD = "improver.nbhood.recursive_filter"
RF = MOD + ":RecursiveFilter"


def _setup(c, axis):
    ny, nx = c.dim("ny"), c.dim("nx")
    g = c.array("g", (ny, nx), lo=-50, hi=50)
    if axis == 0:
        s = c.array("s", (ny - 1, nx), lo=0, hi=0.5)
    else:
        s = c.array("s", (ny, nx - 1), lo=0, hi=0.5)
    return ny, nx, g, s


def _sweep(direction):
    @contract("C03", RF + "._recurse_" + direction, budget=120, trials=200, suffix="_" + direction)
    def sweep(c):
        """each point becomes (1 - s) * itself + s * its already filtered neighbour; the first point is unchanged"""
        axis = c.choice("axis", [0, 1])
        ny, nx, g, s = _setup(c, axis)
        g0 = c.snap(g)
        n = ny if axis == 0 else nx
        fwd = direction == "forward"

        def rel(y, x, get):
            """recursion at (y, x) in terms of the filtered field"""
            k = y if axis == 0 else x
            if fwd:
                pk, sk = k - 1, k - 1
            else:
                pk, sk = k + 1, k
            p = get(pk, x) if axis == 0 else get(y, pk)
            co = c.at(s, sk, x) if axis == 0 else c.at(s, y, sk)
            return (1 - co) * c.at(g0, y, x) + co * p

        def first(k):
            return c.eq(k, 0) if fwd else c.eq(k, n - 1)

        def inv(st):
            cur = st.modified[0] if st.modified else c.snap(g)

            def f(y, x):
                k = y if axis == 0 else x
                done = k <= st.k if fwd else k >= n - 1 - st.k
                v = c.at(cur, y, x)
                keep = c.or_(first(k), c.not_(done))
                return c.and_(c.implies(keep, c.eq(v, c.at(g0, y, x))),
                              c.or_(keep, c.eq(v, rel(y, x, lambda a, b: c.at(cur, a, b)))))
            d = -1 if fwd else 1
            return [("recursion", c.forall((ny, nx), f, hint=lambda y, x: [(y + d, x) if axis == 0 else (y, x + d)]))]
        c.loop(MOD + ":*", inv)
        r = getattr(c.mod(MOD).RecursiveFilter, "_recurse_" + direction)(g, s, axis)
        c.check("shape", c.same_shape(r, (ny, nx)))

        def post(y, x):
            k = y if axis == 0 else x
            v = c.at(r, y, x)
            if not c.symbolic:
                return c.eq(v, c.at(g0, y, x) if first(k) else rel(y, x, lambda a, b: c.at(r, a, b)), tol=1e-3)
            return c.and_(c.implies(first(k), c.eq(v, c.at(g0, y, x))),
                          c.or_(first(k), c.eq(v, rel(y, x, lambda a, b: c.at(r, a, b)))))
        c.check_all("recursion", (ny, nx), post)
    return sweep


_sweep("forward")
_sweep("backward")


@contract("C03", [RF + "._run_recursion", RF + "._recurse_forward", RF + "._recurse_backward"], budget=200, trials=150)
def recursion_range(c):
    """whatever the number of iterations, no value leaves the range of the inputs (so constants are unchanged)"""
    ny, nx = c.dim("ny"), c.dim("nx")
    its = c.choice("iterations", [1, 2])
    g = c.array("g", (ny, nx), lo=-50, hi=50)
    sx = c.array("sx", (ny, nx - 1), lo=0, hi=0.5)
    sy = c.array("sy", (ny - 1, nx), lo=0, hi=0.5)
    g0 = c.snap(g)
    if c.symbolic:
        lo, hi = c.real("lo", -50, 50), c.real("hi", -50, 50)
        c.assume_all((ny, nx), lambda i, j: c.and_(c.at(g0, i, j) >= lo, c.at(g0, i, j) <= hi))
    else:
        lo, hi = float(g.min()), float(g.max())

    def inv(st):
        cur = st.modified[0] if st.modified else c.snap(g)

        def f(y, x):
            v = c.at(cur, y, x)
            return c.and_(v >= lo, v <= hi)
        return [("range", c.forall((ny, nx), f, hint=lambda y, x: [(y - 1, x), (y + 1, x), (y, x - 1), (y, x + 1)]))]
    c.loop(MOD + ":*", inv)
    cu = field(c, g, "air_temperature", "K", time=False)
    y, x = yx(c, ny, nx)
    C = c.iris.cube.Cube
    cx, cy = C(sx, long_name="smoothing_coefficient_x"), C(sy, long_name="smoothing_coefficient_y")
    r = c.mod(MOD).RecursiveFilter._run_recursion(cu, cx, cy, its)
    c.check_all("range", (ny, nx), lambda i, j: c.and_(c.ge(c.at(r.data, i, j), lo, tol=1e-4),
                                                       c.le(c.at(r.data, i, j), hi, tol=1e-4)))


def coeffs(c, sx, sy, ny, nx):
    y, x = yx(c, ny, nx)
    cs = c.iris.coord_systems.LambertAzimuthalEqualArea()
    xm = dimcoord(c, "projection_x_coordinate", affine(c, nx - 1, 1000.0, 2000.0), "m", coord_system=cs)
    ym = dimcoord(c, "projection_y_coordinate", affine(c, ny - 1, 1000.0, 2000.0), "m", coord_system=cs)
    return [cube(c, sy, "smoothing_coefficient_y", "1", [ym, x]), cube(c, sx, "smoothing_coefficient_x", "1", [y, xm])]


@contract("C03", [RF + ".process", RF + "._pad_coefficients", RF + "._update_coefficients_from_mask",
                  "improver.generate_ancillaries.generate_orographic_smoothing_coefficients:OrographicSmoothingCoefficients"
                  ".zero_masked", "improver.utilities.pad_spatial:pad_cube_with_halo",
                  "improver.utilities.pad_spatial:remove_halo_from_cube"], budget=200, trials=80)
def filter_process(c):
    """the filter runs on the mirrored field with coefficients zeroed at mask edges; shape, range and mask are kept"""
    ny, nx = c.dim("ny", lo=3), c.dim("nx", lo=3)
    masked = c.flag("masked")
    e = c.choice("edge", [1, 2])
    g = c.array("g", (ny, nx), lo=-50, hi=50, mask=masked)
    sx = c.array("sx", (ny, nx - 1), lo=0, hi=0.5)
    sy = c.array("sy", (ny - 1, nx), lo=0, hi=0.5)
    if masked and c.symbolic:
        c.use_index(0, 0)
        c.assume(c.masked(g, 0, 0))        # the mask is not empty
    elif masked:
        c.assume(c.np.ma.is_masked(g) and not c.np.ma.getmaskarray(g).all())
    g0, sx0, sy0 = c.snap(g), c.snap(sx), c.snap(sy)
    cu = field(c, g, "air_temperature", "K")
    w = 2 * e
    its = 1 if c.symbolic else c.choice("iterations", [1, 2])

    def run(cube_, cx, cy, iterations):
        # contract of _run_recursion: convex combinations only (recursion_range), zero coefficients decouple
        c.check("iterations", iterations == its)
        c.check("padded shape", c.same_shape(cube_.data, (ny + 2 * w, nx + 2 * w)))
        c.check("coefficient shapes", c.and_(c.same_shape(cx.data, (ny + 2 * w, nx + 2 * w - 1)),
                                             c.same_shape(cy.data, (ny + 2 * w - 1, nx + 2 * w))))
        c.check_all("interior kept", (ny, nx), lambda i, j: c.implies(
            c.not_(c.masked(g0, i, j)), c.eq(c.at(cube_.data, i + w, j + w), c.at(g0, i, j))))
        c.check_all("x coefficient", (ny, nx - 1), lambda i, j: c.eq(c.at(cx.data, i + w, j + w), c.ite(
            c.or_(c.masked(g0, i, j), c.masked(g0, i, j + 1)), 0.0, c.at(sx0, i, j))))
        c.check_all("y coefficient", (ny - 1, nx), lambda i, j: c.eq(c.at(cy.data, i + w, j + w), c.ite(
            c.or_(c.masked(g0, i, j), c.masked(g0, i + 1, j)), 0.0, c.at(sy0, i, j))))
        c.check_all("mirrored rows", (w, nx), lambda i, j: c.implies(i < ny, c.eq(
            c.at(cube_.data, w - 1 - i, j + w), c.at(g0, i, j))))
        d = c.snap(cube_.data)
        new = c.from_fn((ny + 2 * w, nx + 2 * w), lambda i, j: c.opaque("rf", c.at(d, i, j), i, j))
        return cube_.copy(data=new)
    c.cut(RF + "._run_recursion", run)
    r = c.mod(MOD).RecursiveFilter(iterations=its, edge_width=e)(cu, coeffs(c, sx, sy, ny, nx))
    c.check("shape", c.same_shape(r.data, (ny, nx)))
    c.check_all("mask kept", (ny, nx), lambda i, j: c.iff(c.masked(r.data, i, j), c.masked(g0, i, j)))
    if c.symbolic:
        c.check_all("interior of the filtered field", (ny, nx), lambda i, j: c.or_(
            c.masked(g0, i, j), c.eq(c.at(r.data, i, j), c.opaque("rf", c.at(g0, i, j), i + w, j + w))))
    else:
        ok = [float(c.at(g0, i, j)) for i in range(ny) for j in range(nx) if not c.masked(g0, i, j)]
        c.check_all("range of the valid values", (ny, nx), lambda i, j: c.or_(
            c.masked(g0, i, j), c.and_(c.at(r.data, i, j) >= min(ok) - 1e-3, c.at(r.data, i, j) <= max(ok) + 1e-3)))


@contract("C03", RF + "._validate_coefficients", trials=80)
def coefficients_validated(c):
    """coefficients above one half, or on the wrong grid, are refused; valid ones come back in x, y order"""
    ny, nx = c.dim("ny", lo=3), c.dim("nx", lo=3)
    case = c.choice("case", ["good", "large", "swapped"])
    g = c.array("g", (ny, nx), lo=-50, hi=50)
    sx = c.array("sx", (ny, nx - 1), lo=0, hi=0.5)
    sy = c.array("sy", (ny - 1, nx), lo=0, hi=0.5)
    if case == "large":
        sx[0, 0] = 0.6
        c.use_index(0, 0)
    cu = field(c, g, "air_temperature", "K")
    cf = coeffs(c, sx, sy, ny, nx)
    if case == "swapped":
        cf[0].rename("smoothing_coefficient_x")
        cf[1].rename("smoothing_coefficient_y")
    p = c.mod(MOD).RecursiveFilter(iterations=1)
    raised, r = c.raises(ValueError, lambda: p._validate_coefficients(cu, cf))
    c.check("refused unless valid", raised == (case != "good"))
    if not raised:
        c.check("order", [x.name() for x in r] == ["smoothing_coefficient_x", "smoothing_coefficient_y"])


OSC = "improver.generate_ancillaries.generate_orographic_smoothing_coefficients"


@contract("C03", OSC + ":OrographicSmoothingCoefficients.zero_masked", trials=150)
def coefficients_zeroed(c):
    """coefficients between two points are zeroed at mask boundaries, or wherever either point is masked (or unmasked)"""
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    mode = c.choice("mode", ["boundary", "masked", "inverted"])
    m = c.array("m", (ny, nx), "int32", values=[0, 1])
    sx = c.array("sx", (ny, nx - 1), lo=0, hi=0.5)
    sy = c.array("sy", (ny - 1, nx), lo=0, hi=0.5)
    sx0, sy0 = c.snap(sx), c.snap(sy)
    p = c.mod(OSC).OrographicSmoothingCoefficients(use_mask_boundary=mode == "boundary", invert_mask=mode == "inverted")
    cy, cx = coeffs(c, sx, sy, ny, nx)
    p.zero_masked(cx, cy, field(c, m, "land_binary_mask", "1", time=False))

    def z(a, b):
        if mode == "boundary":
            return c.not_(c.eq(a, b))
        if mode == "masked":
            return c.or_(c.eq(a, 1), c.eq(b, 1))
        return c.or_(c.eq(a, 0), c.eq(b, 0))
    c.check_all("x", (ny, nx - 1), lambda i, j: c.eq(c.at(cx.data, i, j), c.ite(
        z(c.at(m, i, j), c.at(m, i, j + 1)), 0.0, c.at(sx0, i, j))))
    c.check_all("y", (ny - 1, nx), lambda i, j: c.eq(c.at(cy.data, i, j), c.ite(
        z(c.at(m, i, j), c.at(m, i + 1, j)), 0.0, c.at(sy0, i, j))))


@contract("C03", OSC + ":OrographicSmoothingCoefficients.scale_smoothing_coefficients", budget=90, trials=150)
def coefficients_scaled(c):
    """scaled coefficients lie between the two configured limits and decrease linearly with the gradient"""
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    lo, hi = c.real("lo", 0, 0.5), c.real("hi", 0, 0.5)
    a = c.array("a", (ny, nx), lo=-10, hi=10)
    b = c.array("b", (ny, nx), lo=-10, hi=10)
    a0, b0 = c.snap(a), c.snap(b)
    if c.symbolic:
        mn = c.min(c.np.amin(c.np.abs(a)), c.np.amin(c.np.abs(b)))
        mx = c.max(c.np.amax(c.np.abs(a)), c.np.amax(c.np.abs(b)))
        c.assume(mx - mn > 0.001)
    else:
        mn = min(float(abs(a).min()), float(abs(b).min()))
        mx = max(float(abs(a).max()), float(abs(b).max()))
        c.assume(mx - mn > 0.01)
    p = c.mod(OSC).OrographicSmoothingCoefficients(min_gradient_smoothing_coefficient=lo,
                                                   max_gradient_smoothing_coefficient=hi)
    C = c.iris.cube.Cube
    r = p.scale_smoothing_coefficients([C(a, long_name="x"), C(b, long_name="y")])
    for k, s in ((0, a0), (1, b0)):
        def post(i, j):
            v = c.at(r[k].data, i, j)
            t = c.abs(c.at(s, i, j))
            ok = c.and_(v >= c.min(lo, hi) - 1e-5, v <= c.max(lo, hi) + 1e-5)
            if not c.symbolic:
                return ok and c.eq(v, (t - mn) / (mx - mn) * (hi - lo) + lo, tol=1e-3)
            f = c.ghost((t - mn) / (mx - mn))
            c.lemma("fraction", c.and_(f >= 0, f <= 1))
            return c.and_(ok, c.eq(v, f * (hi - lo) + lo))
        c.check_all("scaled value %d" % k, (ny, nx), post)
