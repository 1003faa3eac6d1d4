"""C14: vicinity processing and distances on a grid."""
from vc import contract
from contracts._cubes import cube, dimcoord, field, realization, affine, threshold_coord

S = "improver.utilities.spatial"


def _vicinity(c, v, m, d, i, j, ny, nx, r, land=None):
    """v is not below any valid value of the window of the same kind and is one of them"""
    own = None if land is None else c.at(land, i, j)
    some = []
    cond = []
    for a in range(-r, r + 1):
        for b in range(-r, r + 1):
            y, x = i + a, j + b
            c.use_index(y, x)
            inside = c.and_(y >= 0, y < ny, x >= 0, x < nx)
            if not c.symbolic and not inside:
                continue
            ok = c.and_(inside, c.not_(c.masked(m, y, x)), True if land is None else c.iff(c.at(land, y, x), own))
            w = c.at(d, y, x)
            cond.append(c.implies(ok, v >= w))
            some.append(c.and_(ok, v == w))
    return c.and_(c.or_(*some), *cond)


def _max(r):
    @contract("C14", S + ":maximum_within_vicinity", trials=200, suffix="_%d" % r, budget=120)
    def vicinity(c):
        """the largest valid value of the points of the square about the point (of its own kind, given a land mask); missing
        points stay missing"""
        ny, nx = c.dim("ny"), c.dim("nx")
        kind = c.choice("type", ["float32", "int32"])
        masked = c.flag("masked")
        lm = c.flag("land mask")
        d = c.array("d", (ny, nx), dtype=kind, lo=-1000, hi=1000, often=[0, 1], mask=masked)
        d0 = c.snap(d)
        land = c.array("land", (ny, nx), dtype=bool) if lm else None
        res = c.fn(S + ":maximum_within_vicinity")(d, r, land)
        c.check("shape", c.same_shape(res, d0))
        i, j = c.index("point", (ny, nx))
        c.check("missing", c.iff(c.masked(res, i, j), c.masked(d0, i, j)))
        c.check("largest", c.or_(c.masked(d0, i, j), _vicinity(c, c.at(res, i, j), d0, d0, i, j, ny, nx, r, land)))
        c.check("input kept", c.or_(c.masked(d0, i, j), c.eq(c.at(d, i, j), c.at(d0, i, j))))


for _r in (0, 1, 2):
    _max(_r)


@contract("C14", [S + ":OccurrenceWithinVicinity.process", S + ":create_vicinity_coord", S + ":rename_vicinity_cube"], trials=60,
          budget=90)
def occurrence(c):
    """for every requested radius and every slice, the vicinity maximum at that radius in whole grid cells"""
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    m = c.choice("thresholds", [0, 2])
    radii, cells = c.choice("radii", [([2000.0], [1]), ([5999.0, 2000.0], [2, 1])])
    native = c.flag("given in cells")
    d = c.array("d", (m, ny, nx) if m else (ny, nx), dtype="float32", lo=0, hi=1)
    lead = [threshold_coord(c, [273.0, 275.0])] if m else []
    name = "probability_of_air_temperature_above_threshold" if m else "air_temperature"
    cu = field(c, d.copy(), name, "1" if m else "K", lead)
    P = c.mod(S).OccurrenceWithinVicinity
    if c.symbolic:
        c.cut(S + ":maximum_within_vicinity", lambda g, r, lm: _opaque_max(c, g, r))
    p = P(grid_point_radii=list(cells)) if native else P(radii=list(radii))
    r = p(cu)
    k = len(radii)
    order = ["radius_of_vicinity"] * (k > 1) + ["air_temperature"] * (1 if m else 0)
    if m and k > 1:
        order = [x.name() for x in r.coords(dim_coords=True)][:2]
        c.check("leading dimensions", sorted(order) == ["air_temperature", "radius_of_vicinity"])
    c.check("name", r.name() == (name.replace("_above", "_in_vicinity_above") if m else "air_temperature_in_vicinity"))
    v = r.coord("radius_of_vicinity")
    c.check("units", str(v.units) == ("1" if native else "m"))
    got = [float(x) for x in c.np.array(v.points).ravel()]
    want = cells if native else radii
    c.check("radii", sorted(got) == sorted(float(x) for x in want))
    i, j = c.index("point", (ny, nx))
    for a, w in enumerate(got):
        n = int(w) if native else int(w // 2000)
        for t in range(m or 1):
            q = {"radius_of_vicinity": a, "air_temperature": t}
            idx = tuple(q[o] for o in order) + (i, j)
            val = c.at(r.data, *idx)
            src = (t, i, j) if m else (i, j)
            if c.symbolic:
                c.check("vicinity", c.eq(val, c.opaque("vic", c.at(d, *src), n)))
            else:
                dd = d[t] if m else d
                c.check("vicinity", _vicinity(c, val, dd, dd, i, j, ny, nx, n))
        c.check("input kept", c.eq(c.at(cu.data, *src), c.at(d, *src)))


def _opaque_max(c, g, r):
    G = c.snap(g)
    return c.from_fn(tuple(g.shape), lambda i, j: c.opaque("vic", c.at(G, i, j), r), "float32")


@contract("C14", [S + ":distance_to_number_of_grid_cells", S + ":number_of_grid_cells_to_distance", S + ":calculate_grid_spacing"],
          trials=200)
def grid_cells(c):
    """a distance is the spacing times the number of cells, rounded down to whole cells; less than a cell is refused"""
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    step = c.choice("spacing", [2000.0, -2000.0, 500.0])
    axis = c.choice("axis", ["x", "y"])
    km = c.flag("kilometres")
    dist = c.real("distance", -5000, 50000)
    cs = c.iris.coord_systems.LambertAzimuthalEqualArea()
    u, f = ("km", 1000.0) if km else ("m", 1.0)
    y = dimcoord(c, "projection_y_coordinate", affine(c, ny, -300.0 / f, step / f), u, coord_system=cs)
    x = dimcoord(c, "projection_x_coordinate", affine(c, nx, 700.0 / f, step / f), u, coord_system=cs)
    cu = cube(c, c.array("d", (ny, nx)), "air_temperature", "K", [y, x])
    M = c.mod(S)
    sp = abs(step)
    c.check("spacing", c.near(M.calculate_grid_spacing(cu, "m", axis=axis), sp, 0.5))
    far = c.near(dist / sp, c.f("floor", dist / sp), 1e-3) if not c.symbolic else False
    bad, n = c.raises(ValueError, lambda: M.distance_to_number_of_grid_cells(cu, dist, axis=axis))
    if c.symbolic or not (far or abs(dist / sp - round(dist / sp)) < 1e-3):
        c.check("refused", c.iff(bad, dist < sp) if not c.symbolic or True else True)
        if not bad:
            c.check("whole cells", c.and_(n <= dist / sp + 1e-3, n + 1 > dist / sp - 1e-3))
    bad, n = c.raises(ValueError, lambda: M.distance_to_number_of_grid_cells(cu, dist, axis=axis, return_int=False))
    c.check("positive", c.iff(bad, dist <= 0))
    if not bad:
        c.check("cells", c.near(n * sp, dist, 0.05))
    c.check("distance", c.near(M.number_of_grid_cells_to_distance(cu, 7), 7 * sp, 2.0))


@contract("C14", [S + ":DifferenceBetweenAdjacentGridSquares.process", S + ":DistanceBetweenGridSquares.process",
                  S + ":GradientBetweenAdjacentGridSquares.process"], trials=100, budget=90)
def differences(c):
    """forward differences between adjacent points, the distances between them, and their quotients; on a sphere, the length of
    the parallel shrinks with the cosine of latitude; a global grid wraps round"""
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    kind = c.choice("grid", ["equal_area", "latlon", "global"])
    d = c.array("d", (ny, nx), dtype="float32", lo=-100, hi=100)
    R = 6371229.0
    if kind == "equal_area":
        cs = c.iris.coord_systems.LambertAzimuthalEqualArea()
        y = dimcoord(c, "projection_y_coordinate", affine(c, ny, -300.0, 1000.0), "m", coord_system=cs)
        x = dimcoord(c, "projection_x_coordinate", affine(c, nx, 700.0, 500.0), "m", coord_system=cs)
        dy, dx = (lambda i, j: 1000.0), (lambda i, j: 500.0)
        y0, sy, x0, sx = -300.0, 1000.0, 700.0, 500.0
    else:
        cs = c.iris.coord_systems.GeogCS(R)
        y0, sy, x0, sx = -2.0, 0.5, 3.0, 1.5
        y = dimcoord(c, "latitude", affine(c, ny, y0, sy), "degrees", coord_system=cs)
        x = dimcoord(c, "longitude", affine(c, nx, x0, sx), "degrees", coord_system=cs, circular=kind == "global")
        rad = lambda t: t * 0.017453292519943295
        dy = lambda i, j: R * rad(sy)
        dx = lambda i, j: R * c.f("cos", c.f("deg2rad", y0 + i * sy)) * rad(c.ite(j == nx - 1, 360 + x0 - (x0 + (nx - 1) * sx), sx))
    wrap = kind == "global"
    if wrap:
        c.assume(nx <= 240)
    cu = cube(c, d.copy(), "surface_altitude", "m", [y, x])
    M = c.mod(S)
    ddx, ddy = M.DifferenceBetweenAdjacentGridSquares()(cu)
    sx_, sy_ = M.DistanceBetweenGridSquares()(cu)
    gx, gy = M.GradientBetweenAdjacentGridSquares()(cu)
    w = 0 if wrap else 1
    for r in (ddx, sx_, gx):
        c.check("shape along x", c.same_shape(r.data, (ny, nx - w)))
    for r in (ddy, sy_, gy):
        c.check("shape along y", c.same_shape(r.data, (ny - 1, nx)))
    i, j = c.index("x step", (ny, nx - w))
    nj = c.ite(j == nx - 1, 0, j + 1)
    nj = nj if c.symbolic else int(nj)
    fwd = c.at(d, i, nj) - c.at(d, i, j)
    c.check("difference along x", c.near(c.at(ddx.data, i, j), fwd, 1e-4))
    c.check("distance along x", c.near(c.at(sx_.data, i, j), dx(i, j), 1.0 + 1e-6 * abs(dx(i, j))))
    a, b = c.index("y step", (ny - 1, nx))
    up = c.at(d, a + 1, b) - c.at(d, a, b)
    c.check("difference along y", c.near(c.at(ddy.data, a, b), up, 1e-4))
    c.check("distance along y", c.near(c.at(sy_.data, a, b), dy(a, b), 1.0))
    if kind == "equal_area":
        c.check("gradients", c.and_(c.near(c.at(gx.data, i, j), fwd / 500, 1e-4), c.near(c.at(gy.data, a, b), up / 1000, 1e-4)))
    c.check("positions", c.and_(c.near(c.at(ddy.coord(axis="y").points, a), y0 + (a + 0.5) * sy, 1e-2),
                                c.near(c.at(ddx.coord(axis="y").points, i), y0 + i * sy, 1e-2)))
    c.check("names", ddx.name() == "difference_of_surface_altitude" and gy.name() == "gradient_of_surface_altitude")
