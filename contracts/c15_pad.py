from vc import contract
from _cubes import affine, cube, dimcoord, field, realization, yx

MOD = "improver.utilities.pad_spatial"
ADD = MOD + ":pad_cube_with_halo"
REM = MOD + ":remove_halo_from_cube"


def axis(c, name):
    """affine coordinate of symbolic length, start and spacing"""
    n = c.dim("n" + name, lo=3)
    start = c.int("start" + name, -2000, 2000)
    step = c.choice("step" + name, [2000, -1500, 250])
    return n, start * 500.0, float(step)


@contract("C15", MOD + ":pad_coord", trials=200)
def pad_coord_affine(c):
    """padding extends the points at both ends with the same spacing, removal cuts the ends; bounds lie half a cell either side"""
    n, s, d = axis(c, "x")
    w = c.int("w", 0, 3)
    method = c.choice("method", ["add", "remove"])
    m = n + 2 * w if method == "add" else n - 2 * w
    c.assume(m >= 1)
    co = dimcoord(c, "projection_x_coordinate", affine(c, n, s, d), "m")
    r = c.mod(MOD).pad_coord(co, w, method)
    c.check("length", c.same_shape(r.points, (m,)))
    off = -w if method == "add" else w
    c.check_all("points", (m,), lambda i: c.eq(c.at(r.points, i), s + (i + off) * d, tol=1e-3))
    c.check_all("bounds", (m,), lambda i: c.and_(
        c.eq(c.at(r.bounds, i, 0), s + (i + off) * d - d / 2, tol=1e-3),
        c.eq(c.at(r.bounds, i, 1), s + (i + off) * d + d / 2, tol=1e-3)))
    c.check("metadata", c.and_(r.name() == co.name(), str(r.units) == "m", c.dtype_is(r.points, "float32")))


@contract("C15", MOD + ":pad_coord", trials=200)
def pad_coord_irregular(c):
    """coordinates whose spacing drifts are refused"""
    n = c.dim("n", lo=3)
    d = c.int("d", 1, 2000)
    k = c.int("k", 1, 50)
    co = dimcoord(c, "projection_x_coordinate", c.from_fn((n,), lambda i: i * d + c.ite(c.eq(i, n - 1), k, 0), "float32"), "m")
    w = c.int("w", 0, 3)
    c.assume(n > 2 * w)
    raised, _ = c.raises(ValueError, lambda: c.mod(MOD).pad_coord(co, w, c.choice("method", ["add", "remove"])))
    c.check("refused", raised)


def coords_ok(c, r, ny, nx, offy, offx, my, mx, gy, gx):
    y, x = r.coord(axis="y"), r.coord(axis="x")
    c.check("y length", c.same_shape(y.points, (my,)))
    c.check("x length", c.same_shape(x.points, (mx,)))
    c.check_all("y points", (my,), lambda i: c.eq(c.at(y.points, i), gy[0] + (i + offy) * gy[1], tol=1e-3))
    c.check_all("x points", (mx,), lambda i: c.eq(c.at(x.points, i), gx[0] + (i + offx) * gx[1], tol=1e-3))
    c.check("dims", r.coord_dims(y) == (0,) and r.coord_dims(x) == (1,))


@contract("C15", [ADD, MOD + ":_create_cube_with_padded_data", MOD + ":pad_coord"], budget=120, trials=200)
def pad_cube(c):
    """every original value sits at its shifted position; the halo holds zeros, mirrored values or edge means"""
    ny, nx = c.dim("ny", lo=3), c.dim("nx", lo=3)
    wx, wy = c.choice("wx", [0, 1, 2, 3]), c.choice("wy", [0, 1, 2, 4])
    method = c.choice("method", ["constant", "symmetric", "mean"])
    if method == "mean":
        c.assume(wx != 1 and wy != 1)
        c.assume(c.and_(nx >= wx, ny >= wy))
    d = c.array("d", (ny, nx), lo=-100, hi=100)
    d0 = c.snap(d)
    cu = field(c, d, "air_temperature", "K")
    r = c.mod(MOD).pad_cube_with_halo(cu, wx, wy, pad_method=method)
    my, mx = ny + 2 * wy, nx + 2 * wx
    c.check("shape", c.same_shape(r.data, (my, mx)))
    c.check_all("interior", (ny, nx), lambda i, j: c.eq(c.at(r.data, i + wy, j + wx), c.at(d0, i, j)))
    coords_ok(c, r, ny, nx, -wy, -wx, my, mx, (0.0, 2000.0), (0.0, 2000.0))
    c.check("scalar coordinates and metadata", sorted(x.name() for x in r.coords()) == sorted(x.name() for x in cu.coords())
            and r.name() == cu.name() and str(r.units) == str(cu.units))
    inside = lambda i, j: c.and_(i >= wy, i < ny + wy, j >= wx, j < nx + wx)
    if method == "constant":
        c.check_all("halo is zero", (my, mx), lambda i, j: c.or_(inside(i, j), c.eq(c.at(r.data, i, j), 0)))
    if method == "symmetric":
        c.check_all("left mirrored", (ny, wx), lambda i, j: c.eq(c.at(r.data, i + wy, wx - 1 - j), c.at(d0, i, j)))
        c.check_all("right mirrored", (ny, wx), lambda i, j: c.eq(c.at(r.data, i + wy, wx + nx + j), c.at(d0, i, nx - 1 - j)))
        c.assume(ny >= wy)
        c.check_all("top mirrored", (wy, nx), lambda i, j: c.eq(c.at(r.data, wy - 1 - i, j + wx), c.at(d0, i, j)))
        c.check_all("bottom mirrored", (wy, nx), lambda i, j: c.eq(c.at(r.data, wy + ny + i, j + wx), c.at(d0, ny - 1 - i, j)))
    if method == "mean" and wx:
        h = wx // 2

        def edge(i, j):
            lo = c.sum_list([c.at(d0, i, k) for k in range(h)])
            hi = c.sum_list([c.at(d0, i, nx - 1 - k) for k in range(h)])
            return c.and_(c.eq(c.at(r.data, i + wy, j) * h, lo, tol=1e-3),
                          c.eq(c.at(r.data, i + wy, nx + wx + j) * h, hi, tol=1e-3))
        c.check_all("edge means", (ny, wx), edge)
    if method == "mean" and wy:
        g = wy // 2

        def rows(i, j):
            lo = c.sum_list([c.at(d0, k, j) for k in range(g)])
            hi = c.sum_list([c.at(d0, ny - 1 - k, j) for k in range(g)])
            return c.and_(c.eq(c.at(r.data, i, j + wx) * g, lo, tol=1e-3),
                          c.eq(c.at(r.data, ny + wy + i, j + wx) * g, hi, tol=1e-3))
        c.check_all("row means", (wy, nx), rows)


@contract("C15", [REM, ADD, MOD + ":pad_coord", MOD + ":_create_cube_with_padded_data"], budget=120, trials=200)
def remove_undoes_pad(c):
    """removing the halo that was added returns the original values, coordinates and metadata"""
    ny, nx = c.dim("ny", lo=3), c.dim("nx", lo=3)
    wx, wy = c.choice("wx", [0, 1, 3]), c.choice("wy", [0, 2, 4])
    method = c.choice("method", ["constant", "symmetric"])
    d = c.array("d", (ny, nx), lo=-100, hi=100)
    d0 = c.snap(d)
    m = c.mod(MOD)
    cu = field(c, d, "air_temperature", "K")
    r = m.remove_halo_from_cube(m.pad_cube_with_halo(cu, wx, wy, pad_method=method), wx, wy)
    c.check("shape", c.same_shape(r.data, (ny, nx)))
    c.check_all("values", (ny, nx), lambda i, j: c.eq(c.at(r.data, i, j), c.at(d0, i, j)))
    coords_ok(c, r, ny, nx, 0, 0, ny, nx, (0.0, 2000.0), (0.0, 2000.0))
    c.check("scalar coordinates and metadata", sorted(x.name() for x in r.coords()) == sorted(x.name() for x in cu.coords())
            and r.name() == cu.name() and str(r.units) == str(cu.units))


@contract("C15", [REM, MOD + ":pad_coord"], budget=90, trials=200)
def remove_cuts_halo(c):
    """removal keeps exactly the values and points inside the halo"""
    ny, nx = c.dim("ny", lo=3), c.dim("nx", lo=3)
    wx, wy = c.int("wx", 0, 3), c.int("wy", 0, 3)
    my, mx = ny - 2 * wy, nx - 2 * wx
    c.assume(c.and_(my >= 1, mx >= 1))
    d = c.array("d", (ny, nx), lo=-100, hi=100, mask=c.flag("masked"))
    d0 = c.snap(d)
    cu = field(c, d, "air_temperature", "K")
    r = c.mod(MOD).remove_halo_from_cube(cu, wx, wy)
    c.check("shape", c.same_shape(r.data, (my, mx)))
    c.check_all("values", (my, mx), lambda i, j: c.and_(
        c.iff(c.masked(r.data, i, j), c.masked(d0, i + wy, j + wx)),
        c.or_(c.masked(d0, i + wy, j + wx), c.eq(c.at(r.data, i, j), c.at(d0, i + wy, j + wx)))))
    coords_ok(c, r, ny, nx, wy, wx, my, mx, (0.0, 2000.0), (0.0, 2000.0))


@contract("C15", [MOD + ":create_cube_with_halo", MOD + ":pad_coord",
                  "improver.utilities.spatial:distance_to_number_of_grid_cells"], trials=150)
def halo_template(c):
    """the template grid with a halo has zeros on the grid extended by the whole number of cells in the radius"""
    ny, nx = c.dim("ny", lo=3), c.dim("nx", lo=3)
    radius = c.real("radius", 2001, 9000)
    cu = field(c, c.array("d", (ny, nx), lo=0, hi=1), "air_temperature", "K")
    r = c.mod(MOD).create_cube_with_halo(cu, radius)
    k = r.shape[0] - ny
    w = c.choice("w", [1, 2, 3, 4])
    c.assume(c.eq(k, 2 * w))
    c.check("cells", c.and_(w * 2000.0 <= radius, (w + 1) * 2000.0 > radius))
    c.check("shape", c.same_shape(r.data, (ny + 2 * w, nx + 2 * w)))
    c.check_all("zero", (ny + 2 * w, nx + 2 * w), lambda i, j: c.eq(c.at(r.data, i, j), 0))
    coords_ok(c, r, ny, nx, -w, -w, ny + 2 * w, nx + 2 * w, (0.0, 2000.0), (0.0, 2000.0))


@contract("C15", [MOD + ":remove_cube_halo", REM], budget=120, trials=120)
def remove_halo_each_slice(c):
    """the halo is removed from every member, leading dimensions are kept"""
    ny, nx = c.dim("ny", lo=5), c.dim("nx", lo=5)
    nr = c.choice("members", [1, 2, 3])
    w = c.choice("w", [1, 2])
    d = c.array("d", (nr, ny, nx), lo=-100, hi=100)
    d0 = c.snap(d)
    cu = field(c, d, "air_temperature", "K", lead=[realization(c, nr)])
    r = c.mod(MOD).remove_cube_halo(cu, w * 2000.0 + 500.0)
    c.check("shape", c.same_shape(r.data, (nr, ny - 2 * w, nx - 2 * w)))
    c.check_all("values", (nr, ny - 2 * w, nx - 2 * w), lambda k, i, j: c.eq(c.at(r.data, k, i, j), c.at(d0, k, i + w, j + w)))
    c.check("members", list(r.coord("realization").points) == list(range(nr)))


@contract("C15", [MOD + ":remove_cube_halo", REM], budget=120, trials=80)
def remove_halo_keeps_dimensions(c):
    """dimensions of length one, and the order of dimensions, survive the removal of the halo"""
    ny, nx = c.dim("ny", lo=5), c.dim("nx", lo=5)
    n, m = c.choice("lengths", [(1, 2), (2, 1), (1, 1)])
    w = c.choice("w", [1, 2])
    d = c.array("d", (n, m, ny, nx), lo=-100, hi=100)
    d0 = c.snap(d)
    cu = field(c, d, "air_temperature", "K", lead=[dimcoord(c, "percentile", [20.0, 80.0][:n], "%"), realization(c, m)])
    r = c.mod(MOD).remove_cube_halo(cu, w * 2000.0 + 500.0)
    c.check("shape", c.same_shape(r.data, (n, m, ny - 2 * w, nx - 2 * w)))
    c.check("dimensions", [x.name() for x in r.coords(dim_coords=True)] == [x.name() for x in cu.coords(dim_coords=True)])
    i, j = c.index("point", (ny - 2 * w, nx - 2 * w))
    for p in range(n):
        for q in range(m):
            c.check("values", c.eq(c.at(r.data, p, q, i, j), c.at(d0, p, q, i + w, j + w)))
    c.check("input left alone", c.same_shape(cu.data, (n, m, ny, nx)))
