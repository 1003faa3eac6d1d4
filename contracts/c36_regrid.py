import math

from vc import contract
from _cubes import cube, dimcoord, realization, yx

B = "improver.regrid.bilinear"
G = "improver.regrid.grid"
L = "improver.regrid.landsea2"
NR = "improver.regrid.nearest"
I = "improver.regrid.idw"
GRIDS = [(3, 4, 10.0, -2.0, 0.5, 0.25), (2, 2, -1.0, 3.0, 1.0, 1.0), (4, 3, 50.0, 0.0, 2.0, 0.5)]


def _points(ny, nx, y0, x0, dy, dx):
    return [(y0 + a * dy, x0 + b * dx) for a in range(ny) for b in range(nx)]


@contract("C36", [B + ":basic_indexes", B + ":basic_weights"], budget=200, trials=200)
def cells_and_weights(c):
    """every target point, up to the edges of the source grid, is within the cell of its four source points, and their weights are
    the products of its distances from the opposite sides: none negative, together one"""
    np = c.np
    ny, nx, y0, x0, dy, dx = GRIDS[c.choice("grid", [0, 1, 2])]
    m = c.dim("m")
    y1, x1 = y0 + (ny - 1) * dy, x0 + (nx - 1) * dx
    la = c.array("lat", (m,), dtype="float64", lo=y0, hi=y1, often=tuple(y0 + a * dy for a in range(ny)) + (y1 - 1e-5 * y1,))
    lo = c.array("lon", (m,), dtype="float64", lo=x0, hi=x1, often=tuple(x0 + b * dx for b in range(nx)))
    src = np.array(_points(ny, nx, y0, x0, dy, dx))
    out = np.stack([la, lo], axis=1)
    ix = c.fn(B + ":basic_indexes")(out, src, nx, dy, dx)
    w = c.fn(B + ":basic_weights")(np.arange(m), ix, out, src, dy, dx)
    p = c.index("point", (m,))[0]
    c.check("shapes", c.and_(c.same_shape(ix, (m, 4)), c.same_shape(w, (m, 4))))
    y, x = c.at(la, p), c.at(lo, p)
    first = c.at(ix, p, 0)
    for q, off in enumerate((0, nx, nx + 1, 1)):
        c.check("corners", c.eq(c.at(ix, p, q), first + off))
    found = []
    for a in range(ny - 1):
        for b in range(nx - 1):
            cy, cx = y0 + a * dy, x0 + b * dx
            here = c.eq(first, a * nx + b)
            found.append(here)
            tol = 1e-9
            c.check("within the cell", c.implies(here, c.and_(c.ge(y, cy), c.le(y, cy + dy), c.ge(x, cx), c.le(x, cx + dx))))
            u, v = (y - cy) / dy, (x - cx) / dx
            want = ((1 - u) * (1 - v), u * (1 - v), u * v, (1 - u) * v)
            for q in range(4):
                c.check("weight", c.implies(here, c.near(c.at(w, p, q), want[q], 1e-6)))
    c.check("a cell of the grid", c.or_(*found))


@contract("C36", [NR + ":nearest_regrid", B + ":apply_weights"], budget=150, trials=150)
def values_taken(c):
    """a target point has the value of the source point with the least distance, or the weighted sum of the values of its four; a
    missing source value makes it missing"""
    np = c.np
    m, n = c.dim("m"), 5
    d = c.array("distance", (m, 4), lo=0, hi=10)
    w = c.array("w", (m, 4), lo=0, hi=1)
    ix = c.array("ix", (m, 4), dtype="int64", lo=0, hi=n - 1)
    v = c.array("v", (n,), lo=-10, hi=10)
    gap = c.array("gap", (n,), dtype="bool")
    gaps = c.flag("gaps")
    vals = np.ma.masked_array(v, mask=gap) if gaps else v
    r = c.fn(NR + ":nearest_regrid")(d, ix, vals)
    s = c.fn(B + ":apply_weights")(ix, vals, w)
    p = c.index("point", (m,))[0]
    c.check("shapes", c.and_(c.same_shape(r, (m,)), c.same_shape(s, (m,))))
    pick = []
    ks = [c.at(ix, p, q) for q in range(4)]
    for q in range(4):
        best = c.and_(*[c.at(d, p, q) < c.at(d, p, o) if o < q else c.at(d, p, q) <= c.at(d, p, o) for o in range(4) if o != q])
        pick.append(c.and_(best, c.eq(c.at(np.ma.getdata(r), p), c.at(v, ks[q])),
                           c.iff(c.masked(r, p), c.and_(gaps, c.at(gap, ks[q])))))
    c.check("nearest", c.or_(*pick))
    lost = c.and_(gaps, c.or_(*[c.at(gap, k) for k in ks]))
    c.check("missing", c.iff(c.masked(s, p), lost))
    tot = sum([c.at(w, p, q) * c.at(v, ks[q]) for q in range(1, 4)], c.at(w, p, 0) * c.at(v, ks[0]))
    c.check("weighted", c.or_(lost, c.near(c.ite(lost, 0.0, c.at(np.ma.getdata(s), p)), tot, 1e-3)))


# source: 4 by 4 points a degree apart, 20 to 23 north, 0 to 3 east
SRC = (4, 4, 20.0, 0.0, 1.0, 1.0)
TARGETS = [([20.1, 21.3, 22.85], [0.2, 1.45, 2.9]), ([20.0, 23.0], [0.3, 3.0]), ([21.4, 24.5], [-3.0, 1.7]), ([22.2], [1.1, 1.9])]
SRC_LAND = [(1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1), (1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1),
            (0, 1, 0, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1, 1, 1, 0), (0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0),
            (1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1)]


def _latlon(c, ys, xs, down=False):
    cs = c.iris.coord_systems.GeogCS(6371229.0)
    y = dimcoord(c, "latitude", list(ys)[::-1] if down else list(ys), "degrees", coord_system=cs)
    return y, dimcoord(c, "longitude", list(xs), "degrees", coord_system=cs)


def _xyz(la, lo):
    la, lo = math.radians(la), math.radians(lo)
    return 6371229.0 * math.cos(la) * math.cos(lo), 6371229.0 * math.cos(la) * math.sin(lo), 6371229.0 * math.sin(la)


def _idw(near):
    """(distance, point): weights falling with the 1.8th power of the distance"""
    w = [(d + 1.1920929e-07) ** -1.8 for d, _ in near]
    return {k: v / sum(w) for v, (_, k) in zip(w, near)}


def _weights(pts, land, la, lo, out_land, mode, vicinity):
    """source points and their weights for a target point"""
    ny, nx, y0, x0, dy, dx = SRC
    a, b = min(int((la - y0) // dy), ny - 2), min(int((lo - x0) // dx), nx - 2)
    corner = [a * nx + b, (a + 1) * nx + b, (a + 1) * nx + b + 1, a * nx + b + 1]
    u, v = (la - y0 - a * dy) / dy, (lo - x0 - b * dx) / dx
    plain = dict(zip(corner, ((1 - u) * (1 - v), u * (1 - v), u * v, (1 - u) * v)))
    masked = "mask" in mode
    same = [q for q in corner if land[q] == out_land]
    here = _xyz(la, lo)
    far = sorted((math.sqrt(sum((s - t) ** 2 for s, t in zip(here, _xyz(*pts[k])))), k) for k in range(len(pts)))
    four = [(d, k) for d, k in far[:4] if land[k] == out_land]
    eight = [(d, k) for d, k in far[:8] if land[k] == out_land and d <= vicinity]
    if mode.startswith("nearest"):
        if not masked or len(same) == 4:
            return {min(corner, key=lambda q: (pts[q][0] - la) ** 2 + (pts[q][1] - lo) ** 2): 1.0}
        return {(four or eight or far)[0][1]: 1.0}
    if not masked or len(same) == 4:
        return plain
    if len(same) == 3:
        # the plane through the three points, where the target is in their triangle
        bad = [q for q in range(4) if land[corner[q]] != out_land][0]
        if bad == 0:
            w = (0, 1 - v, u + v - 1, 1 - u)
        elif bad == 1:
            w = (1 - v, 0, u, v - u)
        elif bad == 2:
            w = (1 - u - v, u, 0, v)
        else:
            w = (1 - u, u - v, v, 0)
        if min(w) > -1e-8:
            return dict(zip(corner, w))
    if same and four:
        return _idw(four)
    return _idw(eight[:4]) if eight else plain


@contract("C36", [L + ":RegridWithLandSeaMask.process", B + ":basic_indexes", B + ":basic_weights", B + ":apply_weights",
                  B + ":adjust_for_surface_mismatch", B + ":one_mismatched_input_point", B + ":lakes_islands",
                  NR + ":nearest_with_mask_regrid", NR + ":nearest_regrid", NR + ":update_nearest_points", NR + ":lakes_islands",
                  I + ":inverse_distance_weighting", I + ":nearest_input_pts", I + ":ecef_coords",
                  G + ":ensure_ascending_coord", G + ":calculate_input_grid_spacing", G + ":latlon_from_cube",
                  G + ":unflatten_spatial_dimensions", G + ":flatten_spatial_dimensions", G + ":classify_output_surface_type",
                  G + ":classify_input_surface_type", G + ":similar_surface_classify", G + ":slice_cube_by_domain",
                  G + ":slice_mask_cube_by_domain", G + ":create_regrid_cube", G + ":group_target_points_with_source_domain",
                  G + ":mask_target_points_outside_source_domain"], budget=250, trials=250, max_paths=2000)
def regridded(c):
    """every target point within the source grid is interpolated from the cell it is in, or takes the nearest of its points; with
    masks, from source points of its own surface: of the plane through three, or weighted by distance where fewer, of the eight
    nearest within the vicinity where none of the nearest four are alike, and all alike where none is; targets outside are missing"""
    np = c.np
    mode = c.choice("mode", ["nearest-2", "bilinear-2", "nearest-with-mask-2", "bilinear-with-mask-2"])
    masked = "mask" in mode
    ys, xs = TARGETS[c.choice("target", [0, 1, 2, 3])]
    land = SRC_LAND[c.choice("land", list(range(5)))] if masked else SRC_LAND[0]
    surface = c.choice("surface", ["land", "sea", "both"]) if masked else "land"
    projected = not masked and c.flag("projected")
    alike = lambda a, b: {"land": 1, "sea": 0, "both": (a + b) % 2}[surface]
    vicinity = c.choice("vicinity", [25000.0, 160000.0]) if masked else 25000.0
    shape = c.choice("shape", ["flat", "members", "members last"]) if not masked else "flat"
    down = c.flag("latitudes descend")
    gaps = not masked and c.flag("gaps")
    ny, nx, y0, x0, dy, dx = SRC
    pts = _points(*SRC)
    nm = 1 if shape == "flat" else 2
    d = c.array("d", (nm, ny, nx), lo=-10, hi=10)
    gap = c.array("gap", (nm, ny, nx), dtype="bool")
    turn = (lambda q: q[..., ::-1, :]) if down else (lambda q: q)
    data = turn(np.ma.masked_array(d, mask=gap) if gaps else d.copy())
    y, x = _latlon(c, [y0 + a * dy for a in range(ny)], [x0 + b * dx for b in range(nx)], down)
    scalar = [(dimcoord(c, "height", [1.5], "m"), None)]
    at = {"source": "here"}
    if shape == "flat":
        src = cube(c, data[0], "air_temperature", "K", [y, x], scalar, attributes=at)
    elif shape == "members":
        src = cube(c, data, "air_temperature", "K", [realization(c, 2), y, x], scalar, attributes=at)
    else:
        return
    y2, x2 = _latlon(c, [y0 + a * dy for a in range(ny)], [x0 + b * dx for b in range(nx)], down)
    lm = np.array([[land[a * nx + b] for b in range(nx)] for a in range(ny)], dtype=np.int8)
    src_mask = cube(c, turn(lm).copy(), "land_binary_mask", "1", [y2, x2])
    if projected:   # the stand-in for cartopy has one projection, of 100 km to the degree
        cs = c.iris.coord_systems.LambertAzimuthalEqualArea()
        ty, tx = [dimcoord(c, "projection_%s_coordinate" % n, [1e5 * v for v in vs], "m", coord_system=cs)
                  for n, vs in (("y", ys), ("x", xs))]
    else:
        ty, tx = _latlon(c, ys, xs)
    tgt = cube(c, np.array([[alike(a, b) for b in range(len(xs))] for a in range(len(ys))], dtype=np.int8), "land_binary_mask", "1",
               [ty, tx])
    r = c.mod(L).RegridWithLandSeaMask(mode, vicinity_radius=vicinity)(src, src_mask, tgt)
    lead = (2,) if shape != "flat" else ()
    c.check("shape", c.same_shape(r.data, lead + (len(ys), len(xs))))
    c.check("described", r.name() == "air_temperature" and str(r.units) == "K" and dict(r.attributes) == at
            and r.coord("height") == src.coord("height") and r.coord(ty.name()) == ty and r.coord(tx.name()) == tx
            and (not lead or r.coord("realization") == src.coord("realization")))
    raw = np.ma.getdata(r.data)
    for n in range(nm):
        for a, la in enumerate(ys):
            for b, lo in enumerate(xs):
                key = ((n,) if lead else ()) + (a, b)
                inside = y0 <= la <= y0 + (ny - 1) * dy and x0 <= lo <= x0 + (nx - 1) * dx
                got = c.at(raw, *key)
                if not inside:
                    c.check("outside", c.masked(r.data, *key) if gaps else c.isnan(got))
                    continue
                w = _weights(pts, land, la, lo, alike(a, b), mode, vicinity)
                lost = c.and_(gaps, c.or_(*[c.at(gap, n, k // nx, k % nx) for k in w]))
                c.check("missing", c.iff(c.masked(r.data, *key), lost))
                want = sum(v * c.at(d, n, k // nx, k % nx) for k, v in w.items())
                c.check("value", c.or_(lost, c.near(c.ite(lost, want, got), want, 1e-3, loose=True)))


LS = "improver.regrid.landsea"
# land masks of a 3 by 4 grid
COASTS = [(1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0), (0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0), (1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0),
          (1,) * 12, (0,) * 12, (1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1)]


@contract("C36", [LS + ":AdjustLandSeaPoints.process", LS + ":AdjustLandSeaPoints.correct_where_input_true",
                  LS + ":AdjustLandSeaPoints._get_matches", LS + ":AdjustLandSeaPoints.__init__"], budget=150, trials=250,
          max_paths=2000)
def surfaces_matched(c):
    """after nearest-neighbour regridding, a point whose source was of the other surface takes the value of the nearest point of its
    own where there is one within the vicinity, for every member; all other points keep theirs"""
    np = c.np
    ny, nx = 3, 4
    source = COASTS[c.choice("source", list(range(len(COASTS))))]
    target = COASTS[c.choice("target", list(range(len(COASTS))))]
    cells = c.choice("cells", [1, 2])
    nm = c.choice("members", [1, 2])
    d = c.array("d", (nm, ny, nx), lo=-10, hi=10)
    again = c.flag("used before")
    y, x = yx(c, ny, nx)
    scal = [(dimcoord(c, "height", [1.5], "m"), None)]
    src = cube(c, d.copy() if nm == 2 else d[0].copy(), "air_temperature", "K", ([realization(c, 2)] if nm == 2 else []) + [y, x], scal)
    grid = lambda m: cube(c, np.array(m, dtype=np.int8).reshape((ny, nx)), "land_binary_mask", "1", list(yx(c, ny, nx)))
    plugin = c.mod(LS).AdjustLandSeaPoints(vicinity_radius=2000.0 * cells)
    if again:   # nothing is kept of other masks
        plugin(src.copy(), grid(COASTS[0]), grid(COASTS[2]))
    r = plugin(src, grid(source), grid(target))
    lead = (2,) if nm == 2 else ()
    c.check("shape", c.same_shape(r.data, lead + (ny, nx)))
    c.check("described", r.name() == "air_temperature" and r.coord("height") == src.coord("height"))
    for n in range(nm):
        for i in range(ny):
            for j in range(nx):
                own = target[i * nx + j]
                got = c.at(r.data, *(((n,) if lead else ()) + (i, j)))
                like = [(p, q) for p in range(ny) for q in range(nx) if source[p * nx + q] == own]
                if source[i * nx + j] == own or not any(max(abs(p - i), abs(q - j)) <= cells for p, q in like):
                    c.check("kept", c.eq(got, c.at(d, n, i, j)))
                    continue
                least = min((p - i) ** 2 + (q - j) ** 2 for p, q in like)
                c.check("nearest of its own", c.or_(*[c.eq(got, c.at(d, n, p, q)) for p, q in like
                                                      if (p - i) ** 2 + (q - j) ** 2 == least]))
    c.check("caller's", c.same_shape(src.data, lead + (ny, nx)))
    i, j = c.index("cell", (ny, nx))
    c.check("caller's data", c.eq(c.at(src.data, *(((0,) if lead else ()) + (i, j))), c.at(d, 0, i, j)))


@contract("C36", [LS + ":RegridLandSea.process", LS + ":RegridLandSea._regrid_to_target", LS + ":RegridLandSea.__init__",
                  LS + ":grid_contains_cutout"], budget=150, trials=250, max_paths=2000)
def regridded_as_asked(c):
    """each mode is done by its method, with the mask where it needs one; the grid attributes are the target's or none, and the title
    the one given or none; masks are required where used, and must cover the input on its points"""
    np = c.np
    modes = ["bilinear", "nearest", "nearest-with-mask", "nearest-2", "bilinear-2", "nearest-with-mask-2", "bilinear-with-mask-2"]
    mode = c.choice("mode", modes + ["cubic"])
    masked = "mask" in mode
    given = c.choice("mask", ["none", "same", "wider", "shifted", "shorter", "other units", "other name", "ends early", "other ball"])
    told = c.choice("told", [0, 1, 2])
    kind, st = ("latlon", 1.0) if mode.endswith("-2") else ("equal_area", 2000.0)
    vicinity = 150000.0 if mode.endswith("-2") else 2600.0
    ny, nx = 3, 4
    d = c.array("d", (ny, nx), lo=-10, hi=10)
    at = {"mosg__grid_domain": "uk", "mosg__grid_type": "standard", "source": "here"}
    src = cube(c, d.copy(), "air_temperature", "K", list(yx(c, ny, nx, kind, st, st)), attributes=dict(at))
    m = {"same": (3, 4, 0, 0), "wider": (5, 6, -1, -2), "shifted": (5, 6, -1, -1.5), "shorter": (3, 3, 0, 0),
         "ends early": (5, 5, 0, -2)}.get(given, (3, 4, 0, 0))
    my, mx = yx(c, m[0], m[1], kind, st, st, y0=st * m[2], x0=st * m[3])
    if given == "other units":
        my.units = "km"
    if given == "other name":
        my.rename("grid_latitude")
    if given == "other ball":
        my.coord_system = mx.coord_system = c.iris.coord_systems.GeogCS(6000000.0)
    name = "surface_altitude" if told == 1 else "land_binary_mask"
    land = np.array([[(a + m[2] + 2 * b + 2 * m[3]) % 3 == 0 for b in range(m[1])] for a in range(m[0])], dtype=np.int8)
    mask = None if given == "none" else cube(c, land, name, "1", [my, mx])
    title = "UK forecast" if told == 2 else None
    tat = {"mosg__grid_domain": "local", "mosg__grid_version": "9"} if told else {}
    fs, gs = (0.5, 1.75), (0.25, 1.5)
    ty, tx = yx(c, 2, 2, kind, dy=1.25 * st, dx=1.25 * st, y0=0.5 * st, x0=0.25 * st)
    tgt = lambda: cube(c, np.array([[1, 0], [1, 1]], dtype=np.int8), "land_binary_mask", "1", [ty, tx], attributes=dict(tat))
    R = c.mod(LS).RegridLandSea
    ok = mode in modes and not (masked and given == "none")
    exc, plugin = c.raises(ValueError, lambda: R(mode, landmask=mask, landmask_vicinity=vicinity))
    c.check("mode and mask asked for", exc == (not ok))
    if not ok:
        return
    if given in ("other units", "other name", "other ball") and not masked:
        return
    refused, r = c.raises(ValueError, lambda: plugin(src, tgt(), title))
    c.check("mask must match", refused == (masked and given not in ("same", "wider")))
    if refused:
        return
    c.check("attributes", dict(r.attributes) == dict({"mosg__grid_domain": "local"} if tat else {}, source="here",
                                                     title="Post-Processed UK forecast" if title else "unknown"))
    c.check("described", r.name() == "air_temperature" and str(r.units) == "K" and r.coord(axis="y") == ty
            and r.coord(axis="x") == tx)
    c.check("shape", c.same_shape(r.data, (2, 2)))
    if mode.endswith("-2"):
        other = c.mod(L).RegridWithLandSeaMask(regrid_mode=mode, vicinity_radius=None if mask is None else vicinity)(src, mask, tgt())
    elif masked:
        other = c.mod(LS).AdjustLandSeaPoints(vicinity_radius=vicinity)(
            src.regrid(tgt(), c.iris.analysis.Nearest("nanmask")), mask, tgt())
    else:
        other = None
    for i, f in enumerate(fs):
        for j, g in enumerate(gs):
            got = c.at(r.data, i, j)
            a, b = int(f), int(g)
            if other is not None:
                c.check("as its method", c.eq(got, c.at(other.data, i, j)))
            elif mode == "nearest":
                near = [(p, q) for p in range(ny) for q in range(nx) if abs(p - f) <= 0.5 and abs(q - g) <= 0.5]
                c.check("nearest", c.or_(*[c.eq(got, c.at(d, p, q)) for p, q in near]))
            else:
                u, v = f - a, g - b
                c.check("bilinear", c.near(got, c.at(d, a, b) * ((1 - u) * (1 - v)) + c.at(d, a + 1, b) * (u * (1 - v))
                                           + c.at(d, a, b + 1) * ((1 - u) * v) + c.at(d, a + 1, b + 1) * (u * v), 1e-4))
