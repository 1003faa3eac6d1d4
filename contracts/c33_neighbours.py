from vc import contract
from _cubes import affine, cube, dimcoord, yx

N = "improver.spotdata.neighbour_finding"
NS = N + ":NeighbourSelection"
# metres east and north of the first grid point; the grid is 2 km apart
PLACES = [(300, 200), (2300, 1500), (4400, 900), (-900, 2400), (1100, -700)]
LAND = [(1, 1, 1, 1, 1, 1), (0, 1, 0, 0, 0, 1), (0, 0, 0, 1, 0, 0), (1, 0, 1, 0, 1, 0), (0, 0, 0, 0, 1, 0)]


def _grid(c, ny, nx, circular=False):
    if circular:
        cs = c.iris.coord_systems.GeogCS(6371229.0)
        y = dimcoord(c, "latitude", [30.0 * k - 30 for k in range(ny)], "degrees", coord_system=cs)
        x = dimcoord(c, "longitude", [360.0 / nx * k for k in range(nx)], "degrees", coord_system=cs, circular=True)
    else:
        cs = c.iris.coord_systems.LambertAzimuthalEqualArea()
        y = dimcoord(c, "projection_y_coordinate", [2000.0 * k for k in range(ny)], "m", coord_system=cs)
        x = dimcoord(c, "projection_x_coordinate", [2000.0 * k for k in range(nx)], "m", coord_system=cs)
    y.guess_bounds()
    x.guess_bounds()
    return y, x


def _fields(c, ny, nx, land, flipped, circular=False):
    h = c.array("orography", (ny, nx), dtype="float32", lo=-50, hi=2000)
    m = c.np.array([[land[a * nx + b] for b in range(nx)] for a in range(ny)], dtype=c.np.int8)
    out = []
    for d, name, u in ((h, "surface_altitude", "m"), (m, "land_binary_mask", "1")):
        y, x = _grid(c, ny, nx, circular)
        out.append(cube(c, d.T.copy() if flipped else d.copy(), name, u, [x, y] if flipped else [y, x]))
    return h, out[0], out[1]


def _abs(c, v):
    return c.ite(v < 0, -v, v)


def _judge(c, s, r, h, alt, near, cands, nx):
    """candidates (distance, a, b) nearest first; without any the nearest point"""
    row = [c.at(r.data, 0, q, s) for q in range(3)]
    ok = []
    for k, (_, a, b) in enumerate(cands):
        mine = _abs(c, c.at(h, a, b) - alt)
        best = [mine < _abs(c, c.at(h, p, q) - alt) for _, p, q in cands[:k]] + \
               [mine <= _abs(c, c.at(h, p, q) - alt) for _, p, q in cands[k + 1:]]
        ok.append(c.and_(c.eq(row[0], b), c.eq(row[1], a), c.eq(row[2], alt - c.at(h, a, b)), *best))
    if not cands:
        a, b = near
        ok = [c.and_(c.eq(row[0], b), c.eq(row[1], a), c.eq(row[2], alt - c.at(h, a, b)))]
    c.check("grid point", c.or_(*ok))


@contract("C33", [NS + ".process", NS + ".select_minimum_dz", NS + ".build_KDTree", NS + ".get_nearest_indices",
                  NS + ".check_sites_are_within_domain", NS + "._transform_sites_coordinate_system",
                  "improver.spotdata.build_spotdata_cube:build_spotdata_cube",
                  "improver.spotdata.utilities:get_neighbour_finding_method_name"], budget=250, trials=250, max_paths=2500)
def neighbours_found(c):
    """every site within the domain gets the nearest grid point; with constraints, of the grid points (land points) within the
    radius and the given number, the nearest one or the one nearest in height, and the nearest point where there is none;
    the displacement is the site's height, or that of the nearest point where unknown, less the chosen point's"""
    ny, nx = 2, 3
    land_only, min_dz = c.choice("constraints", [(False, False), (True, False), (False, True), (True, True)])
    land = LAND[c.choice("land", list(range(len(LAND))) if land_only else [3])]
    first = c.choice("site", [0, 1, 2, 3, 4])
    outside = c.flag("another outside")
    known = c.flag("altitude known")
    flipped = c.flag("x first") if first == 0 else False
    radius = c.choice("radius", [10000.0, 2500.0, 900.0]) if land_only or min_dz else 10000.0
    limit = c.choice("limit", [36, 3]) if min_dz else 36
    h, orog, lm = _fields(c, ny, nx, land, flipped)
    alt = c.real("altitude", -50, 2000)
    places = ([(90000, 0)] if outside else []) + [PLACES[first], PLACES[(first + 2) % 5]]
    sites = []
    for k, (x, y) in enumerate(places):
        st = {"latitude": y / 100000.0, "longitude": x / 100000.0, "wmo_id": 3000 + k, "site_number": 77 + k}
        if known and k == len(places) - 2:
            st["altitude"] = alt
        elif k != len(places) - 2:
            st["altitude"] = 100.0 * k
        sites.append(st)
    P = c.mod(N).NeighbourSelection(land_constraint=land_only, minimum_dz=min_dz, search_radius=radius, node_limit=limit,
                                    unique_site_id_key="site_number")
    r = P.process(sites, orog, lm)
    c.check("sites within the domain", tuple(int(v) for v in r.data.shape) == (1, 3, 2))
    inside = list(range(len(places)))[-2:]
    c.check("numbers", [str(v) for v in r.coord("wmo_id").points] == ["%05d" % (3000 + k) for k in inside])
    c.check("unique numbers", [str(v) for v in r.coord("site_number").points] == ["%08d" % (77 + k) for k in inside])
    want = {(False, False): "nearest", (True, False): "nearest_land", (False, True): "nearest_minimum_dz",
            (True, True): "nearest_land_minimum_dz"}[(land_only, min_dz)]
    c.check("method", [str(v) for v in r.coord("neighbour_selection_method_name").points] == [want])
    c.check("entries", [str(v) for v in r.coord("grid_attributes_key").points] == ["x_index", "y_index", "vertical_displacement"])
    c.check("grid", r.attributes["model_grid_hash"] == c.mod("improver.metadata.utilities").create_coordinate_hash(orog))
    for s, k in enumerate(inside):
        x, y = places[k]
        near = (min(range(ny), key=lambda a: abs(2000 * a - y)), min(range(nx), key=lambda b: abs(2000 * b - x)))
        z = sites[k].get("altitude")
        if z is None:
            z = c.at(h, *near)
        c.check("altitude", c.eq(c.at(r.coord("altitude").points, s), z))
        c.check("position", c.and_(c.near(c.at(r.coord("latitude").points, s), y / 100000.0, 1e-6, loose=True),
                                   c.near(c.at(r.coord("longitude").points, s), x / 100000.0, 1e-6, loose=True)))
        nodes = sorted((((2000 * a - y) ** 2 + (2000 * b - x) ** 2) ** 0.5, a, b) for a in range(ny) for b in range(nx)
                       if land[a * nx + b] or not land_only)
        nodes = [q for q in nodes if q[0] < radius][:limit]
        if not land_only and not min_dz:
            nodes = []
        elif not min_dz:
            nodes = nodes[:1]
        _judge(c, s, r, h, z, near, nodes, nx)


@contract("C33", [NS + ".process", NS + ".geocentric_cartesian", NS + ".build_KDTree", NS + ".select_minimum_dz",
                  NS + ".check_sites_are_within_domain"], budget=200, trials=200, max_paths=1500)
def neighbours_on_the_globe(c):
    """global grids: distances go around the sphere, across the ends of the longitudes too"""
    import math
    ny, nx = 3, 4
    land_only, min_dz = c.choice("constraints", [(False, False), (True, False), (False, True), (True, True)])
    land = [(0, 1, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1), (1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1)][c.choice("land", [0, 1]) if land_only else 0]
    lat, lon = c.choice("site", [(7, 10), (-12, 350), (25, 200), (-20, -80)])
    radius = c.choice("radius", [2.0e7, 4.0e6, 1.0e5]) if land_only or min_dz else 2.0e7
    h, orog, lm = _fields(c, ny, nx, land, False, True)
    alt = c.real("altitude", -50, 2000)
    sites = [{"latitude": lat, "longitude": lon, "altitude": alt}, {"latitude": 80, "longitude": 0, "altitude": 0.0}]
    P = c.mod(N).NeighbourSelection(land_constraint=land_only, minimum_dz=min_dz, search_radius=radius)
    r = P.process(sites, orog, lm)
    c.check("sites within the domain", tuple(int(v) for v in r.data.shape) == (1, 3, 1))
    c.check("numbers", [str(v) for v in r.coord("wmo_id").points] == ["None"])

    def xyz(la, lo):
        la, lo = math.radians(la), math.radians(lo)
        return math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)
    here = xyz(lat, lon)
    nodes = []
    for a in range(ny):
        for b in range(nx):
            if land[a * nx + b] or not land_only:
                q = xyz(30 * a - 30, 90 * b)
                nodes.append((6371229.0 * math.sqrt(sum((u - v) ** 2 for u, v in zip(here, q))), a, b))
    near = (min(range(ny), key=lambda a: abs(30 * a - 30 - lat)),
            min(range(nx), key=lambda b: min((90 * b - lon) % 360, (lon - 90 * b) % 360)))
    nodes = [q for q in sorted(nodes) if q[0] < radius]
    if not min_dz:
        nodes = nodes[:1] if land_only else []
    _judge(c, 0, r, h, alt, near, nodes, nx)


@contract("C33", [NS + ".process"], trials=40)
def neighbours_refused(c):
    """grids not in metres, fields on different grids, and site numbers that are missing, repeated or too long are refused"""
    why = c.choice("why", ["units", "grids", "missing", "repeated", "long", "none"])
    h, orog, lm = _fields(c, 2, 3, LAND[3], False)
    sites = [{"latitude": 0.001, "longitude": 0.001, "altitude": 5.0, "site_number": 4},
             {"latitude": 0.012, "longitude": 0.031, "altitude": 5.0, "site_number": 5}]
    if why == "units":
        for cu in (orog, lm):
            for a in "xy":
                cu.coord(axis=a).convert_units("km")
    elif why == "grids":
        lm.coord(axis="x").points = lm.coord(axis="x").points + 2000
    elif why == "missing":
        sites[1].pop("site_number")
    elif why == "repeated":
        sites[1]["site_number"] = 4
    elif why == "long":
        sites[0]["site_number"] = 123456789
    P = c.mod(N).NeighbourSelection(unique_site_id_key="site_number")
    err, _ = c.raises((ValueError, KeyError), lambda: P.process(sites, orog, lm))
    c.check("refused", bool(err) == (why != "none"))


@contract("C33", [NS + ".check_sites_are_within_domain"], budget=150, trials=150)
def sites_within_domain(c):
    """sites within the bounds of the outermost grid cells, edges included, stay with their details, in their order; around the
    globe only the latitudes matter"""
    np = c.np
    around = c.flag("global")
    n = 3
    y, x = _grid(c, 3, 4, around)
    cu = cube(c, np.zeros((3, 4), dtype=np.float32), "surface_altitude", "m", [y, x])
    lo_y, hi_y, lo_x, hi_x = (-45, 45, -45, 315) if around else (-1000, 5000, -1000, 7000)
    big = 90 if around else 9000
    ys = c.array("y", (n,), dtype="float32", lo=-big, hi=big, often=(lo_y, hi_y, 0))
    xs = c.array("x", (n,), dtype="float32", lo=-9000, hi=9000, often=(lo_x, hi_x, 0))
    P = c.mod(N).NeighbourSelection()
    P.global_coordinate_system = around
    pts = np.stack([xs, ys], axis=1)
    inside = []
    for k in range(n):
        ok = c.and_(c.at(ys, k) >= lo_y, c.at(ys, k) <= hi_y)
        inside.append(bool(ok if around else c.and_(ok, c.at(xs, k) >= lo_x, c.at(xs, k) <= hi_x)))
    left, coords, xo, yo = P.check_sites_are_within_domain([5, 6, 7], pts, xs + 1, ys + 2, cu)
    want = [k for k in range(n) if inside[k]]
    m = len(want)
    c.check("sizes", [len(v) for v in (left, coords, xo, yo)] == [m] * 4)
    for q, k in enumerate(want):
        c.check("sites", c.eq(c.at(left, q), 5 + k))
        c.check("details", c.and_(c.eq(c.at(coords, q, 0), c.at(xs, k)), c.eq(c.at(coords, q, 1), c.at(ys, k)),
                                  c.near(c.at(xo, q), c.at(xs, k) + 1, 1e-3), c.near(c.at(yo, q), c.at(ys, k) + 2, 1e-3)))
