"""C39: extraction keeps exactly what was asked for; unlike inputs are recognised."""
from vc import contract
from _cubes import cube, field, realization, threshold_coord, time_coords, yx, dimcoord, EPOCH

X = "improver.utilities.cube_extraction"
K = "improver.utilities.cube_checker"
CC = "improver.utilities.cube_constraints"
ALL = [0, 1, 2]
# constraints, units, realizations kept, thresholds kept, rows kept (of four, 2000 m apart); None: nothing matches
ASKED = [
    (["realization=1"], None, [1], ALL, [0, 1, 2, 3]),
    (["realization=[0,2]"], None, [0, 2], ALL, [0, 1, 2, 3]),
    (["realization=[1:2]"], None, [1, 2], ALL, [0, 1, 2, 3]),
    (["projection_y_coordinate=[2000:6000]"], None, ALL, ALL, [1, 2, 3]),
    (["projection_y_coordinate=[4000:0]"], None, ALL, ALL, [0, 1, 2]),
    (["projection_y_coordinate=[0:6000:2]"], None, ALL, ALL, [0, 2]),
    (["projection_y_coordinate=[1999:4001]", "realization=2"], None, [2], ALL, [1, 2]),
    (["projection_y_coordinate=[2:4]"], ["km"], ALL, ALL, [1, 2]),
    (["rainfall_rate=0.1"], ["mm h-1"], ALL, [1], [0, 1, 2, 3]),
    (["rainfall_rate=[0.1, 1.0]", "realization = 1"], ["mm h-1", "None"], [1], [1, 2], [0, 1, 2, 3]),
    (["rainfall_rate=[0.05:1.0]", "projection_y_coordinate=[2000:6000:2]"], ["mm h-1", None], ALL, [1, 2], [1, 3]),
    (["projection_y_coordinate=[-4000:-2000]"], None, ALL, ALL, [0, 1], -4000.0),
    (["projection_y_coordinate=[2000:-2000]"], None, ALL, ALL, [1, 2, 3], -4000.0),
    (["projection_y_coordinate=[-4:0:2]"], ["km"], ALL, ALL, [0, 2], -4000.0),
    (["realization=7"], None, None, None, None),
    (["rainfall_rate=0.2"], ["mm h-1"], None, None, None),
    (["rainfall_rate=0.1"], None, None, None, None),
    (["realization=1", "height=2"], None, None, None, None),
    (["probability_of_rainfall_rate_above_threshold=1"], None, None, None, None),
    (["realization=1", "projection_y_coordinate=0"], ["1"], "refused", None, None),
]


@contract("C39", [X + ":ExtractSubCube.process", X + ":ExtractSubCube.__init__", X + ":extract_subcube", X + ":apply_extraction",
                  X + ":parse_constraint_list", X + ":parse_range_string_to_dict", X + ":create_constraint", X + ":thin_cube",
                  CC + ":create_sorted_lambda_constraint"], trials=200, budget=150)
def extracted(c):
    """exactly the points matching every constraint are kept, ranges with both ends, in whatever units; every so many of a range if a
    step is given; nothing matching is refused, or the field returned as it is if asked for; the caller's field keeps all"""
    np = c.np
    asked, units, keepr, keept, keepy, y0 = (ASKED[c.choice("asked", list(range(len(ASKED))))] + (0.0,))[:6]
    ignore = c.flag("failure ignored")
    back = c.flag("units restored")
    nx = c.dim("nx")
    d = c.array("d", (3, 3, 4, nx), lo=0, hi=1)
    y, x = yx(c, 4, nx, y0=y0)
    th = threshold_coord(c, [v / 3.6e6 for v in (0.03, 0.1, 1.0)], "rainfall_rate", "m s-1")
    cu = cube(c, d.copy(), "probability_of_rainfall_rate_above_threshold", "1", [realization(c, 3), th, y, x], time_coords(c),
              attributes={"source": "here"})
    make = lambda: c.mod(X).ExtractSubCube(list(asked), units=None if units is None else list(units), use_original_units=back,
                                           ignore_failure=ignore)
    bad, r = c.raises(ValueError, lambda: make()(cu))
    c.check("refused", bad == (keepr == "refused" or (keepr is None and not ignore)))
    i = c.index("column", (nx,))[0]
    for k in range(3):
        c.check("caller's", c.eq(c.at(cu.data, k, 1, k + 1, i), c.at(d, k, 1, k + 1, i)))
        if back:
            c.check("caller's thresholds", c.near(c.at(cu.coord("rainfall_rate").points, k) * 3.6e6, (0.03, 0.1, 1.0)[k], 1e-4, loose=True))
    if back:
        c.check("caller's units", str(cu.coord("rainfall_rate").units) == "m s-1" and str(cu.coord(axis="y").units) == "m")
    if bad:
        return
    if keepr is None:
        c.check("as it was", r is cu)
        return
    one = lambda q: 1 if len(q) > 1 else 0
    shape = tuple(len(q) for q in (keepr, keept, keepy) if len(q) > 1) + (nx,)
    c.check("shape", c.same_shape(r.data, shape))
    c.check("described", r.name() == cu.name() and dict(r.attributes) == {"source": "here"} and str(r.units) == "1"
            and bool(r.coords("time")))
    ry = r.coord("projection_y_coordinate")
    rt = r.coord("rainfall_rate")
    tu = "m s-1" if back or units is None or "rainfall_rate" not in asked[0] else "mm h-1"
    yu = "km" if units == ["km"] and not back else "m"
    c.check("units", str(rt.units) == tu and str(ry.units) == yu)
    for a, m in enumerate(keepr):
        c.check("member", c.eq(c.at(r.coord("realization").points, a), m))
        for b, t in enumerate(keept):
            v = c.at(rt.points, b) * (3.6e6 if tu == "m s-1" else 1)
            c.check("threshold", c.near(v, (0.03, 0.1, 1.0)[t], 1e-4, loose=True))
            for e, k in enumerate(keepy):
                at = (a,) * one(keepr) + (b,) * one(keept) + (e,) * one(keepy) + (i,)
                c.check("value", c.eq(c.at(r.data, *at), c.at(d, m, t, k, i)))
                c.check("row", c.near(c.at(ry.points, e), (y0 + 2000 * k) / (1000 if yu == "km" else 1), 1e-3, loose=True))


LEVELS = [("height", "m", [100.0, 200.0, 500.0, 1000.0]), ("pressure", "Pa", [100000.0, 95000.0, 90000.0, 80000.0]),
          ("pressure", "Pa", [80000.0, 90000.0, 95000.0, 100000.0])]


@contract("C39", [X + ":ExtractLevel.fill_invalid", X + ":ExtractLevel._one_way_fill"], trials=150, budget=150)
def levels_filled(c):
    """values present are kept; a missing one is the nearest present one later in its column less a small step for each level between,
    failing that the nearest earlier one plus such steps; columns with nothing present stay missing"""
    np = c.np
    which, positive, lsd = c.choice("case", [(0, True, None), (1, True, 1), (1, False, None), (2, True, None), (2, False, 1)])
    name, units, pts = LEVELS[which]
    asnan = c.flag("not a number") if not c.symbolic else False
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (4, ny, nx), lo=200, hi=300)
    gap = c.array("gap", (4, ny, nx), dtype="bool")
    y, x = yx(c, ny, nx)
    data = np.where(gap, np.float32(np.nan), d) if asnan else np.ma.masked_array(d.copy(), mask=gap.copy())
    cu = cube(c, data, "air_temperature", "K", [dimcoord(c, name, pts, units), y, x],
              attributes={} if lsd is None else {"least_significant_digit": lsd})
    plugin = c.mod(X).ExtractLevel(positive_correlation=positive, value_of_level=273.15)
    plugin.coordinate = name
    plugin.fill_invalid(cu)
    inc = 10.0 ** -(2 if lsd is None else lsd) * (1 if positive == (pts[0] < pts[-1]) else -1)
    c.check("shape", c.same_shape(cu.data, (4, ny, nx)))
    at, i, j = c.index("at", (4, ny, nx))
    g = [c.at(gap, k, i, j) for k in range(4)]
    v = [c.at(d, k, i, j) for k in range(4)]
    for k in range(4):
        want, have = v[k], c.not_(g[k])
        options = [(q, -inc * (q - k)) for q in range(k + 1, 4)] + [(q, inc * (k - q)) for q in range(k - 1, -1, -1)]
        for q, step in options:
            want = c.ite(have, want, v[q] + step)
            have = c.or_(have, c.not_(g[q]))
        here = c.eq(at, k)
        got = c.at(np.ma.getdata(cu.data), at, i, j)
        c.check("missing", c.implies(here, c.iff(c.masked(cu.data, at, i, j), c.not_(have))))
        c.check("value", c.implies(c.and_(here, have), c.near(got, want, 1e-3)))
        c.check("kept", c.implies(c.and_(here, c.not_(g[k])), c.eq(got, v[k])))


@contract("C39", [X + ":ExtractLevel.process", X + ":ExtractLevel.coordinate_grid", X + ":ExtractLevel._make_template_cube"],
          trials=120, budget=150)
def level_found(c):
    """the level at which a falling profile takes the value asked for, linear between levels, the end levels beyond; members apart"""
    np = c.np
    q = c.choice("levels", [0, 1, "both"])
    name, units, pts = LEVELS[0 if q == "both" else q]
    members = c.flag("members")
    ny, nx = c.dim("ny"), c.dim("nx")
    lead = (2,) if members else ()
    top = c.array("first", lead + (ny, nx), lo=260, hi=290)
    drops = [c.array("drop%d" % k, lead + (ny, nx), lo=1, hi=20) for k in range(3)]
    prof = [top, top - drops[0], top - drops[0] - drops[1], top - drops[0] - drops[1] - drops[2]]
    data = np.stack(prof, axis=len(lead))
    y, x = yx(c, ny, nx)
    aux = time_coords(c)
    if q == "both":
        aux.append((c.iris.coords.AuxCoord(np.array([1000.0], dtype=np.float32), long_name="pressure", units="Pa"), None))
    cu = cube(c, data.copy(), "air_temperature", "K", ([realization(c, 2)] if members else []) + [dimcoord(c, name, pts, units), y, x], aux,
              attributes={"source": "here"})
    plugin = c.mod(X).ExtractLevel(positive_correlation=False if name == "pressure" else True, value_of_level=273.15)
    bad, r = c.raises(NotImplementedError, lambda: plugin(cu))
    c.check("refused", bad == (q == "both"))
    if bad:
        return
    c.check("shape", c.same_shape(r.data, lead + (ny, nx)))
    c.check("described", r.name() == ("pressure_of_atmosphere_at_273.15K" if name == "pressure" else "height_at_273.15K")
            and str(r.units) == units and not r.coords(name) and dict(r.attributes) == {"source": "here"})
    i, j = c.index("column", (ny, nx))
    for m in (range(2) if members else (None,)):
        at = ((m,) if members else ()) + (i, j)
        p = [c.at(f, *at) for f in prof]
        got = c.at(r.data, *at)
        t = 273.15
        c.check("beyond", c.and_(c.implies(p[0] < t - 1e-3, c.eq(got, pts[0])), c.implies(p[3] > t + 1e-3, c.eq(got, pts[3]))))
        for k in range(3):
            c.check("between", c.implies(c.and_(p[k] > t + 1e-3, p[k + 1] < t - 1e-3),
                                         c.near((got - pts[k]) * (p[k] - p[k + 1]), (pts[k + 1] - pts[k]) * (p[k] - t),
                                                abs(pts[k + 1] - pts[k]) * 2e-3, loose=True)))


@contract("C39", [K + ":assert_time_coords_valid"], trials=200)
def times_compared(c):
    """fields agree in time only if all have (or lack) periods as asked, the same times and, unless blended, the same cycle"""
    np = c.np
    n = c.choice("fields", [1, 2, 3])
    odd = c.choice("odd one", [0, 1, 2])
    diff = c.choice("differs", ["nothing", "time", "cycle", "period", "period only one"])
    want = c.flag("periods wanted")
    have = c.flag("periods")
    blended = c.flag("blended")
    if odd >= n:
        return
    cubes = []
    for q in range(n):
        t, frt = 1510286400, 1510272000
        if q == odd:
            t += 3600 * (diff == "time")
            frt += 3600 * (diff == "cycle")
        b = [t - 3600 * (1 + (diff == "period" and q == odd)), t] if have != (diff == "period only one" and q == odd) else None
        cu = cube(c, np.zeros((2, 2), dtype=np.float32), "air_temperature", "K", list(yx(c, 2, 2)), time_coords(c, t, frt, b))
        if blended:
            cu.coord("forecast_reference_time").rename("blend_time")
        cubes.append(cu)
    fine = n > 1 and have == want and not (diff == "time" or (diff == "cycle" and not blended) or (diff == "period" and have)
                                           or diff == "period only one")
    c.check("refused", c.raises(ValueError, lambda: c.fn(K + ":assert_time_coords_valid")(cubes, want))[0] == (not fine))


@contract("C39", [K + ":spatial_coords_match", K + ":assert_spatial_coords_match", K + ":find_dimension_coordinate_mismatch",
                  K + ":check_for_x_and_y_axes"], trials=200)
def grids_compared(c):
    """grids match only if every field's x and y both equal the first's; the dimensions one field has and another lacks are named"""
    np = c.np
    odd = c.choice("odd one", [0, 1, 2])
    diff = c.choice("differs", ["nothing", "x", "y", "units", "size", "projection"])
    lead = c.choice("leading", [([], []), (["realization"], []), ([], ["realization"]), (["realization"], ["realization"]),
                                (["realization"], ["height"])])
    cubes = []
    for q in range(3):
        o = q == odd
        ny, nx = 2, 3 + (o and diff == "size")
        y, x = yx(c, ny, nx, y0=500.0 if o and diff == "y" else 0.0, x0=500.0 if o and diff == "x" else 0.0) \
            if not (o and diff == "projection") else yx(c, ny, nx, "latlon", dy=2.0, dx=2.0)
        if o and diff == "units":
            x.convert_units("km")
        names = lead[0 if q == 0 else 1]
        ld = [realization(c, 2) if s == "realization" else dimcoord(c, "height", [10.0, 20.0], "m") for s in names]
        cubes.append(cube(c, np.zeros((2,) * len(ld) + (ny, nx), dtype=np.float32), "air_temperature", "K", ld + [y, x]))
    match = c.fn(K + ":spatial_coords_match")(cubes)
    c.check("match", bool(match) == (diff == "nothing"))
    c.check("refused", c.raises(ValueError, lambda: c.fn(K + ":assert_spatial_coords_match")(cubes))[0] == (diff != "nothing"))
    f = c.fn(K + ":find_dimension_coordinate_mismatch")
    names = [set(k.name() for k in cu.dim_coords) for cu in cubes]
    c.check("both ways", sorted(f(cubes[0], cubes[1])) == sorted(names[0] ^ names[1]))
    c.check("one way", sorted(f(cubes[0], cubes[1], two_way_mismatch=False)) == sorted(names[1] - names[0]))
    cu = cubes[0]
    check = c.fn(K + ":check_for_x_and_y_axes")
    c.check("axes", not c.raises(ValueError, lambda: check(cu, require_dim_coords=True))[0])
    row = cu[..., 0, :]
    c.check("scalar axis", not c.raises(ValueError, lambda: check(row))[0])
    c.check("scalar axis refused", c.raises(ValueError, lambda: check(row, require_dim_coords=True))[0])
    row.remove_coord(row.coord(axis="y"))
    c.check("no axis", c.raises(ValueError, lambda: check(row))[0])


@contract("C39", [K + ":check_cube_coordinates"], trials=200)
def dimensions_restored(c):
    """dimensions lost by slicing are put back in the original's order, new ones stay where they are; values keep their coordinates"""
    np = c.np
    ny, nx = c.dim("ny"), c.dim("nx")
    case = c.choice("lost", ["realization", "both", "none", "new", "new and lost", "extra", "missing new"])
    d = c.array("d", (1, 1, ny, nx), lo=0, hi=1)
    ra = c.iris.coords.DimCoord(np.array([3], dtype=np.int32), standard_name="realization", units="1")
    y, x = yx(c, ny, nx)
    old = cube(c, d.copy(), "air_temperature", "K", [ra, dimcoord(c, "height", [2.0], "m"), y, x])
    new = old.copy()
    exc = None
    if case in ("realization", "new and lost"):
        new = old[0]
    elif case in ("both", "extra", "missing new"):
        new = old[0, 0]
    if case in ("new", "new and lost", "extra"):
        pc = dimcoord(c, "percentile", [10.0, 90.0], "%")
        dims = [k for k in new.dim_coords]
        new2 = cube(c, np.stack([new.data, new.data + 5]), "air_temperature", "K", [pc] + [k.copy() for k in dims],
                    [(k.copy(), None) for k in new.aux_coords])
        new = new2
        exc = None if case == "extra" else ["percentile"]
    if case == "missing new":
        exc = ["percentile"]
    Missing = c.iris.exceptions.CoordinateNotFoundError
    bad, r = c.raises(Missing, lambda: c.fn(K + ":check_cube_coordinates")(old, new, exc))
    c.check("refused", bad == (case in ("extra", "missing new")))
    if bad:
        return
    i, j = c.index("cell", (ny, nx))
    names = [k.name() for k in r.dim_coords]
    mine = [n for n in names if n != "percentile"]
    c.check("order", mine == [k.name() for k in old.dim_coords])
    p = names.index("percentile") if exc else None
    c.check("dimensions", r.data.ndim == (5 if exc else 4))
    for q in (range(2) if exc else (0,)):
        at = [0, 0, i, j]
        if exc:
            at.insert(p, q)
        c.check("value", c.eq(c.at(r.data, *at), c.at(d, 0, 0, i, j) + 5 * q))
