from vc import contract
from _cubes import cube, field, realization, threshold_coord, time_coords, yx, dimcoord, EPOCH

M = "improver.utilities.cube_manipulation"
K = "improver.utilities.cube_checker"
POINTS = [[3.0, 1.0, 2.0], [1.0, 2.0, 3.0], [30.0, 20.0, 10.0], [2.0, -1.0, 7.0]]


@contract("C37", [M + ":sort_coord_in_cube"], trials=120)
def sorted_along(c):
    """sorting puts the coordinate in the order asked for and moves every value, and everything that goes along it, with it"""
    np = c.np
    n, k = c.dim("n"), c.dim("k")
    pts = POINTS[c.choice("points", [0, 1, 2, 3])]
    pos = c.choice("position", [0, 1, 2])
    down = c.flag("descending")
    along = c.flag("other coordinate")
    shape = [n, k]
    shape.insert(pos, 3)
    d = c.array("d", tuple(shape), lo=-10, hi=10)
    gap = c.array("gap", tuple(shape), dtype="bool")
    gaps = c.flag("gaps")
    dims = [None, None]
    co = dimcoord(c, "height", pts, "m") if pts == sorted(pts) or pts == sorted(pts)[::-1] else \
        c.iris.coords.AuxCoord(np.array(pts, dtype=np.float32), standard_name="height", units="m")
    isdim = isinstance(co, c.iris.coords.DimCoord)
    dims.insert(pos, co if isdim else None)
    aux = [] if isdim else [(co, pos)]
    if along:
        aux.append((c.iris.coords.AuxCoord(np.array([7.0, 8.0, 9.0], dtype=np.float32), long_name="label"), pos))
    cu = cube(c, np.ma.masked_array(d.copy(), mask=gap.copy()) if gaps else d.copy(), "wind_speed", "m s-1", dims, aux)
    r = c.fn(M + ":sort_coord_in_cube")(cu, "height", descending=down)
    order = sorted(range(3), key=lambda q: -pts[q] if down else pts[q])
    c.check("shape", c.same_shape(r.data, tuple(shape)))
    p = r.coord("height").points
    i, j = c.index("at", (n, k))
    for q, o in enumerate(order):
        to, fro = [i, j], [i, j]
        to.insert(pos, q)
        fro.insert(pos, o)
        c.check("points", c.eq(c.at(p, q), pts[o]))
        c.check("missing", c.iff(c.masked(r.data, *to), c.and_(gaps, c.at(gap, *fro))))
        c.check("values", c.or_(c.masked(r.data, *to), c.eq(c.at(np.ma.getdata(r.data), *to), c.at(d, *fro))))
        if along:
            c.check("other", c.eq(c.at(r.coord("label").points, q), [7.0, 8.0, 9.0][o]))
        c.check("caller's", c.eq(c.at(np.ma.getdata(cu.data), *to), c.at(d, *to)))


NAMED = [["realization"], ["latitude", "realization"], "longitude", ["threshold"], ["air_temperature", "longitude"], ["height"],
         ["time", "threshold", "realization"], ["longitude", "latitude"], ["realization", "threshold", "latitude", "longitude"]]


@contract("C37", [M + ":enforce_coordinate_ordering", M + ":get_dim_coord_names", M + ":get_coord_names"], trials=150)
def dimensions_ordered(c):
    """the named dimensions come first (or last) in the order named, the others keep theirs, and every value keeps its coordinates"""
    np = c.np
    names = NAMED[c.choice("names", list(range(len(NAMED))))]
    first = c.flag("at the start")
    thr = c.flag("thresholds")
    back = c.flag("turned")
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (2, 3, ny, nx), lo=0, hi=1)
    y, x = yx(c, ny, nx, "latlon")
    second = threshold_coord(c, [273.0, 275.0, 280.0]) if thr else dimcoord(c, "height", [1.0, 2.0, 3.0], "m")
    dims = [realization(c, 2), second, y, x]
    label = (c.iris.coords.AuxCoord(np.array([5.0, 6.0, 7.0], dtype=np.float32), long_name="label"), 1)
    cu = cube(c, d.copy(), "probability_of_air_temperature_above_threshold" if thr else "air_temperature", "1", dims,
              [label] + time_coords(c))
    before = [co.name() for co in dims]
    if back:
        cu.transpose([3, 1, 0, 2])
        before = [before[q] for q in (3, 1, 0, 2)]
    want = [before.index("air_temperature") if n == "threshold" and thr else before.index(n)
            for n in ([names] if isinstance(names, str) else names)
            if (n == "threshold" and thr) or n in before]
    rest = [q for q in range(4) if q not in want]
    order = want + rest if first else rest + want
    r = c.fn(M + ":enforce_coordinate_ordering")(cu, names, anchor_start=first)
    c.check("in place", r is None)
    now = [before[q] for q in order]
    c.check("order", c.fn(M + ":get_dim_coord_names")(cu) == now)
    allnames = c.fn(M + ":get_coord_names")(cu)
    c.check("coordinates", sorted(allnames) == sorted(now + ["label", "time", "forecast_reference_time", "forecast_period"]))
    c.check("along", cu.coord_dims("label") == (now.index(second.name()),))
    i, j = c.index("cell", (ny, nx))
    sizes = dict(zip([co.name() for co in dims], (2, 3, ny, nx)))
    c.check("shape", c.same_shape(cu.data, tuple(sizes[n] for n in now)))
    for m, t in ((0, 0), (1, 0), (1, 1), (0, 2)):
        where = dict(zip([co.name() for co in dims], (m, t, i, j)))
        c.check("values", c.eq(c.at(cu.data, *[where[n] for n in now]), c.at(d, m, t, i, j)))
    for co in dims:
        c.check("same points", cu.coord(co.name()) == co)


@contract("C37", [M + ":collapse_realizations", M + ":collapsed"], trials=200, budget=150)
def realizations_collapsed(c):
    """the members become their sum, mean, median, standard deviation, least or greatest; the member coordinate goes and the rest stays"""
    np = c.np
    how = c.choice("method", ["sum", "mean", "median", "std_dev", "min", "max", "mode"])
    nm = c.choice("members", [2, 3])
    gaps = c.flag("gaps") and how != "median"
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (nm, ny, nx), lo=-10, hi=10)
    gap = c.array("gap", (nm, ny, nx), dtype="bool")
    cm = (c.iris.coords.CellMethod("maximum", coords="time"),)
    cu = field(c, np.ma.masked_array(d.copy(), mask=gap.copy()) if gaps else d.copy(), "air_temperature", "K",
               lead=[realization(c, nm)], attributes={"source": "here"})
    cu.cell_methods = cm
    fn = c.fn(M + ":collapse_realizations")
    bad, r = c.raises(ValueError, lambda: fn(cu, method=how))
    c.check("known methods", bad == (how == "mode"))
    if bad:
        return
    c.check("shape", c.same_shape(r.data, (ny, nx)))
    c.check("described", r.name() == "air_temperature" and str(r.units) == "K" and tuple(r.cell_methods) == cm
            and dict(r.attributes) == {"source": "here"} and not r.coords("realization"))
    for co in ("time", "forecast_period", "forecast_reference_time"):
        c.check("times", r.coord(co) == cu.coord(co))
    c.check("precision", r.data.dtype == np.float32)
    i, j = c.index("cell", (ny, nx))
    v = [c.at(d, m, i, j) for m in range(nm)]
    ok = [c.not_(c.and_(gaps, c.at(gap, m, i, j))) for m in range(nm)]
    lost = c.not_(c.or_(*ok))
    if how == "std_dev":
        if gaps:
            return
        c.check("missing", c.not_(c.masked(r.data, i, j)))
    else:
        c.check("missing", c.iff(c.masked(r.data, i, j), lost))
    got = c.ite(c.masked(r.data, i, j), 0.0, c.at(np.ma.getdata(r.data), i, j))
    num = sum([c.ite(o, 1.0, 0.0) for o in ok], 0.0)
    tot = sum([c.ite(o, q, 0.0) for o, q in zip(ok, v)], 0.0)
    say = lambda w: c.check(how, c.or_(lost, w))
    if how == "sum":
        say(c.near(got, tot, 1e-3))
    elif how == "mean":
        say(c.near(got * num, tot, 1e-3))
    elif how == "min":
        say(c.and_(c.or_(*[c.and_(o, c.eq(got, q)) for o, q in zip(ok, v)]), *[c.implies(o, c.le(got, q)) for o, q in zip(ok, v)]))
    elif how == "max":
        say(c.and_(c.or_(*[c.and_(o, c.eq(got, q)) for o, q in zip(ok, v)]), *[c.implies(o, c.ge(got, q)) for o, q in zip(ok, v)]))
    elif how == "median":
        if nm == 2:
            say(c.near(got * 2, v[0] + v[1], 1e-3))
        else:
            say(c.or_(*[c.and_(c.eq(got, v[a]), c.or_(c.and_(c.le(v[b], v[a]), c.ge(v[e], v[a])), c.and_(c.le(v[e], v[a]), c.ge(v[b], v[a]))))
                        for a, b, e in ((0, 1, 2), (1, 0, 2), (2, 0, 1))]))
    else:
        mean = tot / nm
        say(c.and_(c.ge(got, 0), c.near(got * got * (nm - 1), sum([(q - mean) * (q - mean) for q in v], 0.0), 1e-2)))


@contract("C37", [M + ":clip_cube_data", K + ":check_cube_coordinates"], trials=150, budget=120)
def data_clipped(c):
    """every value becomes the nearest within the limits; shape, order of dimensions, attributes and cell methods stay"""
    np = c.np
    lead = c.choice("leading", ["none", "members", "thresholds and members", "one member"])
    lo, up = c.choice("limits", [(0.0, 1.0), (-2.0, 2.5), (0.0, 0.0)])
    ny, nx = c.dim("ny"), c.dim("nx")
    nl = {"none": (), "members": (2,), "thresholds and members": (2, 2), "one member": (1,)}[lead]
    d = c.array("d", nl + (ny, nx), lo=-10, hi=10)
    ld = {0: [], 1: [realization(c, nl[0] if nl else 1)], 2: [threshold_coord(c, [273.0, 280.0]), realization(c, 2)]}[len(nl)]
    cm = (c.iris.coords.CellMethod("maximum", coords="time"),)
    cu = field(c, d.copy(), "air_temperature", "K", lead=ld, attributes={"source": "here"})
    cu.cell_methods = cm
    r = c.fn(M + ":clip_cube_data")(cu, lo, up)
    c.check("shape", c.same_shape(r.data, nl + (ny, nx)))
    c.check("described", r.name() == "air_temperature" and str(r.units) == "K" and tuple(r.cell_methods) == cm
            and dict(r.attributes) == {"source": "here"})
    c.check("coordinates", [q.name() for q in r.coords(dim_coords=True)] == [q.name() for q in cu.coords(dim_coords=True)])
    for q in cu.coords():
        c.check("same points", r.coord(q.name()) == q)
    ij = c.index("cell", (ny, nx))
    for k in range(nl[0] if nl else 1):
        for m in range(nl[1] if len(nl) > 1 else 1):
            key = (k, m)[:len(nl)] + tuple(ij)
            v, got = c.at(d, *key), c.at(r.data, *key)
            c.check("limits", c.and_(c.ge(got, lo), c.le(got, up)))
            c.check("kept", c.implies(c.and_(c.ge(v, lo), c.le(v, up)), c.eq(got, v)))
            c.check("nearest", c.and_(c.implies(v < lo, c.eq(got, lo)), c.implies(v > up, c.eq(got, up))))
            c.check("caller's", c.eq(c.at(cu.data, *key), v))


HEIGHTS = [[10.0, 100.0, 300.0], [300.0, 100.0, 10.0]]


@contract("C37", [M + ":maximum_in_height", M + ":height_of_maximum"], trials=200)
def greatest_in_height(c):
    """the greatest value over the levels between the limits, both included; no level between them is refused; and the height of the
    greatest is that of a level which has it"""
    np = c.np
    hs = HEIGHTS[c.choice("heights", [0, 1])]
    lo = c.choice("lower", [None, 10.0, 50.0, 100.0, 301.0])
    up = c.choice("upper", [None, 300.0, 100.0, 60.0, 5.0])
    name = c.choice("name", [None, "greatest"])
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (3, ny, nx), lo=-10, hi=10)
    cu = field(c, d.copy(), "wind_speed", "m s-1", lead=[dimcoord(c, "height", hs, "m")])
    lv = [q for q, h in enumerate(hs) if (lo is None or h >= lo) and (up is None or h <= up)]
    bad, r = c.raises(ValueError, lambda: c.fn(M + ":maximum_in_height")(cu, lo, up, name))
    c.check("levels between", bad == (not lv))
    if bad:
        return
    c.check("shape", c.same_shape(r.data, (ny, nx)))
    c.check("name", r.name() == (name or "wind_speed") and cu.name() == "wind_speed" and str(r.units) == "m s-1")
    i, j = c.index("cell", (ny, nx))
    got = c.at(r.data, i, j)
    c.check("one of them", c.or_(*[c.eq(got, c.at(d, q, i, j)) for q in lv]))
    for q in lv:
        c.check("none greater", c.ge(got, c.at(d, q, i, j)))
    if len(lv) < 3:
        return
    low = c.flag("lowest")
    h = c.fn(M + ":height_of_maximum")(cu, r, find_lowest=low, new_name=name)
    c.check("heights", c.same_shape(h.data, (ny, nx)))
    c.check("named", h.name() == (name or "wind_speed") and str(h.units) == "m")
    c.check("has it", c.or_(*[c.and_(c.eq(c.at(h.data, i, j), hs[q]), c.eq(got, c.at(d, q, i, j))) for q in range(3)]))
    c.check("greatest kept", c.eq(c.at(r.data, i, j), got))
    other = c.at(c.fn(M + ":height_of_maximum")(cu, r, find_lowest=not low).data, i, j)
    for q in range(3):   # the two choices find the two ends of the levels which have it
        c.check("either end", c.implies(c.eq(got, c.at(d, q, i, j)), c.or_(
            c.and_(c.le(c.at(h.data, i, j), hs[q]), c.ge(other, hs[q])), c.and_(c.ge(c.at(h.data, i, j), hs[q]), c.le(other, hs[q])))))
    c.check("one level", c.raises(ValueError, lambda: c.fn(M + ":height_of_maximum")(cu[:1], r))[0])


@contract("C37", [M + ":height_of_maximum"], trials=100)
def lowest_or_highest(c):
    """where several levels have the greatest value, its height is that of the lowest of them, or of the highest if asked"""
    hs = [10.0, 100.0, 300.0]
    d = c.array("d", (3, 1, 1), lo=0, hi=2, often=(0.0, 1.0, 2.0))
    cu = field(c, d.copy(), "wind_speed", "m s-1", lead=[dimcoord(c, "height", hs, "m")])
    low = c.flag("lowest")
    top = c.fn(M + ":maximum_in_height")(cu)
    h = c.at(c.fn(M + ":height_of_maximum")(cu, top, find_lowest=low).data, 0, 0)
    for q in (range(3) if low else (2, 1, 0)):
        others = [o for o in range(3) if (o < q) == low and o != q]
        c.check("which", c.implies(c.and_(c.eq(c.at(d, q, 0, 0), c.at(top.data, 0, 0)),
                                          *[c.at(d, o, 0, 0) < c.at(top.data, 0, 0) for o in others]), c.eq(h, hs[q])))


@contract("C37", [M + ":add_coordinate_to_cube"], trials=120)
def dimension_added(c):
    """the new dimension stands where asked, and every value is repeated along it; the rest keeps its place"""
    np = c.np
    ny, nx = c.dim("ny"), c.dim("nx")
    where = c.choice("where", [0, 1, 2, 3, -1, 4])
    keep = c.flag("metadata")
    gaps = False
    d = c.array("d", (2, ny, nx), lo=-10, hi=10)
    y, x = yx(c, ny, nx)
    label = (c.iris.coords.AuxCoord(np.array([5.0, 6.0], dtype=np.float32), long_name="label"), 0)
    cu = cube(c, d.copy(), "air_temperature", "K", [realization(c, 2), y, x], [label] + time_coords(c), attributes={"source": "here"})
    new = dimcoord(c, "percentile", [10.0, 50.0, 90.0], "%")
    bad, r = c.raises(ValueError, lambda: c.fn(M + ":add_coordinate_to_cube")(cu, new, where, keep))
    c.check("place", bad == (where in (-1, 4)))
    if bad:
        return
    names = ["realization", y.name(), x.name()]
    names.insert(where, "percentile")
    c.check("order", [q.name() for q in r.coords(dim_coords=True)] == names)
    shape = [2, ny, nx]
    shape.insert(where, 3)
    c.check("shape", c.same_shape(r.data, tuple(shape)))
    for q in cu.coords() + [new]:
        c.check("coordinates", r.coord(q.name()) == q)
    c.check("along", r.coord_dims("label") == (names.index("realization"),))
    c.check("metadata", not keep or (r.name() == "air_temperature" and str(r.units) == "K" and dict(r.attributes) == {"source": "here"}))
    i, j = c.index("cell", (ny, nx))
    for m in range(2):
        for p in range(3):
            key = [m, i, j]
            key.insert(where, p)
            c.check("values", c.eq(c.at(r.data, *key), c.at(d, m, i, j)))
    c.check("type", r.data.dtype == np.float32)


ATT = [{"a": "1", "b": "2"}, {"a": "1", "b": "3"}, {"a": "1"}, {}, {"a": "4", "b": "2", "mosg__c": "5"}, {"mosg__c": "5", "a": "1"}]


@contract("C37", [M + ":compare_attributes", M + ":get_filtered_attributes"], trials=200, max_paths=2000)
def attributes_compared(c):
    """the attributes that differ are those which are not on all fields with the same value"""
    np = c.np
    n = c.choice("cubes", [2, 3])
    at = [ATT[c.choice("attributes %d" % q, list(range(len(ATT))))] for q in range(n)]
    flt = c.choice("filter", [None, "mosg", "b"])
    y, x = yx(c, 2, 3)
    cs = [cube(c, np.zeros((2, 3), dtype=np.float32), "air_temperature", "K", [y.copy(), x.copy()], attributes=dict(a)) for a in at]
    got = c.fn(M + ":compare_attributes")(cs, attribute_filter=flt)
    use = [{k: v for k, v in a.items() if flt is None or flt in k} for a in at]
    same = {k for k in use[0] if all(k in a and a[k] == use[0][k] for a in use)}
    c.check("attributes", list(got) == [{k: v for k, v in a.items() if k not in same} for a in use])
    c.check("alone", c.fn(M + ":compare_attributes")(cs[:1]) == [])
    for q in range(n):
        c.check("kept", dict(cs[q].attributes) == at[q])


@contract("C37", [M + ":compare_coords"], trials=150)
def coordinates_compared(c):
    """the coordinates that differ are those which are not on all fields with the same points, and where they stand"""
    np = c.np
    n = c.choice("cubes", [2, 3])
    hs = [c.choice("height %d" % q, [1.0, 2.0, None]) for q in range(n)]
    ignore = c.choice("ignore", [None, ["height"], ["realization"]])
    ms = [c.choice("members %d" % q, [0, 3]) for q in range(2)] + [0]
    cs = []
    for q in range(n):
        y, x = yx(c, 2, 3)
        aux = [] if hs[q] is None else [(dimcoord(c, "height", [hs[q]], "m"), None)]
        aux.append((c.iris.coords.AuxCoord(np.array([5.0 + ms[q], 6.0], dtype=np.float32), long_name="label"), 1))
        r = dimcoord(c, "realization", [ms[q], ms[q] + 1], "1", dtype="int32")
        cs.append(cube(c, np.zeros((2, 2, 3), dtype=np.float32), "air_temperature", "K", [r, y, x], aux))
    got = c.fn(M + ":compare_coords")(cs, ignored_coords=ignore)
    ignore = ignore or []
    c.check("alone", c.fn(M + ":compare_coords")(cs[:1]) == [])
    want = [{} for _ in cs]
    for q in range(n):
        if len(set(hs)) > 1 and hs[q] is not None and "height" not in ignore:
            want[q]["height"] = (None, None)
        if len(set(ms[:n])) > 1:
            if "realization" not in ignore:
                want[q]["realization"] = (0, None)
            want[q]["label"] = (None, 1)
    c.check("coordinates", [{k: (v["data_dims"], v["aux_dims"]) for k, v in g.items()} for g in got] == want)
    for q, g in enumerate(got):
        for k, v in g.items():
            c.check("which", v["coord"] == cs[q].coord(k))


@contract("C37", [M + ":MergeCubes.process", M + ":MergeCubes._equalise_cell_methods", M + ":MergeCubes._check_time_bounds_ranges",
                  M + ":strip_var_names", M + ":MergeCubes.__init__"], trials=200, budget=120)
def cubes_merged(c):
    """merged fields hold every input's values at its own place along the new dimension, whatever the order given; attributes and cell
    methods that differ go; a lone field comes back as it was; periods of unlike length are refused on request; inputs keep all"""
    np = c.np
    ny, nx = c.dim("ny"), c.dim("nx")
    n = c.choice("cubes", [1, 2, 3])
    order = {1: [0], 2: [1, 0], 3: [2, 0, 1]}[n] if c.flag("shuffled") else list(range(n))
    bounds = c.choice("periods", ["none", "equal", "unlike"])
    ask = c.flag("check periods")
    members, cms = c.choice("members and cell methods", [(False, "same"), (True, "some"), (False, "none"), (False, "some")])
    shape = (2, ny, nx) if members else (ny, nx)
    ds = [c.array("d%d" % q, shape, lo=-10, hi=10) for q in range(n)]
    cm = [c.iris.coords.CellMethod("maximum", coords="time"), c.iris.coords.CellMethod("mean", coords="area")]
    cubes = []
    for q in range(n):
        t = 1510286400 + 3600 * q
        b = {"none": None, "equal": [t - 3600, t], "unlike": [t - 3600 * (q + 1), t]}[bounds]
        D = c.iris.coords.DimCoord
        y, x = yx(c, ny, nx)
        fp = t - 1510286400 + 7200
        tc = [(D(np.array(t, dtype=np.int64), standard_name="time", units=EPOCH, bounds=None if b is None else np.array(b, dtype=np.int64)), None),
              (D(np.array(1510286400 - 7200, dtype=np.int64), standard_name="forecast_reference_time", units=EPOCH), None),
              (D(np.array(fp, dtype=np.int32), standard_name="forecast_period", units="seconds",
                 bounds=None if b is None else np.array([v - 1510286400 + 7200 for v in b], dtype=np.int32)), None)]
        cu = cube(c, ds[q].copy(), "air_temperature", "K", ([realization(c, 2)] if members else []) + [y, x], tc,
                  attributes={"source": "here", "history": "run %d" % q})
        cu.var_name = "v%d" % q
        cu.coord("time").var_name = "t"
        cu.cell_methods = {"same": tuple(cm), "some": tuple(cm[:1 + (q == 0)]), "none": ()}[cms]
        cubes.append(cu)
    given = [cubes[q] for q in order]
    merge = c.mod(M).MergeCubes()
    c.check("one field", merge(cubes[0]) is cubes[0])
    bad, r = c.raises(ValueError, lambda: merge(c.iris.cube.CubeList(given), check_time_bounds_ranges=ask))
    c.check("periods", bad == (ask and bounds == "unlike" and n > 1))
    for q in range(n):
        c.check("inputs", dict(cubes[q].attributes) == {"source": "here", "history": "run %d" % q} and cubes[q].var_name == "v%d" % q
                and cubes[q].coord("time").var_name == "t" and len(cubes[q].cell_methods) == {"same": 2, "some": 1 + (q == 0), "none": 0}[cms])
    if bad:
        return
    if n == 1:
        c.check("alone", r is cubes[0])
        return
    c.check("shape", c.same_shape(r.data, (n,) + shape))
    c.check("described", r.name() == "air_temperature" and str(r.units) == "K" and dict(r.attributes) == {"source": "here"}
            and r.var_name is None and r.coord("time").var_name is None)
    c.check("cell methods", set(r.cell_methods) == set({"same": cm, "some": cm[:1], "none": []}[cms]))
    at = c.index("cell", (ny, nx))
    c.check("times", r.coord_dims("time") == (0,) and r.coord_dims("forecast_period") == (0,))
    for q in range(n):
        c.check("own time", c.eq(c.at(r.coord("time").points, q), 1510286400 + 3600 * q))
        c.check("own lead time", c.eq(c.at(r.coord("forecast_period").points, q), 3600 * q + 7200))
        if bounds != "none":
            c.check("own period", c.and_(c.eq(c.at(r.coord("time").bounds, q, 0), 1510286400 + (3600 * (q - 1) if bounds == "equal" else -3600)),
                                         c.eq(c.at(r.coord("time").bounds, q, 1), 1510286400 + 3600 * q)))
        for m in (range(2) if members else (None,)):
            k = ((m,) if members else ()) + tuple(at)
            c.check("values", c.eq(c.at(r.data, q, *k), c.at(ds[q], *k)))
