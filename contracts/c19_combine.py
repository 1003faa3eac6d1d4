from vc import contract
from _cubes import cube, field, realization, threshold_coord, time_coords, yx

K = "improver.cube_combiner"
OPS = ["add", "-", "*", "max", "min", "mean", "masked_add"]


def _want(c, op, vals):
    """the operation, from the first cube to the last"""
    w = vals[0]
    for v in vals[1:]:
        if op in ("add", "mean", "masked_add"):
            w = w + v
        elif op == "-":
            w = w - v
        elif op == "*":
            w = w * v
        else:
            w = c.ite((v > w) if op == "max" else (v < w), v, w)
    return w / len(vals) if op == "mean" else w


@contract("C19", [K + ":CubeCombiner.process", K + ":CubeCombiner._combine_cube_data", K + ":masked_add",
                  "improver.utilities.cube_manipulation:expand_bounds"], trials=120, budget=200, max_paths=1200)
def combined(c):
    """each point is the operation over that point of every cube, in their order; a point is missing when any input is (masked_add:
    when all are, missing points counting as nothing); the time period covers all of the inputs' and ends where they end"""
    op = c.choice("operation", OPS)
    n = c.choice("cubes", [2, 3])
    lead = c.flag("realizations")
    masked = c.flag("masked")
    ny, nx = c.dim("ny"), c.dim("nx")
    sh = ((2,) if lead else ()) + (ny, nx)
    order, bounded, expand = c.choice("times", [((0, 1, 2), True, True), ((1, 0, 2), True, True), ((0, 1, 0), False, True),
                                                ((0, 1, 2), True, False)])
    cubes, data, masks, t0 = [], [], {}, 1510286400
    names = ["rainfall_rate", "snowfall_rate", "hail_rate"]
    for k in range(n):
        d = c.array("d%d" % k, sh, dtype="float32", lo=-8, hi=8)
        data.append(d)
        din = d.copy()
        if masked and k != 1:
            m = c.array("m%d" % k, sh, dtype="bool")
            masks[k] = m
            din = c.masked_array(din, m)
        y, x = yx(c, ny, nx)
        end = t0 + 3600 * (order[k] + 1)
        tc = time_coords(c, end, t0, bounds=[end - 3600, end] if bounded else None)
        cubes.append(cube(c, din, names[k], "mm", ([realization(c, 2)] if lead else []) + [y, x], tc))
    i, j = c.index("point", (ny, nx))
    for h in range(2):
        c.use_index(h, i, j)
    c.use_index(i, j)
    P = c.mod(K).CubeCombiner(op, expand_bound=expand)
    r = P.process(c.iris.cube.CubeList(cubes), "total_rate")
    c.check("shape", c.same_shape(r.data, sh))
    c.check("name", r.name() == "total_rate" and str(r.units) == "mm")
    for p in ((0, i, j), (1, i, j)) if lead else ((i, j),):
        vals = [c.at(d, *p) for d in data]
        ms = {k: c.at(m, *p) for k, m in masks.items()}
        if op == "masked_add" and masked:
            gone = c.and_(*[ms.get(k, False) for k in range(n)])
            vals = [c.ite(ms[k], 0, v) if k in ms else v for k, v in enumerate(vals)]
        else:
            gone = c.or_(*ms.values()) if masked else False
        c.check("missing", c.iff(c.masked(r.data, *p), gone))
        c.check("value", c.or_(gone, c.near(c.at(c.np.ma.getdata(r.data), *p), _want(c, op, vals), 1e-3)))
        for k in range(n):
            c.check("input left alone", c.eq(c.at(c.np.ma.getdata(cubes[k].data), *p), c.at(data[k], *p)))
    ends = [t0 + 3600 * (order[k] + 1) for k in range(n)]
    t = r.coord("time")
    if op == "*" or not expand:
        c.check("time of the first", int(t.points[0]) == ends[0])
    else:
        lo = min(ends) - (3600 if bounded else 0)
        c.check("period", [int(v) for v in t.bounds[0]] == [lo, max(ends)] and int(t.points[0]) == max(ends))
        fp = r.coord("forecast_period")
        c.check("lead times", [int(v) for v in fp.bounds[0]] == [lo - t0, max(ends) - t0] and int(fp.points[0]) == max(ends) - t0)


def _probs(c, d, name, T, lead=None):
    ny, nx = d.shape[-2:]
    y, x = yx(c, ny, nx)
    dims = ([realization(c, lead)] if lead else []) + ([threshold_coord(c, T, name=name, units="m s-1")] if T else []) + [y, x]
    return cube(c, d, ("probability_of_%s_above_threshold" % name) if T else name, "1", dims, time_coords(c))


@contract("C19", [K + ":CubeCombiner.process", K + ":CubeCombiner._setup_coords_for_broadcast"], trials=80, budget=150)
def broadcast(c):
    """broadcasting over thresholds multiplies every threshold (and every member) by the second field; the plugin serves one
    diagnostic after another"""
    ny, nx = c.dim("ny"), c.dim("nx")
    T = [1, 2]
    members = c.choice("members", [(0, 0), (2, 2), (2, 1)])
    P = c.mod(K).CubeCombiner("multiply", broadcast="threshold")
    for name in ("rainfall_rate", "lwe_snowfall_rate") if c.flag("reused") else ("rainfall_rate",):
        m1, m2 = members
        a = c.array("a " + name, ((m1,) if m1 else ()) + (2, ny, nx), dtype="float32", lo=0, hi=1)
        b = c.array("b " + name, ((m2,) if m2 else ()) + (ny, nx), dtype="float32", lo=0, hi=1)
        r = P.process(c.iris.cube.CubeList([_probs(c, a, name, T, m1), _probs(c, b, "fraction", None, m2)]), "product")
        c.check("shape", c.same_shape(r.data, ((m1,) if m1 else ()) + (2, ny, nx)))
        c.check("name", r.name() == "probability_of_product_above_threshold" and r.coord(var_name="threshold").name() == "product")
        i, j = c.index("point " + name, (ny, nx))
        for k in range(2):
            for h in range(m1) if m1 else [None]:
                p = (k, i, j) if h is None else (h, k, i, j)
                q = (i, j) if h is None else (h if m2 > 1 else 0, i, j)
                c.check("product", c.near(c.at(r.data, *p), c.at(a, *p) * c.at(b, *q), 1e-5))


@contract("C19", [K + ":Combine.process", "improver.utilities.cube_manipulation:filter_realizations"], trials=80, budget=150)
def filtered(c):
    """with a minimum number of members, only members present at every time are combined, and fewer than the minimum is refused;
    the name is the first input's unless one is given, for every use of the plugin"""
    ny, nx = c.dim("ny"), c.dim("nx")
    have = [c.choice("members at time %d" % k, [(0, 1), (1, 2), (0, 1, 2)]) for k in range(2)]
    least = c.choice("minimum", [1, 2, 3])
    t0 = 1510286400
    cubes, data = c.iris.cube.CubeList([]), []
    for k in range(2):
        d = c.array("d%d" % k, (len(have[k]), ny, nx), dtype="float32", lo=-8, hi=8)
        data.append(d)
        y, x = yx(c, ny, nx)
        re = c.iris.coords.DimCoord(c.np.array(have[k], dtype=c.np.int32), standard_name="realization", units="1")
        cubes.append(cube(c, d, "rainfall_rate", "mm", [re, y, x], time_coords(c, t0 + 3600 * (k + 1), t0)))
    both = [h for h in have[0] if h in have[1]]
    P = c.mod(K).Combine("add", minimum_realizations=least, new_name=c.choice("name", [None, "total"]))
    bad, r = c.raises(ValueError, lambda: P.process(cubes))
    c.check("refused", bad == (len(both) < least))
    if bad:
        return
    c.check("name", r.name() == (P.new_name or "rainfall_rate"))
    pts = [int(v) for v in r.coord("realization").points]
    c.check("members", pts == both)
    i, j = c.index("point", (ny, nx))
    for q, h in enumerate(both):
        w = c.at(data[0], have[0].index(h), i, j) + c.at(data[1], have[1].index(h), i, j)
        c.check("sum", c.near(c.at(r.data, *((q, i, j) if len(both) > 1 else (i, j))), w, 1e-3))


@contract("C19", [K + ":Combine.process", K + ":CubeCombiner._check_dimensions_match"], trials=40)
def combine_inputs(c):
    """the default name follows each set of inputs; grids that differ, a single cube, unknown operations and a minimum below one are
    refused"""
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (ny, nx), dtype="float32", lo=-8, hi=8)
    kind = c.choice("kind", ["names", "grid", "single", "operation", "minimum", "cell method"])
    L = c.iris.cube.CubeList
    M = c.mod(K)

    def f(name="rainfall_rate", x0=0.0):
        y, x = yx(c, ny, nx, x0=x0)
        return cube(c, d.copy(), name, "mm", [y, x], time_coords(c))
    if kind == "names":
        P = M.Combine("add")
        for n in ("a_rate", "b_rate"):
            c.check("name", P.process(L([f(n), f("other_rate")])).name() == n)
        return
    if kind == "grid":
        c.use_index(0)
        bad = c.raises(ValueError, lambda: M.Combine("add").process(L([f(), f(x0=500.0)])))[0]
    elif kind == "single":
        bad = c.raises(ValueError, lambda: M.Combine("add").process(L([f()])))[0]
    elif kind == "operation":
        bad = c.raises(ValueError, lambda: M.Combine("divide"))[0]
    elif kind == "minimum":
        bad = c.raises(ValueError, lambda: M.Combine("add", minimum_realizations=0).process(L([f(), f()])))[0]
    else:
        bad = c.raises(ValueError, lambda: M.Combine("add", cell_method_coordinate="time").process(L([f(), f()])))[0]
    c.check("refused", bad)


@contract("C19", K + ":MaxInTimeWindow.process", trials=60)
def window_maximum(c):
    """the maximum over the periods; the window spans them all; inputs without periods or with periods of different lengths are
    refused"""
    ny, nx = c.dim("ny"), c.dim("nx")
    t0 = 1510286400
    kind = c.choice("kind", ["good", "no period", "one without", "lengths"])
    n = c.choice("periods", [2, 3])
    cubes, data = c.iris.cube.CubeList([]), []
    for k in range(n):
        d = c.array("d%d" % k, (ny, nx), dtype="float32", lo=0, hi=8)
        data.append(d)
        e = t0 + 10800 * (k + 1)
        b = [e - 10800, e]
        if kind == "no period" or kind == "one without" and k == 1:
            b = None
        elif kind == "lengths" and k == n - 1:
            b[0] -= 3600
        cubes.append(field(c, d, "rainfall_rate", "mm", aux=time_coords(c, e, t0, bounds=b), time=False))
    bad, r = c.raises(ValueError, lambda: c.mod(K).MaxInTimeWindow().process(cubes))
    c.check("refused", bad == (kind != "good"))
    if bad:
        return
    i, j = c.index("point", (ny, nx))
    c.check("maximum", c.near(c.at(r.data, i, j), _want(c, "max", [c.at(d, i, j) for d in data]), 1e-5))
    c.check("window", [int(v) for v in r.coord("time").bounds[0]] == [t0, t0 + 10800 * n])
    cm = r.cell_methods
    c.check("recorded", [m.method for m in cm] == ["sum", "maximum"] and "3 hours" in cm[0].comments[0])
