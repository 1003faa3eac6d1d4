from vc import contract
from _cubes import cube, field, realization, threshold_coord, time_coords, yx

R = "improver.utilities.forecast_reference_enforcement"

TINY = 1e-30


@contract("C27", [R + ":EnforceConsistentForecasts.process", R + ":EnforceConsistentForecasts.calculate_bound"], trials=200, budget=150, max_paths=2000)
def enforced(c):
    """forecasts within the bounds are left as they are, others take the nearest bound: multiplier times reference plus addition, in the
    forecast's units; the reference is not altered"""
    ny, nx = c.dim("ny"), c.dim("nx")
    lead = c.flag("realizations")
    sh = ((2,) if lead else ()) + (ny, nx)
    op = c.choice("operator", [">=", "<=", [">=", "<="], ["<=", ">="], "=", [">=", ">="], "mixed"])
    units, off = c.choice("units", [("K", 0.0), ("celsius", 273.15), ("m", None)])
    two = isinstance(op, list) or op == "mixed"
    add = [c.real("add0", lo=-4, hi=4), c.real("add1", lo=-4, hi=4)]
    mul = [c.real("mul0", lo=-2, hi=2), c.real("mul1", lo=-2, hi=2)]
    d = c.array("forecast", sh, dtype="float32", lo=250, hi=300)
    ref = c.array("reference", sh, dtype="float32", lo=-30, hi=30)
    mask = c.array("mask", sh, dtype="bool") if c.flag("masked") else None
    din = d.copy() if mask is None else c.masked_array(d.copy(), mask)
    L = [realization(c, 2)] if lead else []
    f = field(c, din, "air_temperature", "K", lead=L)
    r = field(c, ref.copy(), "dew_point_temperature", units, lead=L)
    p = ((c.choice("member", [0, 1]),) if lead else ()) + tuple(c.index("point", (ny, nx)))
    c.use_index(*p)
    P = c.mod(R).EnforceConsistentForecasts(additive_amount=add if two else add[0], multiplicative_amount=mul if two else mul[0],
                                            comparison_operator=">=" if op == "mixed" else op)
    bad, out = c.raises(ValueError, lambda: P.process(f, r))
    wrong = op in ("=", "mixed") or op == [">=", ">="] or units == "m"
    k = c.at(ref, *p) + (off or 0)
    b0, b1 = mul[0] * k + add[0], mul[1] * k + add[1]
    if two and op == ["<=", ">="]:
        b0, b1 = b1, b0
    if wrong:
        c.check("refused", bad)
        return
    if bad:
        c.check("only contradictory bounds", two)
        return
    if two:
        c.check("bounds in order", b0 <= b1 + 1e-3)
    v = c.at(d, *p)
    if two or op == ">=":
        w = c.ite(v < b0, b0, v)
        if two:
            w = c.ite(w > b1, b1, w)
    else:
        w = c.ite(v > b0, b0, v)
    c.check("shape", c.same_shape(out.data, sh))
    if mask is not None:
        c.check("missing", c.iff(c.masked(out.data, *p), c.at(mask, *p)))
        c.check("value", c.or_(c.at(mask, *p), c.near(c.at(c.np.ma.getdata(out.data), *p), w, 1e-2)))
    else:
        c.check("value", c.near(c.at(out.data, *p), w, 1e-2))
    c.check("name", out.name() == "air_temperature" and str(out.units) == "K")
    c.check("forecast left alone", c.eq(c.at(c.np.ma.getdata(f.data), *p), v))
    c.check("reference left alone", c.and_(c.eq(c.at(r.data, *p), c.at(ref, *p)), str(r.units) == units))


def _prob(c, d, n=2):
    y, x = yx(c, *d.shape[-2:])
    return cube(c, d, "probability_of_rainfall_rate_above_threshold", "1",
                [threshold_coord(c, list(range(1, n + 1)), "rainfall_rate", "m s-1"), y, x], time_coords(c))


@contract("C27", [R + ":EnforceConsistentForecasts.process"], trials=60)
def enforced_probabilities(c):
    """probabilities are bounded by the reference probability itself; changing it by a factor or an amount is refused"""
    ny, nx = c.dim("ny"), c.dim("nx")
    d, ref = (c.array(n, (2, ny, nx), dtype="float32", lo=0, hi=1) for n in ("forecast", "reference"))
    add, mul = c.choice("amounts", [(0.0, 1.0), (0.1, 1.0), (0.0, 1.1)])
    op = c.choice("operator", [">=", "<="])
    P = c.mod(R).EnforceConsistentForecasts(additive_amount=add, multiplicative_amount=mul, comparison_operator=op)
    bad, out = c.raises(ValueError, lambda: P.process(_prob(c, d.copy()), _prob(c, ref)))
    c.check("refused", bad == ((add, mul) != (0.0, 1.0)))
    if bad:
        return
    i, j = c.index("point", (ny, nx))
    for k in range(2):
        v, b = c.at(d, k, i, j), c.at(ref, k, i, j)
        c.check("bounded", c.near(c.at(out.data, k, i, j), c.ite((v < b) if op == ">=" else (v > b), b, v), 1e-6))


@contract("C27", [R + ":normalise_to_reference"], trials=120)
def normalised(c):
    """the parts share the reference in proportion to themselves, so they add up to it wherever they are not all zero; where they are,
    they stay zero if that is allowed and a non-zero reference is refused if not; inputs are not altered"""
    n = c.choice("parts", [1, 2, 3])
    ny, nx = c.dim("ny"), c.dim("nx")
    allow = c.flag("ignore zero total")
    other = c.flag("other grid")
    parts = [c.array("part%d" % k, (ny, nx), dtype="float32", lo=0, hi=8) for k in range(n)]
    if not c.symbolic:
        z = c.array("dry", (ny, nx), dtype="bool")
        parts = [c.np.where(z, c.np.float32(0), p) for p in parts]
    ref = c.array("reference", (ny, nx), dtype="float32", lo=0, hi=8)
    names = ["rainfall_rate", "snowfall_rate", "hail_rate"]
    cubes = [field(c, p.copy(), nm, "mm") for p, nm in zip(parts, names)]
    R_ = field(c, ref.copy(), "precipitation_rate", "mm")
    if other:
        R_.coord("projection_x_coordinate").points = R_.coord("projection_x_coordinate").points + 1
    c.use_index(0)
    bad, out = c.raises(ValueError, lambda: c.mod(R).normalise_to_reference(c.iris.cube.CubeList(cubes), R_, ignore_zero_total=allow))
    i, j = c.index("point", (ny, nx))
    vs, w = [c.at(p, i, j) for p in parts], c.at(ref, i, j)
    tot = sum(vs[1:], vs[0])
    if n < 2 or other:
        c.check("refused", bad)
        return
    if bad:
        c.check("refused for a zero total", not allow)
        return
    if not allow:
        c.check("zero total refused", c.or_(tot > 0, c.eq(w, 0)))
    got = [c.at(o.data, i, j) for o in out]
    for k in range(n):
        c.check("share", c.near(got[k] * tot, w * vs[k], 1e-4 * w * vs[k] + TINY))
        c.check("zero", c.implies(c.eq(tot, 0), c.eq(got[k], 0)))
        c.check("part left alone", c.eq(c.at(cubes[k].data, i, j), vs[k]))
        c.check("name", out[k].name() == names[k])
    c.check("sum", c.implies(tot > 0, c.near(sum(got[1:], got[0]), w, 1e-4 * w + TINY)))


@contract("C27", [R + ":split_cubes_by_name"], trials=40)
def split(c):
    """every input goes to exactly one side, in order: the named ones first"""
    names = [c.choice("name %d" % k, ["rainfall_rate", "snowfall_rate"]) for k in range(3)]
    want = c.choice("wanted", [None, "rainfall_rate", ["snowfall_rate", "other"], ["rainfall_rate", "snowfall_rate"], "rain"])
    ny, nx = c.dim("ny"), c.dim("nx")
    cubes = [field(c, c.array("d%d" % k, (ny, nx), dtype="float32"), nm, "mm") for k, nm in enumerate(names)]
    a, b = c.mod(R).split_cubes_by_name(c.iris.cube.CubeList(cubes), want)
    ok = (lambda n: True) if want is None else (lambda n: n in ([want] if isinstance(want, str) else want))
    ids = [[k for k, q in enumerate(cubes) if q is o] for o in list(a) + list(b)]
    c.check("sides", ids == [[k] for k in range(3) if ok(names[k])] + [[k] for k in range(3) if not ok(names[k])]
            and len(a) == sum(ok(n) for n in names))
