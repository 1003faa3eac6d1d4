"""C23: inverted and between-threshold probabilities."""
from vc import contract
from contracts._cubes import field, threshold_coord

P = "improver.utilities.probability_manipulation"
B = "improver.between_thresholds"
INV = {"greater_than": "less_than_or_equal_to", "greater_than_or_equal_to": "less_than",
       "less_than": "greater_than_or_equal_to", "less_than_or_equal_to": "greater_than"}


def _prob(c, d, rel, thr, name="air_temperature", units="K"):
    word = "above" if rel.startswith("greater") else "below"
    return field(c, d, "probability_of_%s_%s_threshold" % (name, word), "1",
                 lead=[threshold_coord(c, thr, name=name, units=units, rel=rel)])


@contract("C23", P + ":invert_probabilities", trials=80)
def invert(c):
    """one minus each probability, the opposite comparison in name and threshold attribute, missing points kept; inverting
    twice restores the cube; the input is not altered"""
    ny, nx = c.dim("ny"), c.dim("nx")
    rel = c.choice("comparison", sorted(INV))
    name = c.choice("diagnostic", ["air_temperature", "cloud_base_height_above_surface", "depth_below_surface"])
    d = c.array("d", (2, ny, nx), dtype="float32", lo=0, hi=1, mask=True)
    cube = _prob(c, d.copy(), rel, [270, 280], name, "K" if name == "air_temperature" else "m")
    f = c.fn(P + ":invert_probabilities")
    r = f(cube)
    back = f(r)
    i = c.index("point", (2, ny, nx))
    m = c.masked(d, *i)
    x = c.at(d, *i)
    at = lambda q: q.coord(var_name="threshold").attributes["spp__relative_to_threshold"]
    c.check("missing kept", c.and_(c.iff(c.masked(r.data, *i), m), c.iff(c.masked(back.data, *i), m)))
    c.check("complement", c.implies(c.not_(m), c.near(c.at(r.data, *i), 1 - x, 1e-6)))
    c.check("restored", c.implies(c.not_(m), c.near(c.at(back.data, *i), x, 1e-6)))
    c.check("comparison", at(r) == INV[rel] and at(back) == rel)
    w = "below" if rel.startswith("greater") else "above"
    c.check("name", r.name() == "probability_of_%s_%s_threshold" % (name, w) and back.name() == cube.name())
    c.check("input kept", c.and_(at(cube) == rel, c.implies(c.not_(m), c.eq(c.at(cube.data, *i), x))))


@contract("C23", P + ":to_threshold_inequality", trials=60)
def to_inequality(c):
    """probabilities already in the requested sense are returned as they are, others inverted"""
    ny, nx = c.dim("ny"), c.dim("nx")
    rel = c.choice("comparison", sorted(INV))
    above = c.flag("above")
    d = c.array("d", (2, ny, nx), dtype="float32", lo=0, hi=1)
    cube = _prob(c, d.copy(), rel, [270, 280])
    r = c.fn(P + ":to_threshold_inequality")(cube, above=bool(above))
    i = c.index("point", (2, ny, nx))
    same = rel.startswith("greater") == bool(above)
    x = c.at(d, *i)
    c.check("value", c.near(c.at(r.data, *i), x if same else 1 - x, 1e-6))
    c.check("comparison", r.coord(var_name="threshold").attributes["spp__relative_to_threshold"] == (rel if same else INV[rel]))


@contract("C23", P + ":comparison_operator_dict", trials=10)
def comparison_table(c):
    """every spelling of a comparison has that comparison's function, and inverting it is its negation for every pair"""
    d = c.fn(P + ":comparison_operator_dict")()
    a, b = c.real("a", -10, 10), c.real("b", -10, 10)
    if not c.symbolic and c.flag("equal"):
        b = a
    for k, fn in (("ge", lambda: a >= b), ("gt", lambda: a > b), ("le", lambda: a <= b), ("lt", lambda: a < b)):
        for s in (k, k.upper(), {"ge": ">=", "gt": ">", "le": "<=", "lt": "<"}[k]):
            v = d[s]
            c.check("function", c.iff(v.function(a, b), fn()))
            c.check("negation", c.iff(d[v.inverse].function(a, b), c.not_(fn())))
            c.check("name", v.spp_string == {"ge": "greater_than_or_equal_to", "gt": "greater_than",
                                             "le": "less_than_or_equal_to", "lt": "less_than"}[k])


@contract("C23", B + ":OccurrenceBetweenThresholds.process", trials=100)
def between(c):
    """the difference of the probabilities at the two ends of each range, with the range as threshold bounds, in the
    units of the input; never negative where probabilities are monotonic"""
    ny, nx = c.dim("ny"), c.dim("nx")
    rel = c.choice("comparison", sorted(INV))
    degc = c.flag("ranges in celsius")
    n = 4
    thr = [273.15, 275.15, 280.15, 285.15]
    d = c.array("d", (n, ny, nx), dtype="float32", lo=0, hi=1)
    ranges = c.choice("ranges", [((0, 1),), ((1, 3), (0, 2)), ((2, 3), (0, 1), (1, 2))])
    val = lambda k: float(thr[k] - 273.15) if degc else float(thr[k])
    cube = _prob(c, d.copy(), rel, thr)
    p = c.mod(B).OccurrenceBetweenThresholds([[val(a), val(b)] for a, b in ranges], "degC" if degc else "K")
    r = p.process(cube)
    c.check("name", r.name() == "probability_of_air_temperature_between_thresholds")
    t = r.coord(var_name="threshold")
    c.check("threshold", str(t.units) == "K" and t.attributes["spp__relative_to_threshold"] == "between_thresholds")
    order = sorted(range(len(ranges)), key=lambda k: ranges[k][1])
    i, j = c.index("point", (ny, nx))
    above = rel.startswith("greater")
    for pos, k in enumerate(order):
        lo, hi = ranges[k]
        x = c.at(r.data, pos, i, j) if len(ranges) > 1 else c.at(r.data, i, j)
        a, b = c.at(d, lo, i, j), c.at(d, hi, i, j)
        c.check("difference", c.near(x, a - b if above else b - a, 1e-6))
        c.check("bounds", c.and_(c.near(c.at(t.bounds, pos, 0), thr[lo], 1e-2), c.near(c.at(t.bounds, pos, 1), thr[hi], 1e-2),
                                 c.near(c.at(t.points, pos), thr[hi], 1e-2)))
    c.check("input kept", str(cube.coord(var_name="threshold").units) == "K" and "between" not in cube.name())


@contract("C23", B + ":OccurrenceBetweenThresholds.process", trials=20)
def between_refused(c):
    """a range whose ends are not both available, a range of no width and a cube that is no probability are refused"""
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (2, ny, nx), dtype="float32", lo=0, hi=1)
    cube = _prob(c, d, "greater_than", [273.15, 275.15])
    P = c.mod(B).OccurrenceBetweenThresholds
    c.check("missing end refused", c.raises(ValueError, lambda: P([[273.15, 279.15]], "K").process(cube))[0])
    c.check("no width refused", c.raises(ValueError, lambda: P([[273.15, 273.150001]], "K"))[0])
    e = c.array("e", (ny, nx), dtype="float32", lo=0, hi=1)
    c.check("no threshold refused", c.raises(ValueError, lambda: P([[273.15, 275.15]], "K").process(
        field(c, e, "air_temperature", "K")))[0])
