import operator
from vc import contract
from _cubes import cube, threshold_coord, time_coords, yx

T = "improver.categorical.decision_tree"
U = "improver.categorical.utilities"
M = "improver.categorical.modal_code"
OPS = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def _pname(d, rel="above"):
    return "probability_of_%s_%s_threshold" % (d, rel)


def _node(fields, pthr, cond, comb, yes, no, thr, rel="above", **k):
    """a decision node; thr follows the nesting of fields"""
    n = {"if_true": yes, "if_false": no, "probability_thresholds": pthr, "threshold_condition": cond,
         "condition_combination": comb, "diagnostic_fields": fields, "diagnostic_thresholds": thr,
         "diagnostic_conditions": [[rel for x in f if isinstance(x, str) and len(x) > 1] if isinstance(f, list) else rel for f in fields]}
    n.update(k)
    return n


def _leaves(n, first=1):
    return {"leaf%d" % k: {"leaf": first + k} for k in range(n)}


def _probs(c, d, name, T_, rel="above", units="m s-1", coord=None):
    ny, nx = d.shape[-2:]
    y, x = yx(c, ny, nx)
    tc = threshold_coord(c, T_, name=coord or name, units=units, rel="greater_than" if rel == "above" else "less_than")
    return cube(c, d, _pname(name, rel), "1", [tc, y, x], time_coords(c))


def _night(c, mask):
    """DayNightMask stands as any field of day (1) and night (0)"""
    def process(self, cu):
        r = cu.copy(data=mask)
        return r
    c.replace("improver.utilities.solar:DayNightMask.process", process)


def _follow(c, tree, node, test):
    """walk the tree from a node: [(condition, leaf or None)], in disjoint parts; test(name) -> (missing, outcome)"""
    if "leaf" in tree[node]:
        return [(True, tree[node]["leaf"])]
    gone, yes = test(node)
    parts = [(gone, None)] if gone is not False else []
    ok = c.not_(gone)
    for branch, cond in (("if_true", yes), ("if_false", c.not_(yes))):
        parts += [(c.and_(ok, cond, p), leaf) for p, leaf in _follow(c, tree, tree[node][branch], test)]
    return parts


@contract("C21", [T + ":ApplyDecisionTree.process", T + ":ApplyDecisionTree.find_all_routes",
                  T + ":ApplyDecisionTree.invert_condition", T + ":ApplyDecisionTree.evaluate_condition_chain",
                  T + ":ApplyDecisionTree.create_condition_chain", T + ":ApplyDecisionTree.compare_array_to_threshold",
                  T + ":ApplyDecisionTree.prepare_input_cubes", T + ":ApplyDecisionTree.create_categorical_cube"],
          trials=120, budget=200, max_paths=2000)
def tree_followed(c):
    """every point gets the category of the leaf reached by answering the tree's questions from its root; a point is missing exactly
    when a question asked of it cannot be answered"""
    ny, nx = c.dim("ny"), c.dim("nx")
    cond = c.choice("condition", list(OPS))
    comb = c.choice("combination", ["AND", "OR"])
    masked = c.choice("masked", [None, "a", "b"])
    shape = c.choice("tree", ["shared leaf", "chain", "same destination", "diamond"])
    tiny = c.choice("thresholds", [1, 1e-9])   # rates in m s-1 are tiny
    a = c.array("a", (2, ny, nx), dtype="float32", lo=0, hi=1)
    b = c.array("b", (1, ny, nx), dtype="float32", lo=0, hi=1)
    p1, p2, p3 = 0.5, 0.25, 0.75
    A, B = _pname("rainfall_rate"), _pname("hail_rate", "below")
    two = _node([A, B], [p1, p2], cond, comb, "one", "leaf2", [[2 * tiny, "m s-1"], [5, "m s-1"]])
    two["diagnostic_conditions"] = ["above", "below"]
    one = _node([A], [p3], "<", "", "leaf0", "leaf1", [[1 * tiny, "m s-1"]])
    last = _node([B], [p1], ">=", "", "leaf0", "leaf3", [[5, "m s-1"]], rel="below")
    tree = {"meta": {"name": "weather_code"}, "two": two, "one": one, "last": last}
    if shape == "shared leaf":
        two["if_false"] = "last"
    elif shape == "chain":
        one["if_false"] = "last"
    elif shape == "same destination":
        two["if_true"], two["if_false"], one["if_true"] = "one", "one", "last"
    else:
        one["if_true"], two["if_false"] = "last", "last"
    tree.update(_leaves(4))
    m = c.array("mask", (ny, nx), dtype="bool") if masked else None
    din = {"a": a, "b": b}
    if masked:
        mm = c.from_fn(din[masked].shape, lambda k, i, j: c.at(m, i, j), "bool")
        din[masked] = c.masked_array(din[masked].copy(), mm)
    _night(c, c.array("night", (ny, nx), dtype="int32", lo=0, hi=1))
    cubes = [_probs(c, din["a"], "rainfall_rate", [1 * tiny, 2 * tiny]), _probs(c, din["b"], "hail_rate", [5], "below")]
    i, j = c.index("point", (ny, nx))
    for k in range(2):
        c.use_index(k, i, j)
    c.use_index(i, j)
    r = c.mod(T).ApplyDecisionTree(tree, title="Codes").process(c.iris.cube.CubeList(cubes))
    c.check("shape", c.same_shape(r.data, (ny, nx)))
    c.check("metadata", r.name() == "weather_code" and r.attributes["title"] == "Codes"
            and [int(v) for v in r.attributes["weather_code"]] == [1, 2, 3, 4]
            and r.attributes["weather_code_meaning"] == "leaf0 leaf1 leaf2 leaf3" and not r.coords(var_name="threshold"))
    f = OPS[cond]
    a2, a1, b0 = c.at(a, 1, i, j), c.at(a, 0, i, j), c.at(b, 0, i, j)
    mp = c.at(m, i, j) if masked else False

    def test(node):
        if node == "two":
            x, y = f(a2, p1), f(b0, p2)
            return mp, (c.and_ if comb == "AND" else c.or_)(x, y)
        if node == "one":
            return (mp if masked == "a" else False), a1 < p3
        return (mp if masked == "b" else False), b0 >= p1
    got, gone = c.at(c.np.ma.getdata(r.data), i, j), c.masked(r.data, i, j)
    if shape == "same destination":   # a question whose answer does not matter is not asked
        parts = _follow(c, tree, "one", test)
    else:
        parts = _follow(c, tree, "two", test)
    for p, leaf in parts:
        c.check("reached", c.implies(p, gone if leaf is None else c.and_(c.not_(gone), c.eq(got, leaf))))


@contract("C21", [T + ":ApplyDecisionTree.evaluate_extract_expression", T + ":ApplyDecisionTree.construct_extract_constraint",
                  U + ":is_variable", U + ":get_parameter_names", U + ":expand_nested_lists"], trials=120, budget=150)
def expressions(c):
    """a question may combine fields arithmetically, with the usual precedence, and may be asked of thresholds given in other units or
    for another period"""
    ny, nx = c.dim("ny"), c.dim("nx")
    A, B, D = (_pname(n) for n in ("rainfall_rate", "sleet_rate", "snow_rate"))
    a, b, d = (c.array(n, (2, ny, nx), dtype="float32", lo=0, hi=1) for n in "abd")
    ex = c.choice("expression", [[A, "-", B, "+", D], [A, "+", B, "-", D], [A, "-", B, "-", D], [A, "-", B, "*", 2.0, "-", D],
                                 [A, "*", 0.5, "+", B, "*", D], [A, "/", 2.0, "-", B, "/", 4.0, "+", D], [A, "-", B]])
    names = [x for x in ex if isinstance(x, str) and len(x) > 1]
    units, scale = c.choice("units", [("m s-1", 1.0), ("mm s-1", 1000.0)])
    period = c.choice("period", [None, 3600])
    use = c.choice("threshold", [0, 1])
    thr = [[3.0 if use else 0.0, "m s-1"] for n in names]
    if period:
        thr = [[t / 3.0, u, period] for t, u in thr]
    tree = {"meta": {"name": "weather_code"}, "q": _node([ex], [0.5], ">", "", "leaf0", "leaf1", [thr])}
    tree.update(_leaves(2, 7))
    _night(c, c.array("night", (ny, nx), dtype="int32", lo=0, hi=1))
    cubes = [_probs(c, q, n, [0.0, 3.0 * scale], units=units)
             for q, n in ((a, "rainfall_rate"), (b, "sleet_rate"), (d, "snow_rate"))]
    i, j = c.index("point", (ny, nx))
    c.use_index(use, i, j)
    c.use_index(i, j)
    r = c.mod(T).ApplyDecisionTree(tree, target_period=10800 if period else None).process(c.iris.cube.CubeList(cubes))
    va, vb, vd = (c.at(q, use, i, j) for q in (a, b, d))
    k = ["".join({A: "A", B: "B", D: "D"}.get(x, str(x)) for x in ex)][0]
    want = {"A-B+D": va - vb + vd, "A+B-D": va + vb - vd, "A-B-D": va - vb - vd, "A-B*2.0-D": va - vb * 2 - vd,
            "A*0.5+B*D": va / 2 + vb * vd, "A/2.0-B/4.0+D": va / 2 - vb / 4 + vd, "A-B": va - vb}[k]
    got = c.at(c.np.ma.getdata(r.data), i, j)
    c.check("yes", c.implies(want > 0.50001, c.eq(got, 7)))
    c.check("no", c.implies(want < 0.49999, c.eq(got, 8)))


@contract("C21", [T + ":ApplyDecisionTree.remove_optional_missing", T + ":ApplyDecisionTree.prepare_input_cubes"], trials=150, max_paths=2000,
          budget=150)
def optional_missing(c):
    """questions whose diagnostics are absent are passed over in the direction they name; absent required diagnostics are refused;
    what was absent last time does not matter"""
    ny, nx = c.dim("ny"), c.dim("nx")
    names = ["lightning_rate", "hail_rate", "cloud_rate"]
    have = c.choice("present", [(0, 1, 2), (1, 2), (0, 2), (2,), (0, 1)])
    ways = [c.choice("way %d" % k, ["if_true", "if_false"]) for k in range(2)]
    order = c.choice("order", [("l", "h", "q"), ("l", "q", "h")])
    nodes = {"l": _node([_pname(names[0])], [0.5], ">=", "", "leaf0", "h", [[1, "m s-1"]], if_diagnostic_missing=ways[0]),
             "h": _node([_pname(names[1])], [0.5], "<", "", "q", "leaf1", [[1, "m s-1"]], if_diagnostic_missing=ways[1]),
             "q": _node([_pname(names[2])], [0.5], ">", "", "leaf2", "leaf3", [[1, "m s-1"]])}
    nodes["h"]["if_true"] = "q"
    nodes["l"]["if_true"] = c.choice("other way", ["leaf0", "q"])
    tree = {"meta": {"name": "weather_code"}}
    for n in order:
        tree[n] = nodes[n]
    tree.update(_leaves(4))
    data = [c.array("d%d" % k, (1, ny, nx), dtype="float32", lo=0, hi=1) for k in range(3)]
    _night(c, c.array("night", (ny, nx), dtype="int32", lo=0, hi=1))
    cubes = [_probs(c, data[k], names[k], [1]) for k in range(3)]
    L = c.iris.cube.CubeList
    P = c.mod(T).ApplyDecisionTree(tree)
    again = len(have) > 2 and c.flag("used before")
    if again:
        P.process(L([cubes[2]]))
    bad, r = c.raises(IOError, lambda: P.process(L([cubes[k] for k in have])))
    c.check("refused", bad == (2 not in have))
    if bad:
        return
    i, j = c.index("point", (ny, nx))
    v = [c.at(d, 0, i, j) for d in data]
    asked = {"l": (0, v[0] >= 0.5), "h": (1, v[1] < 0.5), "q": (2, v[2] > 0.5)}

    def go(node):
        if "leaf" in tree[node]:
            return tree[node]["leaf"]
        k, yes = asked[node]
        if k not in have:
            return go(tree[node][ways[k]])
        return c.ite(yes, go(tree[node]["if_true"]), go(tree[node]["if_false"]))
    c.check("category", c.not_(c.masked(r.data, i, j)))
    c.check("followed", c.eq(c.at(c.np.ma.getdata(r.data), i, j), go("l")))


@contract("C21", [T + ":ApplyDecisionTree.process", U + ":update_daynight", U + ":day_night_map"], trials=80, budget=100)
def deterministic_and_night(c):
    """deterministic fields are compared themselves; where it is night the category is its night form, elsewhere it is left alone"""
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (ny, nx), dtype="float32", lo=0, hi=1)
    nan = c.array("gone", (ny, nx), dtype="bool") if c.flag("nan") else None
    tree = {"meta": {"name": "weather_code"},
            "q": {"if_true": "s", "if_false": "leaf2", "thresholds": [0.3], "threshold_condition": ">=", "condition_combination": "",
                  "diagnostic_fields": ["cloud_rate"], "deterministic": True},
            "s": {"if_true": "leaf1", "if_false": "leaf2", "thresholds": [0.6], "threshold_condition": "<", "condition_combination": "",
                  "diagnostic_fields": ["cloud_rate"], "deterministic": True},
            "leaf0": {"leaf": 0, "is_unreachable": True}, "leaf1": {"leaf": 1, "if_night": "leaf0"}, "leaf2": {"leaf": 2},
            "leaf3": {"leaf": 3, "if_night": "leaf2", "is_unreachable": True}}
    y, x = yx(c, ny, nx)
    day = c.array("day", (ny, nx), dtype="int32", lo=0, hi=1)
    _night(c, day)
    din = d if nan is None else c.np.where(nan, c.np.float32(c.np.nan), d)
    r = c.mod(T).ApplyDecisionTree(tree).process(cube(c, din, "cloud_rate", "1", [y, x], time_coords(c)))
    i, j = c.index("point", (ny, nx))
    v = c.at(d, i, j)
    gone = c.at(nan, i, j) if nan is not None else False
    want = c.ite(c.and_(v >= 0.3, v < 0.6), c.at(day, i, j), 2)
    near = c.or_(c.and_(v > 0.29999, v < 0.30001), c.and_(v > 0.59999, v < 0.60001))
    c.check("missing", c.iff(c.masked(r.data, i, j), gone))
    c.check("category", c.or_(gone, near, c.eq(c.at(c.np.ma.getdata(r.data), i, j), want)))


@contract("C21", [T + ":ApplyDecisionTree.check_coincidence", T + ":ApplyDecisionTree._set_reference_time"], trials=60)
def times(c):
    """inputs valid at different times or over different periods are refused; the result's reference time is the latest"""
    ny, nx = c.dim("ny"), c.dim("nx")
    t0 = 1510286400
    kind = c.choice("kind", ["good", "time", "period", "target", "no bounds"])
    order = c.flag("swapped")
    odd = c.choice("which differs", [1, 2]) if kind in ("time", "period") else 1
    d = [c.array("d%d" % k, (1, ny, nx), dtype="float32", lo=0, hi=1) for k in range(3)]
    names = ["rainfall_rate", "hail_rate", "snow_rate"]
    tree = {"meta": {"name": "weather_code"},
            "a": _node([_pname(names[0])], [0.5], ">=", "", "leaf0", "b", [[1, "m s-1"]]),
            "b": _node([_pname(names[1])], [0.5], ">=", "", "leaf1", "d", [[1, "m s-1"]]),
            "d": _node([_pname(names[2])], [0.5], ">=", "", "leaf1", "leaf2", [[1, "m s-1"]])}
    tree.update(_leaves(3))
    _night(c, c.array("night", (ny, nx), dtype="int32", lo=0, hi=1))
    cubes = []
    for k in range(3):
        y, x = yx(c, ny, nx)
        end = t0 + (3600 if kind == "time" and k == odd else 0)
        per = 7200 if kind == "period" and k == odd else 3600
        tc = time_coords(c, end, t0 - 3600 * (5 - k), bounds=None if kind == "no bounds" or (kind == "good" and k) else [end - per, end])
        cubes.append(cube(c, d[k], _pname(names[k]), "1", [threshold_coord(c, [1], name=names[k], units="m s-1"), y, x], tc))
    if order:
        cubes = cubes[::-1]
    P = c.mod(T).ApplyDecisionTree(tree, target_period=3 * 3600 if kind == "target" else None)
    bad, r = c.raises(ValueError, lambda: P.process(c.iris.cube.CubeList(cubes)))
    c.check("refused", bad == (kind in ("time", "period", "target")))
    if bad:
        return
    c.check("times", int(r.coord("time").points[0]) == t0 and int(r.coord("forecast_reference_time").points[0]) == t0 - 3 * 3600
            and int(r.coord("forecast_period").points[0]) == 3 * 3600)
    if kind == "good":
        c.check("period", [int(v) for v in r.coord("time").bounds[0]] == [t0 - 3600, t0])
        c.check("lead times", [int(v) for v in r.coord("forecast_period").bounds[0]] == [2 * 3600, 3 * 3600])


def _counts(c, vals):
    return [sum((c.ite(c.eq(w, v), 1, 0) for w in vals), 0) for v in vals]


def _mode(c, vals):
    """the commonest value, the largest of those as common, and how common it is"""
    n = _counts(c, vals)
    best, num = vals[0], n[0]
    for v, k in zip(vals[1:], n[1:]):
        better = c.or_(k > num, c.and_(c.eq(k, num), v > best))
        best, num = c.ite(better, v, best), c.ite(better, k, num)
    return best, num


CODES = {"meta": {"name": "weather_code"}, "l0": {"leaf": 0, "is_unreachable": True}, "l1": {"leaf": 1, "if_night": "l0"},
         "l2": {"leaf": 2, "if_night": "l3"}, "l3": {"leaf": 3, "is_unreachable": True}, "l4": {"leaf": 4, "group": "rain"},
         "l5": {"leaf": 5, "group": "rain"}, "l6": {"leaf": 6}}


def _codes(c, d, k, t0, period=3600, frt=None):
    ny, nx = d.shape[-2:]
    y, x = yx(c, ny, nx)
    end = t0 + 3600 * (k + 1)
    q = cube(c, d, "weather_code", "1", [y, x], time_coords(c, end, frt or t0, bounds=[end - period, end]))
    q.attributes["weather_code"] = c.np.array([0, 1, 2, 3, 4, 5, 6], dtype=c.np.int32)
    return q


@contract("C21", [M + ":ModalCategory.process", M + ":ModalCategory.mode_aggregator", M + ":ModalCategory._unify_day_and_night",
                  M + ":ModalCategory._set_blended_times"], trials=80, budget=150)
def modal(c):
    """the category of a period is the commonest of its day forms, the most significant of those as common; its period is the whole"""
    ny, nx = c.dim("ny"), c.dim("nx")
    n = c.choice("times", [1, 2, 3])
    t0 = 1510286400
    data = [c.array("d%d" % k, (ny, nx), dtype="int32", lo=0, hi=6) for k in range(n)]
    r = c.mod(M).ModalCategory(CODES).process(c.iris.cube.CubeList([_codes(c, d, k, t0) for k, d in enumerate(data)]))
    c.check("shape", c.same_shape(r.data, (ny, nx)))
    i, j = c.index("point", (ny, nx))
    vals = [c.at(d, i, j) for d in data]
    day = [c.ite(c.eq(v, 0), 1, c.ite(c.eq(v, 3), 2, v)) for v in vals]
    best, num = _mode(c, day)
    c.check("mode", c.eq(c.at(r.data, i, j), best))
    t = r.coord("time")
    c.check("period", [int(v) for v in t.bounds[0]] == [t0, t0 + 3600 * n] and int(t.points[0]) == t0 + 3600 * n)
    fp = r.coord("forecast_period")
    c.check("lead time", int(fp.points[0]) == 3600 * n and [int(v) for v in fp.bounds[0]] == [0, 3600 * n])


@contract("C21", [M + ":ModalCategory._group_codes", M + ":ModalCategory._code_groups", M + ":ModalCategory.mode_aggregator"], trials=80,
          budget=150)
def modal_grouped(c):
    """when no category makes up three tenths of the period, the members of a group count together as the least of them present"""
    n = c.choice("times", [4, 7])
    t0 = 1510286400
    pool = c.choice("codes", [(1, 2, 4, 5, 6), (1, 2, 2, 1, 6, 6, 4), (4, 5, 1, 1, 2, 2, 6), (5, 1, 2, 6)])
    data = []
    for k in range(n):
        one, other = pool[k % len(pool)], pool[(k + (n == 4)) % len(pool)]
        w = c.array("which%d" % k, (1, 1), dtype="bool")
        data.append(c.np.where(w, c.np.int32(one), c.np.int32(other)))
    r = c.mod(M).ModalCategory(CODES).process(c.iris.cube.CubeList([_codes(c, d, k, t0) for k, d in enumerate(data)]))
    vals = [c.ite(c.eq(c.at(d, 0, 0), 3), 2, c.at(d, 0, 0)) for d in data]
    best, num = _mode(c, vals)
    least = c.ite(c.or_(*[c.eq(v, 4) for v in vals]), 4, 5)
    grouped = [c.ite(c.eq(v, 5), least, v) for v in vals]
    gbest, _ = _mode(c, grouped)
    c.check("category", c.eq(c.at(r.data, 0, 0), c.ite(num * 10 < 3 * n, gbest, best)))
