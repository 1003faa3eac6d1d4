from vc import contract
from _cubes import cube, dimcoord, field, realization, threshold_coord, yx

X = "improver.expected_value"


@contract("C30", [X + ":ExpectedValue.process", X + ":ExpectedValue.integrate_over_thresholds"], trials=150, budget=150)
def from_probabilities(c):
    """the expected value is the sum, over the intervals between thresholds, of the probability of the interval times its middle (the
    lowest and highest thresholds standing for all below and above them); probabilities that do not rise with the threshold are
    refused"""
    np = c.np
    ths = c.choice("thresholds", [[270.0, 272.0, 280.0], [-1.0, 0.0], [5.0]])
    n = len(ths)
    rel = c.choice("relation", ["less_than", "greater_than", "less_than_or_equal_to", "greater_than_or_equal_to"])
    below = rel.startswith("less")
    ny, nx = c.dim("ny"), c.dim("nx")
    last = n > 1 and c.flag("thresholds last")
    d = c.array("d", (ny, nx, n) if last else (n, ny, nx), dtype="float32", lo=0, hi=1)
    ok = c.flag("monotone")
    co = threshold_coord(c, [float(t) for t in ths], rel=rel)
    y, x = yx(c, ny, nx)
    cu = cube(c, d, "probability_of_air_temperature_%s_threshold" % ("below" if below else "above"), "1",
              [y, x, co] if last else [co, y, x])
    i, j = c.index("point", (ny, nx))
    ix = lambda k, p, q: (p, q, k) if last else (k, p, q)
    for k in range(n):
        c.use_index(*ix(k, i, j))
    P = c.mod(X).ExpectedValue()
    cum = lambda k, p, q: c.at(d, *ix(k, p, q)) if below else 1 - c.at(d, *ix(k, p, q))
    if not ok:
        c.assume(n > 1)
        c.assume(cum(0, i, j) > cum(1, i, j) + 1e-3)
        c.check("refused", c.raises(ValueError, lambda: P.process(cu))[0])
        return
    if c.symbolic:
        if n > 1:
            def rises(*t):
                k, p, q = (t[2], t[0], t[1]) if last else t
                return c.or_(k < 1, cum(c.ite(k < 1, 0, k - 1), p, q) <= cum(c.ite(k < 1, 1, k), p, q))
            c.assume_all((ny, nx, n) if last else (n, ny, nx), rises)
    else:
        a = np.sort(np.asarray(d), axis=-1 if last else 0)
        a = a if below else np.flip(a, axis=-1 if last else 0)
        d[...] = a
        cu.data = np.array(a)
    r = P.process(cu)
    ps = [0.0] + [cum(k, i, j) for k in range(n)] + [1.0]
    ts = [ths[0]] + ths + [ths[-1]]
    want = c.sum_list([(ps[k + 1] - ps[k]) * (ts[k] + ts[k + 1]) / 2 for k in range(n + 1)])
    c.check("value", c.near(c.at(r.data, i, j), want, 1e-2, loose=True))
    c.check("shape", c.same_shape(r.data, (ny, nx)))
    c.check("is a", r.name() == "air_temperature" and str(r.units) == "K" and not r.coords("air_temperature"))
    c.check("type", c.dtype_is(r.data, "float32"))
    c.check("method", [(m.method, tuple(m.coord_names)) for m in r.cell_methods] == [("mean", ("realization",))])
    c.check("input left alone", c.and_(*[c.eq(c.at(cu.data, *ix(k, i, j)), c.at(d, *ix(k, i, j))) for k in range(n)]))


@contract("C30", X + ":ExpectedValue.process", trials=120, budget=100)
def from_members(c):
    """the expected value of realizations, or of percentiles equally spaced about the median, is their mean; percentiles spaced
    otherwise are refused"""
    np = c.np
    kind = c.choice("kind", ["realizations", "percentiles", "uneven percentiles"])
    n = c.choice("n", [2, 3])
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (n, ny, nx), dtype="float32", lo=250, hi=300)
    if kind == "realizations":
        lead = realization(c, n)
    else:
        pts = [100.0 * (k + 1) / (n + 1) for k in range(n)] if kind == "percentiles" else [10.0, 20.0, 90.0][:n]
        lead = dimcoord(c, "percentile", pts, "%")
    cu = field(c, d, "air_temperature", "K", [lead])
    i, j = c.index("point", (ny, nx))
    for k in range(n):
        c.use_index(k, i, j)
    P = c.mod(X).ExpectedValue()
    if kind == "uneven percentiles":
        c.check("refused", c.raises(ValueError, lambda: P.process(cu))[0])
        return
    r = P.process(cu)
    c.check("value", c.near(c.at(r.data, i, j) * n, c.sum_list([c.at(d, k, i, j) for k in range(n)]), 1e-2))
    c.check("shape", c.same_shape(r.data, (ny, nx)))
    c.check("no members", not r.coords("realization") and not r.coords("percentile"))
    c.check("method", ("mean", ("realization",)) in [(m.method, tuple(m.coord_names)) for m in r.cell_methods])
    c.check("type", c.dtype_is(r.data, "float32"))
    c.check("still a", r.name() == "air_temperature" and str(r.units) == "K")
    c.check("input left alone", c.and_(*[c.eq(c.at(cu.data, k, i, j), c.at(d, k, i, j)) for k in range(n)]))
