from vc import contract
from _cubes import cube, dimcoord, field, realization, time_coords, yx
from c04_weights import stack

MOD = "improver.blending.weighted_blend"
WB = MOD + ":WeightedBlendAcrossWholeDimension"
PA = MOD + ":PercentileBlendingAggregator"


@contract("C05", WB + "._normalise_weights", trials=200)
def normalise_blend_weights(c):
    """weights are divided by their sum over the inputs at every point where that sum is positive; elsewhere they are zero"""
    n = c.choice("n", [1, 2, 3])
    ny, nx = c.dim("ny"), c.dim("nx")
    w = c.array("w", (n, ny, nx), lo=0, hi=2)
    w0 = c.snap(w)
    i, j = c.index("cell", (ny, nx))
    c.use_index(i, j)
    r = c.mod(MOD).WeightedBlendAcrossWholeDimension("forecast_reference_time")._normalise_weights(w)
    s = c.sum_list([c.at(w0, k, i, j) for k in range(n)])
    if not c.symbolic and 0 < s < 1e-4:
        return
    c.check("shape", c.same_shape(r, w0))
    for k in range(n):
        v = c.at(r, k, i, j)
        c.check("proportional", c.implies(s > 0, c.near(v * s, c.at(w0, k, i, j), 2e-4, True)))
        c.check("zero weight stays zero", c.implies(s <= 0, c.eq(v, 0.0)))


def blend_cube(c, d, n, lead=()):
    """cube blended over n forecast reference times with one validity time"""
    np = c.np
    D, A = c.iris.coords.DimCoord, c.iris.coords.AuxCoord
    frt = D(np.array([1510200000 + 3600 * k for k in range(n)], dtype=np.int64), standard_name="forecast_reference_time",
            units="seconds since 1970-01-01 00:00:00")
    fp = A(np.array([3600 * (9 - k) for k in range(n)], dtype=np.int32), standard_name="forecast_period", units="seconds")
    t = D(np.array(1510200000 + 9 * 3600, dtype=np.int64), standard_name="time", units="seconds since 1970-01-01 00:00:00")
    y, x = yx(c, d.shape[-2], d.shape[-1])
    return cube(c, d, "air_temperature", "K", [frt] + list(lead) + [y, x], [(fp, 0), (t, None)])


def weights_cube(c, cu, w, n):
    """1-d weights cube on the blending coordinate"""
    idx = (slice(None),) + (0,) * (cu.ndim - 1)
    r = cu[idx].copy(data=c.np.array(w, dtype=c.np.float32))
    r.rename("weights")
    r.units = "1"
    return r


def blend_contract(name, masked, spatial, lead):
    @contract("C05", [WB + ".process", WB + ".weighted_mean", WB + ".get_weights_array", WB + ".shape_weights",
                      "improver.utilities.cube_manipulation:collapsed"], budget=120, trials=150, suffix="_" + name)
    def blend(c):
        """the blend equals the weighted mean of the valid inputs with the weights normalised over them, so it lies between
        the smallest and the largest valid input; points with no valid input of positive weight are missing"""
        n = c.choice("n", [1, 2, 3])
        ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
        m = (2,) if lead else ()
        d = c.array("d", (n,) + m + (ny, nx), lo=200, hi=320, mask=masked)
        d0 = c.snap(d)
        cu = blend_cube(c, d, n, [realization(c, 2)] if lead else [])
        if spatial:
            w = c.array("w", (n, ny, nx), lo=0.05, hi=1)
            if lead:
                wc = blend_cube(c, w, n)
            else:
                wc = cu.copy(data=w)
            w0 = c.snap(w)
            wt = lambda k, i, j: c.at(w0, k, i, j)
        else:
            ws = [c.real("w%d" % k, 0.05, 1) for k in range(n)]
            wc = weights_cube(c, cu, ws, n) if c.flag("given") else None
            wt = lambda k, i, j: ws[k] if wc is not None else 1.0 / n
        r = c.mod(MOD).WeightedBlendAcrossWholeDimension("forecast_reference_time").process(cu, wc)
        c.check("shape", c.same_shape(r.data, m + (ny, nx)))
        c.check("dtype", c.dtype_is(r.data, "float32"))
        i, j = c.index("cell", (ny, nx))
        q = (c.choice("member", [0, 1]),) if lead else ()
        ok = [c.not_(c.masked(d0, k, *(q + (i, j)))) if masked else None for k in range(n)]
        v = [c.at(d0, k, *(q + (i, j))) for k in range(n)]
        w = [wt(k, i, j) for k in range(n)]
        out = c.at(r.data, *(q + (i, j)))
        if masked:
            num = c.sum_list([c.ite(ok[k], w[k] * v[k], 0.0) for k in range(n)])
            den = c.sum_list([c.ite(ok[k], w[k], 0.0) for k in range(n)])
            c.check("missing exactly where every input is", c.iff(c.masked(r.data, *(q + (i, j))), c.not_(c.or_(*ok))))
            if not c.symbolic and c.masked(r.data, *(q + (i, j))):
                return
            c.check("weighted mean of valid inputs", c.implies(c.or_(*ok), c.near(out * den, num, 0.02)))
            c.check("between smallest and largest", c.implies(c.or_(*ok), c.and_(
                c.or_(*[c.and_(ok[k], c.le(v[k], out, tol=1e-4)) for k in range(n)]),
                c.or_(*[c.and_(ok[k], c.ge(v[k], out, tol=1e-4)) for k in range(n)]))))
        else:
            c.check("weighted mean", c.near(out * c.sum_list(w), c.sum_list([a * b for a, b in zip(w, v)]), 0.02))
            c.check("between smallest and largest", c.and_(c.or_(*[c.le(x, out, tol=1e-4) for x in v]),
                                                           c.or_(*[c.ge(x, out, tol=1e-4) for x in v])))
    return blend


blend_contract("1d", False, False, False)
blend_contract("spatial", False, True, False)
blend_contract("masked", True, False, False)
blend_contract("masked_spatial", True, True, False)
blend_contract("realizations", False, True, True)




def perc_contract(n, percs):
    def inputs(c):
        m = len(percs)
        p = c.np.array(percs, dtype=c.np.float32)
        v = c.array("v", (n, m), lo=0, hi=100)
        if not c.symbolic:
            v = c.np.sort(v, axis=1)
        for i in range(n):
            for k in range(1, m):
                c.assume(c.at(v, i, k) - c.at(v, i, k - 1) >= (0.0 if c.symbolic else 0.01))
        w = [c.real("w%d" % i, 0.01, 1 if c.symbolic else 0.99 / max(n - 1, 1)) for i in range(n - 1)]
        last = 1 - c.sum_list(w) if w else 1.0
        c.assume(last > 0.005)
        w.append(last)
        return m, p, v, c.np.array(w, dtype=c.np.float32), w

    @contract("C05", PA + ".blend_percentiles", budget=120, trials=150, suffix="_%d_%d" % (n, len(percs)))
    def percentile_blend_range(c):
        """blended percentiles are non-decreasing and lie within the range of the inputs"""
        m, p, v, wa, w = inputs(c)
        v0 = c.snap(v)
        r = c.mod(MOD).PercentileBlendingAggregator.blend_percentiles(v, p, wa)
        c.check("shape", c.same_shape(r, (m,)))
        allv = [c.at(v0, i, k) for i in range(n) for k in range(m)]
        for k in range(m):
            x = c.at(r, k)
            c.check("within the inputs", c.and_(c.or_(*[c.le(a, x, tol=1e-5) for a in allv]),
                                                c.or_(*[c.ge(a, x, tol=1e-5) for a in allv])))
            if k:
                c.check("non-decreasing", c.le(c.at(r, k - 1), x, tol=1e-5))

    @contract("C05", PA + ".blend_percentiles", budget=120, trials=150, suffix="_%d_%d" % (n, len(percs)),
              kind="proof" if n * len(percs) <= 4 or n == 1 else "bounded")
    def percentile_blend_mixture(c):
        """the weighted mean of the inputs' cumulative distributions, evaluated at a blended percentile value, is that
        percentile"""
        m, p, v, wa, w = inputs(c)
        if c.symbolic:
            for i in range(n):
                for k in range(1, m):
                    c.assume(c.at(v, i, k) - c.at(v, i, k - 1) > 0)
        v0 = c.snap(v)
        r = c.mod(MOD).PercentileBlendingAggregator.blend_percentiles(v, p, wa)

        def cdf(i, x):
            val = float(percs[0])
            for k in range(m - 1):
                a, b = c.at(v0, i, k), c.at(v0, i, k + 1)
                val = c.ite(x >= a, percs[k] + (percs[k + 1] - percs[k]) * (x - a) / (b - a), val)
            return c.ite(x >= c.at(v0, i, m - 1), float(percs[-1]), val)
        for k in range(m):
            x = c.at(r, k)
            c.check("mixture", c.near(c.sum_list([w[i] * cdf(i, x) for i in range(n)]), percs[k], 0.3))


for _n, _p in ((1, [10, 50, 90]), (2, [25, 75]), (2, [10, 50, 90]), (3, [20, 80])):
    perc_contract(_n, _p)


@contract("C05", [PA + ".aggregate"], budget=90, trials=100)
def percentile_aggregate(c):
    """each grid point is blended from its own column of percentile values and weights, wherever the blended axis is"""
    n, m = 2, 2
    axis = c.choice("axis", [0, 1, -3])
    ny, nx = c.dim("ny"), c.dim("nx")
    percs = c.np.array([25, 75], dtype=c.np.float32)
    ax = axis % 4
    sh = (n, m, ny, nx) if ax == 0 else (m, n, ny, nx)
    d = c.array("d", sh, lo=0, hi=100)
    w = c.array("w", (n, ny, nx), lo=0.1, hi=1)
    d0, w0 = c.snap(d), c.snap(w)
    at = (lambda k, p, i, j: c.at(d0, k, p, i, j)) if ax == 0 else (lambda k, p, i, j: c.at(d0, p, k, i, j))
    G = c.mod(MOD).PercentileBlendingAggregator

    def stand_in(pv, pc, ws):
        """callee contract stand-in: any function of the column"""
        out = [c.opaque("blend%d" % k, *([c.at(pv, a, b) for a in range(n) for b in range(m)] +
                                         [c.at(ws, a) for a in range(n)])) for k in range(m)]
        return c.np.array(out)
    if c.symbolic:
        c.cut(PA + ".blend_percentiles", stand_in)

        def inv(st):
            if not st.modified:
                return []
            cur = st.modified[0]

            def f(p, g):
                i, j = g // nx, g % nx
                cells = [at(a, b, i, j) for a in range(n) for b in range(m)] + [c.at(w0, a, i, j) for a in range(n)]
                e = c.ite(p == 0, c.opaque("blend0", *cells), c.opaque("blend1", *cells))
                return c.implies(g < st.k, c.eq(c.at(cur, p, g), e))
            return [("columns done", c.forall((m, ny * nx), f))]
        c.loop(MOD + ":*", inv)
    r = G.aggregate(d, axis, percs, w)
    c.check("shape", c.same_shape(r, (m, ny, nx)))
    i, j = c.index("cell", (ny, nx))
    if c.symbolic:
        c.lemma("column number", c.and_((i * nx + j) // nx == i, (i * nx + j) % nx == j))
        c.lemma("column exists", i * nx + j < ny * nx)
        for k in range(m):
            c.use_index(k, i * nx + j)
        cells = [at(a, b, i, j) for a in range(n) for b in range(m)] + [c.at(w0, a, i, j) for a in range(n)]
        e = [c.opaque("blend%d" % k, *cells) for k in range(m)]
    else:
        pv = c.np.array([[at(a, b, i, j) for b in range(m)] for a in range(n)], dtype=c.np.float32)
        ws = c.np.array([c.at(w0, a, i, j) for a in range(n)], dtype=c.np.float32)
        e = G.blend_percentiles(pv, percs, ws)
    for k in range(m):
        c.check("own column", c.eq(c.at(r, k, i, j), e[k]))


@contract("C05", [WB + ".percentile_weighted_mean", WB + ".process"], kind="bounded", trials=120)
def percentile_process(c):
    """process on percentiles: each point is the percentile blend of its own column with the normalised weights"""
    np = c.np
    n, m = c.choice("n", [2, 3]), 3
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    d = np.sort(c.array("d", (n, m, ny, nx), lo=200, hi=300), axis=1)
    percs = np.array([20, 50, 80], dtype=np.float32)
    cu = blend_cube(c, d.astype(np.float32), n, [dimcoord(c, "percentile", percs, "%")])
    d0 = c.snap(cu.data)
    ws = [c.real("w%d" % k, 0.05, 1) for k in range(n)]
    kind = c.choice("weights", ["none", "1d", "spatial"])
    if kind == "1d":
        wc = weights_cube(c, cu, ws, n)
        wt = np.broadcast_to(np.array(ws)[:, None, None], (n, ny, nx))
    elif kind == "spatial":
        wt = c.array("w", (n, ny, nx), lo=0.05, hi=1)
        wc = blend_cube(c, wt, n)
    else:
        wc, wt = None, np.full((n, ny, nx), 1.0 / n)
    flip = c.flag("percentiles_first")
    if flip:
        cu.transpose([1, 0, 2, 3])
    r = c.mod(MOD).WeightedBlendAcrossWholeDimension("forecast_reference_time").process(cu, wc)
    wt = wt / wt.sum(axis=0)
    c.check("shape", r.shape == (m, ny, nx))
    for i in range(ny):
        for j in range(nx):
            e = c.mod(MOD).PercentileBlendingAggregator.blend_percentiles(d0[:, :, i, j], percs, wt[:, i, j].astype(np.float32))
            for k in range(m):
                c.check("column", c.near(c.at(r.data, k, i, j), c.at(e, k), 0.01))
