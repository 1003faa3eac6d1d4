from vc import contract
from _cubes import affine, cube, dimcoord, field, realization, yx

MOD = "improver.blending.weights"
WU = MOD + ":WeightsUtilities.normalise_weights"


@contract("C04", WU, budget=90, trials=250)
def normalise_1d(c):
    """negative weights and an all-zero sum are refused; otherwise the weights are divided by their sum, which becomes one"""
    n = c.dim("n")
    w = c.array("w", (n,), lo=-1, hi=5)
    w0 = c.snap(w)
    raised, r = c.raises(ValueError, lambda: c.mod(MOD).WeightsUtilities.normalise_weights(w))
    s = c.sum(n, lambda i: c.at(w0, i))
    if raised:
        if not c.symbolic:
            c.check("refused with reason", w.min() < 0 or s == 0)
        return
    c.check_all("not negative", (n,), lambda i: c.at(r, i) >= 0)
    c.check("positive sum", s > 0)
    c.check_all("proportional", (n,), lambda i: c.eq(c.at(r, i) * s, c.at(w0, i), tol=1e-4))
    c.check("sum is one", c.eq(c.sum(n, lambda i: c.at(r, i)), 1.0, tol=1e-4))


@contract("C04", WU, budget=90, trials=200)
def normalise_refuses_negative(c):
    """a negative weight anywhere is refused"""
    n, m = c.dim("n"), c.dim("m")
    w = c.array("w", (n, m), lo=0, hi=5)
    i, j = c.int("i", 0, 4), c.int("j", 0, 4)
    c.assume(c.and_(i < n, j < m))
    w[i, j] = -c.real("v", 0.01, 3)
    c.use_index(i, j)
    ax = c.choice("axis", [0, None])
    if ax == 0:
        c.use_index(j)
        c.use_index(i)
    raised, r = c.raises(ValueError, lambda: c.mod(MOD).WeightsUtilities.normalise_weights(w, axis=ax))
    c.check("refused", raised)


@contract("C04", WU, budget=90, trials=200)
def normalise_2d(c):
    """normalisation along one axis makes every sum along that axis one"""
    n, m = c.dim("n"), c.dim("m")
    ax = c.choice("axis", [0, 1])
    w = c.array("w", (n, m), lo=0.01, hi=5)
    w0 = c.snap(w)
    r = c.mod(MOD).WeightsUtilities.normalise_weights(w, axis=ax)
    k = m if ax == 0 else n

    def tot(a, j):
        return c.sum(n if ax == 0 else m, lambda i: c.at(a, i, j) if ax == 0 else c.at(a, j, i))
    c.check_all("proportional", (n, m), lambda i, j: c.eq(
        c.at(r, i, j) * tot(w0, j if ax == 0 else i), c.at(w0, i, j), tol=1e-4))
    c.check_all("sum is one", (k,), lambda j: c.eq(tot(r, j), 1.0, tol=1e-4))
    c.check_all("not negative", (n, m), lambda i, j: c.at(r, i, j) >= 0)


@contract("C04", [MOD + ":ChooseDefaultWeightsLinear.linear_weights", WU], budget=120, trials=200)
def linear_weights(c):
    """linear weights change evenly from y0val to ynval in proportion, are not negative and sum to one"""
    n = c.dim("n")
    y0, yn = c.real("y0", 0, 50), c.real("yn", 0, 50)
    c.assume(y0 + yn > 0.01)
    P = c.mod(MOD).ChooseDefaultWeightsLinear(y0, yn)
    r = P.linear_weights(n)
    c.check("length", c.same_shape(r, (n,)))
    c.check_all("not negative", (n,), lambda i: c.at(r, i) >= 0)
    c.check("sum is one", c.eq(c.sum(n, lambda i: c.at(r, i)), 1.0, tol=1e-4))
    if c.symbolic:
        if n == 1:
            return
        c.check_all("even steps", (n,), lambda i: c.implies(i >= 1, c.eq(
            (c.at(r, i) - c.at(r, i - 1)) * (n - 1), c.at(r, n - 1) - c.at(r, 0))))
        c.check("ends in proportion", c.eq(c.at(r, 0) * yn, c.at(r, n - 1) * y0))
    elif n > 1:
        c.check_all("even steps", (n - 1,), lambda i: c.near((r[i + 1] - r[i]) * (n - 1), r[n - 1] - r[0], 1e-4))
        c.check("ends in proportion", c.near(r[0] * yn, r[n - 1] * y0, 1e-3))


@contract("C04", [MOD + ":ChooseDefaultWeightsNonLinear.nonlinear_weights", WU], budget=120, trials=200)
def nonlinear_weights(c):
    """each weight is cval times the previous one; weights are positive and sum to one"""
    n = c.choice("n", [1, 2, 3, 4, 6])
    v = c.real("cval", 0.05, 1)
    r = c.mod(MOD).ChooseDefaultWeightsNonLinear(v).nonlinear_weights(n)
    c.check("length", c.same_shape(r, (n,)))
    c.check_all("positive", (n,), lambda i: c.at(r, i) > 0)
    c.check("sum is one", c.eq(c.sum(n, lambda i: c.at(r, i)), 1.0, tol=1e-4))
    for i in range(1, n):
        c.check("ratio", c.eq(c.at(r, i), c.at(r, i - 1) * v, tol=1e-4))


def same(c, a, b):
    """equal up to the rounding of concrete single-precision arithmetic"""
    return c.or_(c.eq(a, b, tol=1e-4), c.near(a, b, 1e-4, True)) if c.symbolic else c.near(a, b, 1e-4)


@contract("C04", [MOD + ":ChooseDefaultWeightsTriangular.triangular_weights", WU], budget=120, trials=200)
def triangular_weights(c):
    """weights fall linearly from the midpoint to zero at the half width, are zero beyond and sum to one"""
    n = c.choice("n", [1, 2, 3])
    p = c.array("p", (n,), "float64", lo=-10, hi=10)
    mid = c.real("mid", -5, 5)
    width = c.real("width", 0.5, 8)
    shape = [c.max(0.0, 1 - c.abs(c.at(p, i) - mid) / width) for i in range(n)]
    tot = c.sum_list(shape)
    c.assume(tot > 0.01)
    r = c.mod(MOD).ChooseDefaultWeightsTriangular.triangular_weights(p, mid, width)
    c.check_all("not negative", (n,), lambda i: c.at(r, i) >= 0)
    for i in range(n):
        c.check("triangle", same(c, c.at(r, i) * tot, shape[i]))
    c.check("sum is one", same(c, c.sum(n, lambda i: c.at(r, i)), 1.0))


def stack(c, d, n, coord=None):
    """cube of n fields along forecast_period (times 1 h apart)"""
    np = c.np
    D = c.iris.coords.DimCoord
    fp = coord if coord is not None else D(np.array([3600 * (k + 1) for k in range(n)], dtype=np.int32),
                                           standard_name="forecast_period", units="seconds")
    y, x = yx(c, d.shape[-2], d.shape[-1])
    return cube(c, d, "air_temperature", "K", [fp, y, x])


@contract("C04", [MOD + ":ChooseDefaultWeightsTriangular.process", MOD + ":WeightsUtilities.build_weights_cube"], trials=120)
def triangular_process(c):
    """the triangular weights are computed in the coordinate's own units"""
    n = c.choice("n", [1, 2, 3])
    d = c.array("d", (n, 2, 2), lo=0, hi=9)
    cu = stack(c, d, n)
    unit = c.choice("units", [("hours", 3600), ("seconds", 1)])
    mid = c.choice("mid", [1, 2])
    width = c.choice("width", [2, 3])
    P = c.mod(MOD).ChooseDefaultWeightsTriangular(width * 3600 // unit[1], units=unit[0])
    r = P.process(cu, "forecast_period", mid * 3600 // unit[1])
    sh = [max(0.0, 1 - abs(k + 1 - mid) / float(width)) for k in range(n)]
    c.check("weights", c.and_(*[c.near(c.at(r.data, k), sh[k] / sum(sh), 1e-5, True) for k in range(n)]))
    c.check("one-dimensional along the blending coordinate", r.ndim == 1 and r.name() == "weights" and
            list(r.coord("forecast_period").points) == [3600 * (k + 1) for k in range(n)])


@contract("C04", [MOD + ":ChooseDefaultWeightsNonLinear.process", MOD + ":WeightsUtilities.build_weights_cube",
                  "improver.utilities.cube_manipulation:sort_coord_in_cube"], trials=120)
def nonlinear_process(c):
    """weights are attached to the coordinate points in ascending or (inverse ordering) descending order"""
    n = c.choice("n", [2, 3])
    inv = c.flag("inverse")
    d = c.array("d", (n, 2, 2), lo=0, hi=9)
    cu = stack(c, d, n)
    v = c.real("cval", 0.1, 1)
    r = c.mod(MOD).ChooseDefaultWeightsNonLinear(v).process(cu, "forecast_period", inverse_ordering=inv)
    c.check("points", list(r.coord("forecast_period").points) == [3600 * (k + 1) for k in range(n)])
    c.check("sum is one", c.eq(c.sum_list([c.at(r.data, k) for k in range(n)]), 1.0, tol=1e-4))
    for k in range(1, n):
        a, b = c.at(r.data, k - 1), c.at(r.data, k)
        c.check("ratio", c.eq(a, b * v, tol=1e-4) if inv else c.eq(b, a * v, tol=1e-4))


@contract("C04", [MOD + ":ChooseDefaultWeightsLinear.process", MOD + ":WeightsUtilities.build_weights_cube"], trials=80)
def linear_process(c):
    """the weights cube has one weight per point of the blending coordinate, scalar coordinates included"""
    n = c.choice("n", [1, 2, 3])
    d = c.array("d", (n, 2, 2), lo=0, hi=9)
    cu = stack(c, d, n)
    if n == 1 and c.flag("scalar"):
        cu = cu[0]
    y0, yn = c.real("y0", 0, 50), c.real("yn", 0.5, 50)
    r = c.mod(MOD).ChooseDefaultWeightsLinear(y0, yn).process(cu, "forecast_period")
    if n == 1:
        c.check("single weight", c.eq(c.at(r.data, 0), 1.0))
        return
    tot = n * (y0 + yn) / 2
    for k in range(n):
        c.check("weight", c.eq(c.at(r.data, k) * tot, y0 + (yn - y0) * k / (n - 1.0), tol=1e-3))


@contract("C04", [MOD + ":ChooseWeightsLinear.process", MOD + ":ChooseWeightsLinear._calculate_weights",
                  MOD + ":ChooseWeightsLinear._get_interpolation_inputs_from_dict",
                  MOD + ":ChooseWeightsLinear._interpolate_to_find_weights",
                  MOD + ":ChooseWeightsLinear._create_new_weights_cube", MOD + ":ChooseWeightsLinear._slice_input_cubes"],
          budget=120, trials=120)
def weights_from_config(c):
    """weights per model are interpolated from the configuration in forecast period (held constant beyond its ends) and
    normalised over models"""
    np = c.np
    D, A = c.iris.coords.DimCoord, c.iris.coords.AuxCoord
    conf, fps = {}, [3600 * 4, 3600 * 7]
    use_units = c.flag("hours")
    src = c.choice("source", [[0, 6, 12], [5, 6, 8], [1, 2, 3]])
    wts = []
    for m in range(2):
        w = [c.real("w%d%d" % (m, k), 0.1, 1) for k in range(3)]
        wts.append(w)
        conf["model%d" % m] = {"forecast_period": list(src) if use_units else [3600 * s for s in src], "weights": w}
        if use_units:
            conf["model%d" % m]["units"] = "hours"
    cubes = c.iris.cube.CubeList([])
    for m in range(2):
        d = c.array("d%d" % m, (2, 2, 2), lo=0, hi=9)
        cu = stack(c, d, 2, D(np.array(fps, dtype=np.int32), standard_name="forecast_period", units="seconds"))
        cu.add_aux_coord(A(np.array([1000 * m], dtype=np.int32), long_name="model_id", units="1"))
        cu.add_aux_coord(A(["model%d" % m], long_name="model_configuration", units="no_unit"))
        cubes.append(cu)
    r = c.mod(MOD).ChooseWeightsLinear("forecast_period", conf).process(cubes)

    def interp(w, h):
        if h <= src[0]:
            return w[0]
        for a in range(2):
            if h <= src[a + 1]:
                t = (h - src[a]) / float(src[a + 1] - src[a])
                return w[a] + (w[a + 1] - w[a]) * t
        return w[2]
    c.check("model order", [str(v) for v in r.coord("model_configuration").points] == ["model0", "model1"])
    mdim, = r.coord_dims("model_configuration")
    c.check("dims", c.and_(r.ndim == 2, mdim == 0))
    for k, h in enumerate([4, 7]):
        e = [interp(w, h) for w in wts]
        for m in range(2):
            c.check("weight", c.near(c.at(r.data, m, k) * (e[0] + e[1]), e[m], 1e-4))


SP = "improver.blending.spatial_weights"


@contract("C04", SP + ":SpatiallyVaryingWeightsFromMask._normalise_initial_weights", trials=150)
def spatial_initial_normalisation(c):
    """where any input is present the initial weights sum to one over the inputs; elsewhere they are zero"""
    n = c.choice("n", [1, 2, 3])
    ny, nx = c.dim("ny"), c.dim("nx")
    w = c.array("w", (n, ny, nx), lo=0, hi=1)
    p = c.mod(SP).SpatiallyVaryingWeightsFromMask("forecast_period")
    p.blend_axis = 0
    cu = stack(c, w, n)
    w0 = c.snap(w)
    p._normalise_initial_weights(cu)
    i, j = c.index("cell", (ny, nx))
    s = c.sum_list([c.at(w0, k, i, j) for k in range(n)])
    if not c.symbolic and 0 < s < 1e-6:
        return
    for k in range(n):
        r = c.at(cu.data, k, i, j)
        c.check("share of the total", c.and_(c.implies(s > 0, c.eq(r * s, c.at(w0, k, i, j), tol=1e-4)),
                                             c.implies(s <= 0, c.eq(r, 0.0))))


@contract("C04", SP + ":SpatiallyVaryingWeightsFromMask._rescale_masked_weights", budget=120, trials=150)
def spatial_masked_rescaling(c):
    """weights are only reduced near missing points, stay zero exactly where they were zero, are never negative, and the
    flag marks exactly the reduced ones"""
    n = c.choice("n", [1, 2])
    ny, nx = c.dim("ny"), c.dim("nx")
    w = c.array("w", (n, ny, nx), lo=0, hi=1)
    fl = c.choice("fuzzy", [1, 2, 10])
    p = c.mod(SP).SpatiallyVaryingWeightsFromMask("forecast_period", fuzzy_length=fl)
    p.blend_axis = 0
    cu = stack(c, w, n)
    w0 = c.snap(w)
    r, flag = p._rescale_masked_weights(cu)
    if n == 1:
        return
    k, i, j = c.index("cell", (n, ny, nx))
    c.use_index(i, j)
    if not c.symbolic and 0 < c.at(w0, k, i, j) < 1e-6:
        return
    a, b = c.at(w0, k, i, j), c.at(r.data, k, i, j)
    c.check("never increased, never negative", c.and_(c.ge(b, 0), c.le(b, a)))
    c.check("zero exactly where zero", c.iff(b == 0, a == 0))
    c.check("reduced to no less than one cell's share", c.ge(b * fl, a))
    c.check("flag", c.iff(c.at(flag.data, k, i, j), b != a))
    c.check("shape", c.same_shape(r.data, w0))


@contract("C04", SP + ":SpatiallyVaryingWeightsFromMask._rescale_unmasked_weights", trials=200)
def spatial_unmasked_rescaling(c):
    """rescaled weights are kept; the others share what is left in proportion, so that the total is one"""
    n = c.choice("n", [1, 2, 3])
    ny, nx = c.dim("ny"), c.dim("nx")
    w = c.array("w", (n, ny, nx), lo=0, hi=0.3)
    f = c.array("f", (n, ny, nx), dtype="bool")
    p = c.mod(SP).SpatiallyVaryingWeightsFromMask("forecast_period")
    p.blend_axis = 0
    cu, fu = stack(c, w, n), stack(c, f, n)
    w0, f0 = c.snap(w), c.snap(f)
    p._rescale_unmasked_weights(cu, fu)
    i, j = c.index("cell", (ny, nx))
    rs = c.sum_list([c.ite(c.at(f0, k, i, j), c.at(w0, k, i, j), 0.0) for k in range(n)])
    us = c.sum_list([c.ite(c.at(f0, k, i, j), 0.0, c.at(w0, k, i, j)) for k in range(n)])
    if not c.symbolic and 0 < us < 1e-3:
        return
    r = [c.at(cu.data, k, i, j) for k in range(n)]
    for k in range(n):
        e = c.at(w0, k, i, j)
        c.check("kept or shared", c.and_(
            c.implies(c.at(f0, k, i, j), c.eq(r[k], e, tol=1e-4)),
            c.implies(c.and_(c.not_(c.at(f0, k, i, j)), us > 0), c.eq(r[k] * us, e * (1 - rs), tol=1e-3)),
            c.implies(c.and_(c.not_(c.at(f0, k, i, j)), us <= 0), c.eq(r[k], 0.0))))


@contract("C04", [SP + ":SpatiallyVaryingWeightsFromMask.process", SP + ":SpatiallyVaryingWeightsFromMask._create_template_slice"],
          budget=120, trials=200)
def spatial_weights_process(c):
    """missing inputs get zero weight, present ones positive weight; the total is one wherever some present input is not
    near missing points"""
    n = 2
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    d = c.array("d", (n, ny, nx), lo=0, hi=9, mask=True)
    w = [c.real("w0", 0.1, 0.9)]
    w.append(1 - w[0])
    cu = stack(c, d, n)
    if c.symbolic:
        c.assume(c.np.ma.is_masked(d))
    elif not c.np.ma.is_masked(d):
        return
    d0 = c.snap(d)
    w1 = cu[:, 0, 0].copy(data=c.np.array(w, dtype=c.np.float32))
    r = c.mod(SP).SpatiallyVaryingWeightsFromMask("forecast_period", fuzzy_length=2).process(cu, w1)
    i, j = c.index("cell", (ny, nx))
    v = [c.at(r.data, k, i, j) for k in range(n)]
    m = [c.masked(d0, k, i, j) for k in range(n)]
    tot = v[0] + v[1]
    for k in range(n):
        c.check("zero where missing", c.implies(m[k], c.eq(v[k], 0.0)))
        c.check("positive where present", c.implies(c.not_(m[k]), v[k] > 0))
    c.check("total at most one", c.le(tot, 1.0, tol=1e-4))
    c.check("shape", c.same_shape(r.data, d0))
