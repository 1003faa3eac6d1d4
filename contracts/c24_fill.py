"""C24: filling and masking fields."""
from vc import contract
from contracts._cubes import field, realization

I = "improver.utilities.interpolation"
M = "improver.utilities.mask"


def _within(c, v, lo, hi, tol=1e-4):
    return c.and_(v >= lo - tol, v <= hi + tol)


def _fill_contract(method, lim):
    @contract("C24", I + ":interpolate_missing_data", trials=120, suffix="_%s_%s" % (method, lim or "free"))
    def fill(c):
        """finite values never change; missing ones are filled with values within the range of the permitted source points
        (nearest: with the value of the closest one), clipped by the limit in its direction only where they were filled"""
        ny, nx = c.dim("ny"), c.dim("nx")
        d = c.array("d", (ny, nx), dtype="float64", lo=-50, hi=50, nan=True)
        given = c.flag("valid points given")
        vp = c.array("vp", (ny, nx), dtype="bool") if given else None
        lm = c.array("lm", (ny, nx), dtype="float64", lo=-50, hi=50) if lim else None
        d0 = d.copy()
        src = lambda i, j: c.and_(c.not_(c.isnan(c.at(d0, i, j))), c.at(vp, i, j) if given else True)
        lo, hi = c.real("lo", -50, 50), c.real("hi", -50, 50)
        if c.symbolic:
            c.assume_all((ny, nx), lambda i, j: c.implies(src(i, j), c.and_(c.at(d0, i, j) >= lo, c.at(d0, i, j) <= hi)))
        else:
            vals = [c.at(d0, i, j) for i in range(ny) for j in range(nx) if src(i, j)]
            lo, hi = (min(vals), max(vals)) if vals else (0, 0)
        r = c.fn(I + ":interpolate_missing_data")(d, method=method, limit=lm, limit_as_maximum=lim != "minimum",
                                                  valid_points=vp)
        c.check("shape", c.same_shape(r, d0))
        i, j = c.index("point", (ny, nx))
        p, q = c.index("source", (ny, nx))
        x0, x = c.at(d0, i, j), c.at(r, i, j)
        was = c.not_(c.isnan(x0))
        c.check("finite values kept", c.implies(was, c.and_(c.not_(c.isnan(x)), c.eq(x, x0))))
        new = c.and_(c.not_(was), c.not_(c.isnan(x)))
        if lim is None:
            c.check("filled within the range of the sources", c.implies(new, _within(c, x, lo, hi)))
        elif lim == "maximum":
            L = c.at(lm, i, j)
            c.check("filled within limit and range", c.implies(new, c.and_(x <= L + 1e-9, x <= hi + 1e-4, c.or_(x >= lo - 1e-4, x >= L - 1e-9))))
        else:
            L = c.at(lm, i, j)
            c.check("filled within limit and range", c.implies(new, c.and_(x >= L - 1e-9, x >= lo - 1e-4, c.or_(x <= hi + 1e-4, x <= L + 1e-9))))
        if method == "nearest":
            c.check("every point filled when there is a source", c.implies(src(p, q), c.not_(c.isnan(x))))
            dist = lambda a, b: (a - i) * (a - i) + (b - j) * (b - j)
            if lim is None:
                other = lambda a, b: c.and_(src(a, b), c.or_(c.not_(c.eq(a, p)), c.not_(c.eq(b, q))))
                if c.symbolic:
                    c.assume(c.and_(c.not_(was), src(p, q)))
                    c.assume_all((ny, nx), lambda a, b: c.implies(other(a, b), dist(a, b) > dist(p, q)))
                    closest = True
                else:
                    closest = not was and src(p, q) and all(dist(a, b) > dist(p, q) for a in range(ny) for b in range(nx)
                                                            if other(a, b))
                c.check("closest source wins", c.implies(closest, c.eq(x, c.at(d0, p, q))))


for _m in ("linear", "nearest"):
    for _l in (None, "maximum", "minimum"):
        _fill_contract(_m, _l)


@contract("C24", M + ":apply_mask", trials=80)
def mask_by_field(c):
    """exactly the points the mask field selects (or does not select) are masked, besides those masked before; the mask field
    can be used again"""
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (ny, nx), dtype="float32", lo=0, hi=10, mask=True)
    m = c.array("m", (ny, nx), dtype="int8", values=[0, 1], lo=0, hi=1)
    inv = c.flag("invert")
    order = c.flag("mask cube first")
    flip = c.flag("mask axes swapped")
    f = field(c, d.copy(), "air_temperature", "K")
    k = field(c, m.copy(), "land_binary_mask", "1")
    if flip:
        k.transpose([1, 0])
    a = (k, f) if order else (f, k)
    fn = c.fn(M + ":apply_mask")
    r = fn(*a, mask_name="land_binary_mask", invert_mask=inv)
    g = field(c, d.copy(), "air_temperature", "K")
    r2 = fn(g, k, mask_name="land_binary_mask", invert_mask=inv)
    i, j = c.index("point", (ny, nx))
    sel = c.not_(c.eq(c.at(m, i, j), 0))
    want = c.or_(c.masked(d, i, j), c.not_(sel) if inv else sel)
    for t, x in (("", r), (" again", r2)):
        c.check("masked points" + t, c.iff(c.masked(x.data, i, j), want))
        c.check("values" + t, c.implies(c.not_(want), c.eq(c.at(x.data, i, j), c.at(d, i, j))))


@contract("C24", M + ":apply_mask", trials=60)
def mask_refused(c):
    """a mask on another grid is refused rather than broadcast"""
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (2, ny, nx), dtype="float32", lo=0, hi=10)
    m = c.array("m", (ny, nx), dtype="int8", lo=0, hi=1)
    f = field(c, d, "air_temperature", "K", lead=[realization(c, 2)])
    k = field(c, m, "land_binary_mask", "1")
    c.check("refused", c.raises(ValueError, lambda: c.fn(M + ":apply_mask")(f, k, mask_name="land_binary_mask"))[0])


def _difference_contract(lim):
    @contract("C24", I + ":InterpolateUsingDifference.process", trials=80, suffix="_" + (lim or "free"), budget=150)
    def difference(c):
        """valid points never change and none are left missing; filled points are the reference minus a difference within the
        range of the differences seen at valid points of the same field, clipped by the limit in its direction"""
        ny, nx = c.dim("ny"), c.dim("nx")
        nr = c.choice("members", [0, 2])
        sh = (nr, ny, nx) if nr else (ny, nx)
        d = c.array("d", sh, dtype="float32", lo=-50, hi=50, mask=True)
        ref = c.array("ref", sh, dtype="float32", lo=-50, hi=50)
        lm = c.array("lm", (ny, nx), dtype="float32", lo=-50, hi=50) if lim else None
        lead = [realization(c, nr)] if nr else []
        km = c.flag("reference in km") if lim is None else 0
        rd = ref.copy()
        if km:
            rd = c.from_fn(sh, lambda *i: c.at(ref, *i) / 1000, "float32") if c.symbolic else rd / c.np.float32(1000)
        rc = field(c, rd, "altitude", "km" if km else "m", lead=lead)
        lc = field(c, lm.copy(), "limit", "m") if lim else None
        at = lambda a, k, i, j: c.at(a, k, i, j) if nr else c.at(a, i, j)
        mk = lambda k, i, j: c.masked(d, k, i, j) if nr else c.masked(d, i, j)
        k = c.index("member", (nr,)) if nr else None
        # at least one valid point in every member
        pts = []
        for m in range(nr or 1):
            a, b = c.index("valid %d" % m, (ny, nx))
            pts.append((a, b))
            if c.symbolic:
                c.use_index(a, b)
            elif c.np.ma.getmaskarray(d)[m].all() if nr else c.np.ma.getmaskarray(d).all():
                d.mask[(m, a, b) if nr else (a, b)] = False
            c.assume(c.not_(mk(m, a, b)) if c.symbolic else True)
        p, q = c.index("point", (ny, nx))
        anym = c.index("masked", sh)
        c.assume(c.masked(d, *anym) if c.symbolic else c.np.ma.is_masked(d))
        c.use_index(*anym)
        cube = field(c, d.copy(), "air_temperature", "m", lead=lead)
        lo, hi = c.real("lo", -100, 100), c.real("hi", -100, 100)
        k = (k[0] if isinstance(k, tuple) else k)
        dif = lambda i, j: at(ref, k, i, j) - at(d, k, i, j)
        if c.symbolic:
            c.assume_all((ny, nx), lambda i, j: c.implies(c.not_(mk(k, i, j)), c.and_(dif(i, j) >= lo, dif(i, j) <= hi)))
        else:
            v = [float(dif(i, j)) for i in range(ny) for j in range(nx) if not mk(k, i, j)]
            lo, hi = min(v), max(v)
        r = c.mod(I).InterpolateUsingDifference(limit_as_maximum=lim != "minimum").process(cube, rc, lc).data
        x, x0 = at(r, k, p, q), at(d, k, p, q)
        was = c.not_(mk(k, p, q))
        c.check("nothing missing", c.not_(c.masked(r, k, p, q) if nr else c.masked(r, p, q)))
        c.check("valid values kept", c.implies(was, c.eq(x, x0)))
        R = at(ref, k, p, q)
        tol = 1e-3
        L = c.at(lm, p, q) if lim else None
        if lim is None:
            want = c.and_(x >= R - hi - tol, x <= R - lo + tol)
        elif lim == "maximum":
            want = c.and_(x <= L, x <= R - lo + tol, c.or_(x >= R - hi - tol, c.eq(x, L)))
        else:
            want = c.and_(x >= L, x >= R - hi - tol, c.or_(x <= R - lo + tol, c.eq(x, L)))
        c.check("filled from the difference", c.implies(c.not_(was), want))
        c.check("input kept", c.iff(c.masked(cube.data, k, p, q) if nr else c.masked(cube.data, p, q), c.not_(was)))


for _l in (None, "maximum", "minimum"):
    _difference_contract(_l)
