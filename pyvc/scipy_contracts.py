"""Assumed contracts of scipy functions (symbolic mode)."""
import numpy as _np
import z3

from . import core
from .core import Unsupported


def _each(fn, *xs):
    """cell by cell over broadcast arrays"""
    from . import arr, npshim
    xs = npshim.broadcast_arrays(*[arr.asarr(x) for x in xs])
    gs = [x.getter() for x in xs]
    r = arr.SymArray(xs[0]._shape, f=arr.memo(lambda i: fn(*[g(i) for g in gs])), dt=_np.dtype(float))
    return r if r.ndim else r.get(())


def ndtr(x):
    return _each(lambda c: core.cell_fn("ndtr", c), x)


def ndtri(x):
    return _each(lambda c: core.cell_fn("ndtri", c), x)


class KDTree(object):
    """the k nodes nearest to each point, nearest first, no farther than the bound; inf and the number of nodes where there are
    fewer (positions known, as the grids and sites of the contracts that use it are)"""

    def __init__(self, nodes, *a, **k):
        if a or k:
            raise Unsupported("KD tree options")
        self.nodes = self._known(nodes)
        self.n = len(self.nodes)

    def _known(self, v):
        from . import arr
        if isinstance(v, (list, tuple)):
            rows = [self._known(q) for q in v]
            return _np.array(rows, dtype=float)
        if isinstance(v, arr.SymArray):
            v = v.conc()
            if v is None:
                raise Unsupported("KD tree of symbolic positions")
            return _np.asarray(v, dtype=float)
        if isinstance(v, _np.ndarray) and v.dtype != object:
            return v.astype(float)
        if isinstance(v, (int, float, _np.number)):
            return float(v)
        v = core.num(v)
        if isinstance(v, (int, float)):
            return float(v)
        k = core.CTX.known_const(getattr(v, "t", v))
        if k is None:
            raise Unsupported("KD tree of symbolic positions")
        return float(k)

    def query(self, x, k=1, distance_upper_bound=_np.inf, **kw):
        from . import arr
        if kw:
            raise Unsupported("KD tree query options")
        x = self._known(x)
        k, bound = int(self._known(k)), self._known(distance_upper_bound)
        lead = x.shape[:-1]
        d = _np.full(lead + (k,), _np.inf)
        ix = _np.full(lead + (k,), self.n)
        for p in _np.ndindex(*lead):
            r = _np.sqrt(((self.nodes - x[p]) ** 2).sum(axis=-1))
            o = [q for q in _np.argsort(r, kind="stable") if r[q] < bound][:k]
            d[p][:len(o)], ix[p][:len(o)] = r[o], o
        if k == 1:
            d, ix = d[..., 0], ix[..., 0]
        return arr.asarr(d), arr.asarr(ix)


class RegularGridInterpolator(object):
    """method "nearest": the value at the nearest of the grid's positions (the lower one of two as near), the fill value outside"""

    def __init__(self, points, values, method="linear", bounds_error=True, fill_value=_np.nan):
        from . import arr
        if method != "nearest" or bounds_error or fill_value is None:
            raise Unsupported("RegularGridInterpolator options")
        self.axes = [_known_array(p) for p in points]
        self.values, self.fill = arr.asarr(values), fill_value

    def __call__(self, xi):
        from . import arr, npshim
        xi = _known_array(xi)
        cols = []
        inside = _np.ones(len(xi), dtype=bool)
        for k, ax in enumerate(self.axes):
            x = xi[:, k]
            inside &= (x >= ax[0]) & (x <= ax[-1])
            j = _np.clip(_np.searchsorted(ax, x) - 1, 0, len(ax) - 2)
            frac = (x - ax[j]) / (ax[j + 1] - ax[j])
            cols.append(arr.asarr(_np.where(frac <= 0.5, j, j + 1)))
        got = self.values[tuple(cols)]
        return npshim.where(arr.asarr(inside), got, self.fill)


def _known_array(v):
    from . import arr
    if isinstance(v, arr.SymArray):
        v = v.conc()
        if v is None:
            raise Unsupported("grid interpolation at symbolic positions")
    return _np.asarray(v, dtype=float)


class rv_continuous(object):
    """scipy's generic distribution: location and scale around the distribution's own _cdf and _ppf"""

    def __init__(self, *a, **k):
        self.name = k.get("name")

    def __call__(self, *shapes, **k):
        return _Frozen(self, shapes, k.get("loc", 0), k.get("scale", 1))

    def cdf(self, x, *shapes, **k):
        return self(*shapes, **k).cdf(x)

    def sf(self, x, *shapes, **k):
        return self(*shapes, **k).sf(x)

    def ppf(self, q, *shapes, **k):
        return self(*shapes, **k).ppf(q)

    def _sf(self, x, *a):
        return 1 - self._cdf(x, *a)

    def _get_support(self, *a):
        return -_np.inf, _np.inf

    def _argcheck(self, *a):
        return True


class _Norm(rv_continuous):
    def _cdf(self, x):
        return ndtr(x)

    def pdf(self, x, **k):
        if k:
            raise Unsupported("pdf with location and scale")
        return _each(lambda v: core.cell_fn("exp", -(v * v) / 2) / _np.sqrt(2 * _np.pi), x)

    def _ppf(self, q):
        return ndtri(q)

    def _sf(self, x):
        return ndtr(-x)


class _Frozen(object):
    def __init__(self, dist, shapes, loc, scale):
        self.dist, self.shapes, self.loc, self.scale = dist, shapes, loc, scale

    def _ok(self):
        from . import npshim
        return npshim.logical_and(npshim.greater(self.scale, 0), self.dist._argcheck(*self.shapes))

    def _prob(self, x, below, above, fn):
        from . import npshim
        from .arr import asarr
        y = (asarr(x) - asarr(self.loc)) / asarr(self.scale)
        a, b = self.dist._get_support(*self.shapes)
        v = fn(y, *self.shapes)

        def one(ok, y, a, b, v):
            r = core.cell_ite(core.cell_cmp("ge", y, b), _np.float64(above), v)
            r = core.cell_ite(core.cell_cmp("le", y, a), _np.float64(below), r)
            return core.cell_ite(ok, r, _np.float64("nan"))
        return _each(one, self._ok(), y, a, b, v)

    def cdf(self, x):
        return self._prob(x, 0.0, 1.0, self.dist._cdf)

    def sf(self, x):
        return self._prob(x, 1.0, 0.0, self.dist._sf)

    def ppf(self, q):
        a, b = self.dist._get_support(*self.shapes)
        v = self.dist._ppf(q, *self.shapes)

        def one(ok, q, a, b, v, loc, scale):
            lin = lambda t: core.cell_bin("add", core.cell_bin("mul", t, scale), loc)
            r = core.cell_ite(core.cell_cmp("eq", q, 0), lin(a), core.cell_ite(core.cell_cmp("eq", q, 1), lin(b), lin(v)))
            inr = core.cell_and(core.cell_cmp("ge", q, 0), core.cell_cmp("le", q, 1))
            return core.cell_ite(core.cell_and(ok, inr), r, _np.float64("nan"))
        return _each(one, self._ok(), q, a, b, v, self.loc, self.scale)


def _clamp(k, n):
    """nearest index inside [0, n)"""
    from . import arr
    if isinstance(k, int) and isinstance(n, int):
        return min(max(k, 0), n - 1)
    k, n = arr.it(k), arr.dterm(n)
    return z3.simplify(z3.If(k < 0, z3.IntVal(0), z3.If(k >= n, n - 1, k)))


def correlate(data, kernel, output=None, mode="reflect", cval=0.0, origin=0):
    """sum of kernel[a, b] * data[i + a - h, j + b - h], the nearest edge value outside the grid (mode nearest)"""
    from . import arr
    from .npshim import sum_
    a = arr.asarr(data)
    kc = arr.asarr(kernel).conc()
    if kc is None or mode not in ("nearest", "constant"):
        raise Unsupported("correlate with a symbolic kernel or mode %s" % mode)
    g = a.getter()
    hs = [n // 2 for n in kc.shape]

    def f(idx):
        tot = 0.0
        for off in _np.ndindex(*kc.shape):
            w = float(kc[off])
            if w == 0.0:
                continue
            p = []
            inside = True
            for i, o, h, n in zip(idx, off, hs, a._shape):
                q = arr.it(i) + (o - h) if not isinstance(i, int) else i + o - h
                if mode == "nearest":
                    p.append(_clamp(q, n))
                else:
                    inside = core.cell_and(inside, core.cell_and(core.mki(arr.it(q)) >= 0, core.mki(arr.it(q)) < n))
                    p.append(q)
            v = g(tuple(p))
            if mode != "nearest":
                v = core.cell_ite(inside, v, cval)
            tot = core.cell_bin("add", tot, core.cell_bin("mul", v, w))
        return core.cell_astype(tot, a.dt)
    return arr.SymArray(a._shape, f=arr.memo(f), dt=a.dt)


def maximum_filter(data, size=None, footprint=None, output=None, mode="reflect", cval=0.0, origin=0):
    """maximum over the window of the given odd size; reflection adds no values from outside the window's grid points"""
    from . import arr
    a = arr.asarr(data)
    if footprint is not None or mode not in ("reflect", "nearest", "constant"):
        raise Unsupported("maximum_filter footprint/mode")
    sizes = [size] * a.ndim if not isinstance(size, (list, tuple)) else list(size)
    sizes = [n.__index__() if hasattr(n, "__index__") else int(n) for n in sizes]
    if any(n % 2 == 0 for n in sizes):
        raise Unsupported("maximum_filter of even size")
    g = a.getter()
    hs = [n // 2 for n in sizes]

    def f(idx):
        best = None
        for off in _np.ndindex(*sizes):
            p = []
            inside = True
            for i, o, h, n in zip(idx, off, hs, a._shape):
                q = arr.it(i) + (o - h) if not isinstance(i, int) else i + o - h
                if mode == "constant":
                    inside = core.cell_and(inside, core.cell_and(core.mki(arr.it(q)) >= 0, core.mki(arr.it(q)) < n))
                    p.append(q)
                elif mode == "nearest":
                    p.append(_clamp(q, n))
                else:
                    p.append(_reflect(q, n))
            v = g(tuple(p))
            if mode == "constant":
                v = core.cell_ite(inside, v, cval)
            best = v if best is None else core.cell_max(best, v)
        return best
    return arr.SymArray(a._shape, f=arr.memo(f), dt=a.dt)


def _reflect(k, n):
    """half-sample symmetric index (d c b a | a b c d | d c b a), for any distance"""
    from . import arr
    if isinstance(k, int) and isinstance(n, int):
        m = k % (2 * n)
        return m if m < n else 2 * n - 1 - m
    k, n = arr.it(k), arr.dterm(n)
    m = k % (2 * n)
    return z3.simplify(z3.If(z3.And(k >= 0, k < n), k, z3.If(m < n, m, 2 * n - 1 - m)))


def fresh_array(base, shape, dt, ax):
    """an array about which only ax(cell, index) is known"""
    from . import arr
    ctx = core.CTX
    dt = _np.dtype(dt)
    srt = z3.BoolSort() if dt.kind == "b" else z3.IntSort() if dt.kind in "iu" else z3.RealSort()
    f = ctx.fresh_fun(base, *([z3.IntSort()] * len(shape) + [srt]))

    def axioms(app):
        args = tuple(core.mki(app.arg(k)) for k in range(len(shape)))
        v = core.mkb(app) if dt.kind == "b" else core.SymNum(app, None, dt)
        ctx.in_spec += 1
        try:
            return [core.bterm(t) for t in ax(v, args)]
        finally:
            ctx.in_spec -= 1
    ctx.uf_ax[f.name()] = axioms

    def g(idx):
        app = f(*[core.iterm(arr.it(i)) for i in idx])
        return core.mkb(app) if dt.kind == "b" else core.SymNum(app, None, dt)
    return arr.SymArray(tuple(shape), f=arr.memo(g), dt=dt)


def distance_transform_edt(input, sampling=None, **k):
    """distance to the nearest False cell: zero exactly at False cells, at least one cell (unit sampling) at True cells"""
    from . import arr
    if sampling is not None or k:
        raise Unsupported("distance_transform_edt options")
    a = arr.asarr(input)
    g = a.getter()

    def ax(v, idx):
        t = core.bterm(core.cell_astype(g(idx), bool))
        return [core.mkb(z3.Implies(t, v.real() >= 1)), core.mkb(z3.Implies(z3.Not(t), v.real() == 0))]
    return fresh_array("edt", a._shape, "float64", ax)


class QhullError(RuntimeError):
    pass


class LinearNDInterpolator(object):
    """points forming a full lattice xs * ys, asked at positions with x in xs: the straight line between the values of that
    x's neighbouring points, missing beyond them (the cells' edges belong to every Delaunay triangulation of a lattice)"""

    def __init__(self, points, values, fill_value=_np.nan, rescale=False):
        from . import npshim
        v = npshim.asarr(values)
        pts = [tuple(core.zval(core.num(a).t) if isinstance(a, core.Sym) else a for a in p) for p in points]
        if any(a is None for p in pts for a in p) or rescale or any(len(p) != 2 for p in pts):
            raise Unsupported("LinearNDInterpolator of symbolic points")
        pts = [tuple(core.Fraction(str(a)) if not isinstance(a, (int, _np.integer)) else core.Fraction(int(a)) for a in p)
               for p in pts]
        self.xs, self.ys = sorted({p[0] for p in pts}), sorted({p[1] for p in pts})
        if len(set(pts)) != len(self.xs) * len(self.ys) or len(pts) != len(set(pts)):
            raise Unsupported("LinearNDInterpolator of scattered points")
        if len(self.xs) < 2 or len(self.ys) < 2:
            raise QhullError("initial simplex is flat")
        self.val = {p: v.get((k,)) for k, p in enumerate(pts)}

    def __call__(self, asked):
        from . import arr, npshim
        out = []
        for x, y in asked:
            x = core.zval(core.num(x).t) if isinstance(x, core.Sym) else x
            x = core.Fraction(str(x)) if x is not None else None
            if x not in self.xs:
                raise Unsupported("LinearNDInterpolator between rows")
            y = core.num(y).real()
            r = core.num(self.val[(x, self.ys[-1])]).real()
            q = lambda f: z3.RealVal(str(f))
            for a, b in reversed(list(zip(self.ys[:-1], self.ys[1:]))):
                va, vb = core.num(self.val[(x, a)]).real(), core.num(self.val[(x, b)]).real()
                r = z3.If(y <= q(b), va + (vb - va) * (y - q(a)) / q(b - a), r)
            out.append(core.SymNum(r, z3.Or(y < q(self.ys[0]), y > q(self.ys[-1])), _np.dtype("float64")))
        return npshim.asarr(out)


def griddata(points, values, xi, method="linear", fill_value=_np.nan, rescale=False):
    """values given at some cells of a grid, interpolated to grid positions: a given cell keeps its value;
    nearest: the value of a given cell no farther away than any other; linear: missing, or between two of the given values
    (or refused, as too few or aligned points are)"""
    from . import arr, npshim
    if method not in ("linear", "nearest") or rescale or not (isinstance(fill_value, float) and fill_value != fill_value):
        raise Unsupported("griddata options")
    if not all(isinstance(p, npshim.SymIdx) for p in points) or not isinstance(values, arr.SymSel) or len(points) != 2 \
            or values.inner.ndim != 2:
        raise Unsupported("griddata of such points")
    m = points[0].m
    mv = values.m
    if m is not mv and not npshim.all_(npshim.equal(m, mv)):
        raise Unsupported("griddata values of other points")
    ctx = core.CTX
    if method == "linear" and ctx.branch(ctx.fresh_bool("qhull")):
        raise QhullError("not enough points")
    ny, nx = values.inner._shape
    mg, vg = m.getter(), values.inner.getter()
    yg, xg = [arr.asarr(x).getter() for x in xi]
    sh = arr.asarr(xi[0])._shape
    I = z3.IntSort()
    mk = lambda n, srt: ctx.fresh_fun(n, *([I] * len(sh) + [srt]))
    V, N = mk("grid", z3.RealSort()), mk("gridnan", z3.BoolSort())
    W = [mk("gridsrc", I) for _ in range(4)]

    def valid(y, x):
        return z3.And(y >= 0, y < core.iterm(ny), x >= 0, x < core.iterm(nx),
                      core.bterm(core.cell_astype(mg((y, x)), bool)))

    def val(y, x):
        return core.num(core.cell_astype(vg((y, x)), float))

    def ax(app):
        idx = [app.arg(k) for k in range(len(sh))]
        inr = z3.And(*[z3.And(i >= 0, i < core.iterm(n)) for i, n in zip(idx, sh)])
        ctx.in_spec += 1
        try:
            ty, tx = core.iterm(yg(tuple(idx))), core.iterm(xg(tuple(idx)))
            v, n = V(*idx), N(*idx)
            here = val(ty, tx)
            a, b, a2, b2 = [w(*idx) for w in W]
            s1 = val(a, b)
            ctx.add_index((a, b))
            out = [z3.Implies(z3.And(inr, valid(ty, tx)), z3.And(v == here.real(), z3.Not(n))),
                   z3.Implies(z3.And(inr, z3.Not(n)), z3.And(valid(a, b)))]
            if method == "nearest":
                out += [z3.Implies(inr, z3.Not(n)), z3.Implies(inr, v == s1.real())]
                far = lambda y, x: (y - ty) * (y - ty) + (x - tx) * (x - tx)
                for (y, x) in list(ctx.index_tuples.get(2, {}).values()):
                    out.append(z3.Implies(z3.And(inr, valid(y, x)), far(a, b) <= far(y, x)))
            else:
                s2 = val(a2, b2)
                ctx.add_index((a2, b2))
                out.append(z3.Implies(z3.And(inr, z3.Not(n)), z3.And(valid(a2, b2), s1.real() <= v, v <= s2.real())))
            return out
        finally:
            ctx.in_spec -= 1
    ctx.uf_ax[V.name()] = ax
    dt = _np.dtype(float)

    def g(idx):
        ix = [core.iterm(arr.it(i)) for i in idx]
        return core.SymNum(V(*ix), None if method == "nearest" else N(*ix), dt)
    return arr.SymArray(sh, f=arr.memo(g), dt=dt)


def newton(func, x0, fprime=None, args=(), **k):
    """array root finding: the returned array is a root of func, cell by cell (convergence is assumed)"""
    from . import arr
    a = arr.asarr(x0)
    if a.ndim == 0:
        raise Unsupported("scalar newton")
    hold = []
    r = fresh_array("newton", a._shape, "float64", lambda v, idx: [core.cell_cmp("eq", hold[0](idx), 0)] if hold else [])
    F = func(r, *args)
    hold.append(arr.asarr(F).getter())
    return r


class interp1d(object):
    """linear interpolation through the given points, sorted by x; fill_value outside them"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=_np.nan, assume_sorted=False):
        from . import arr
        from .npshim import allconc
        x = arr.asarr(x)
        y = arr.asarr(y)
        n = x._shape[0]
        if kind != "linear" or not isinstance(n, int):
            raise Unsupported("interp1d kind/size")
        self.axis = axis % y.ndim
        order = list(range(n))
        if not assume_sorted:
            xc = x.conc()
            if xc is not None:
                order = [int(k) for k in _np.argsort(xc, kind="mergesort")]
            else:
                order = []
                for k in range(n):          # stable insertion sort, each comparison decided
                    p = len(order)
                    while p > 0 and core.cell_cmp("lt", x.get((k,)), x.get((order[p - 1],))):
                        p -= 1
                    order.insert(p, k)
        self.x, self.y, self.order, self.n = x, y, order, n
        self.bounds_error = bounds_error
        self.fill = fill_value

    def __call__(self, xnew):
        from . import arr, npshim
        xn = arr.asarr(xnew)
        X = [self.x.get((k,)) for k in self.order]
        y, ax, order = self.y, self.axis, self.order
        fill = self.fill
        ext = isinstance(fill, str) and fill == "extrapolate"
        if isinstance(fill, tuple):
            left, right = fill
        else:
            left = right = fill
        if not ext and (self.bounds_error or self.bounds_error is None and isinstance(fill, float) and fill != fill):
            bad = npshim.any(npshim.logical_or(xn < X[0], xn > X[-1]))
            if bad:
                raise ValueError("A value in x_new is outside the interpolation range.")
        yg, xg = y.getter(), xn.getter()
        m = xn.ndim

        def f(idx):
            pre, mid, post = idx[:ax], idx[ax:ax + m], idx[ax + m:]
            v = xg(mid)
            Y = [core.cell_astype(yg(pre + (k,) + post), float) for k in order]

            def seg(j):
                t = core.cell_bin("div", core.cell_bin("sub", Y[j + 1], Y[j]), core.cell_bin("sub", X[j + 1], X[j]))
                return core.cell_bin("add", Y[j], core.cell_bin("mul", t, core.cell_bin("sub", v, X[j])))

            def side(w, k):
                if ext:
                    return None
                w = arr.asarr(w)
                return w.get(()) if w.ndim == 0 else w.get(pre + post)
            if self.n == 1:
                r = Y[0]
            else:
                r = seg(self.n - 2)
                for j in range(self.n - 3, -1, -1):
                    r = core.cell_ite(core.cell_cmp("le", v, X[j + 1]), seg(j), r)
            if not ext:
                r = core.cell_ite(core.cell_cmp("lt", v, X[0]), side(left, 0), r)
                r = core.cell_ite(core.cell_cmp("gt", v, X[-1]), side(right, 1), r)
            return core.cell_astype(r, float)
        out = arr.SymArray(y._shape[:ax] + xn._shape + y._shape[ax + 1:], f=arr.memo(f), dt=_np.dtype(float))
        return out


class ModeResult(tuple):
    mode = property(lambda s: s[0])
    count = property(lambda s: s[1])


def mode(a, axis=0, nan_policy="propagate"):
    """scipy.stats.mode (1.6): the commonest value along an axis of known length, the smallest of those as common, and its count;
    the axis is kept with length one"""
    from . import arr
    a = arr.asarr(a)
    if a.isma or a.dt.kind == "f" or nan_policy != "propagate":
        raise Unsupported("stats.mode of masked or floating data")
    if axis is None:
        a, axis = a.ravel(), 0
    ax = axis % a.ndim
    n = a._shape[ax]
    if not isinstance(n, int) or not n:
        raise Unsupported("stats.mode over a symbolic dimension")
    g = a.getter()

    def best(i):
        v = [g(i[:ax] + (k,) + i[ax + 1:]) for k in range(n)]
        top = num = None
        for x in v:
            c = 0
            for y in v:
                c = core.cell_bin("add", c, core.cell_ite(core.cell_cmp("eq", x, y), 1, 0))
            if top is None:
                top, num = x, c
                continue
            b = core.cell_or(core.cell_cmp("gt", c, num), core.cell_and(core.cell_cmp("eq", c, num), core.cell_cmp("lt", x, top)))
            top, num = core.cell_ite(b, x, top), core.cell_ite(b, c, num)
        return top, num
    best = arr.memo(best)
    sh = a._shape[:ax] + (1,) + a._shape[ax + 1:]
    return ModeResult((arr.SymArray(sh, f=lambda i: best(i)[0], dt=a.dt), arr.SymArray(sh, f=lambda i: best(i)[1], dt=_np.dtype(int))))


def install(name, m):
    if name == "scipy.optimize":
        m.newton = newton
    if name == "scipy.interpolate":
        m.interp1d = interp1d
        m.griddata = griddata
        m.LinearNDInterpolator = LinearNDInterpolator
        m.RegularGridInterpolator = RegularGridInterpolator
    if name == "scipy.spatial.qhull":
        m.QhullError = QhullError
    if name in ("scipy.ndimage.morphology", "scipy.ndimage"):
        m.distance_transform_edt = distance_transform_edt
    if name == "scipy.special":
        m.ndtr, m.ndtri = ndtr, ndtri
    if name == "scipy.stats":
        m.norm = _Norm(name="norm")
        m.mode = mode
    if name == "scipy.stats._distn_infrastructure":
        m.rv_continuous = rv_continuous
    if name in ("scipy.ndimage.filters", "scipy.ndimage"):
        m.correlate = correlate
        m.maximum_filter = maximum_filter
    if name == "dask.array":
        from . import npshim
        m.zeros_like = lambda a, dtype=None, **k: npshim.zeros(a.shape, dtype or a.dtype)
    if name == "cartopy.crs":
        from . import loader
        import os
        m.__dict__.update({k: v for k, v in loader._exec_file("_minicartopy", os.path.join(loader.STUBS, "minicartopy.py"),
                                                               loops=False).__dict__.items() if not k.startswith("__")})
    if name in ("scipy.spatial", "scipy.spatial.ckdtree"):
        m.cKDTree = KDTree
    if name == "stratify":
        from . import loader
        import os
        k = loader._exec_file("_ministratify", os.path.join(loader.STUBS, "ministratify.py"), loops=False)
        m.interpolate, m.EXTRAPOLATE_NEAREST, m.EXTRAPOLATE_NAN = k.interpolate, k.EXTRAPOLATE_NEAREST, k.EXTRAPOLATE_NAN
    if name == "pandas":
        import datetime
        m.Timedelta = datetime.timedelta
