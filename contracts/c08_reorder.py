import itertools

from vc import contract
from _cubes import EPOCH, cube, dimcoord, field, realization, yx

MOD = "improver.ensemble_copula_coupling.ensemble_copula_coupling"


@contract("C08", "improver.utilities.indexing_operations:choose", trials=150)
def choose_(c):
    """each element is drawn from the sub-array its index names, at the same remaining position"""
    n, ny, nx = c.dim("n"), c.dim("ny"), c.dim("nx")
    a = c.array("a", (n, ny, nx), dtype="float32", lo=-50, hi=50)
    k = c.array("k", (n, ny, nx), dtype="int64", lo=0, hi=n if c.flag("large") else n - 1)
    M = c.mod("improver.utilities.indexing_operations")
    m, y, x = c.index("cell", (n, ny, nx))
    c.use_index(m, y, x)
    raised, r = c.raises(IndexError, lambda: M.choose(k, a))
    if raised:
        if not c.symbolic:
            c.check("index too large", k.max() > n - 1)
        return
    c.check("in range", c.at(k, m, y, x) < n)
    c.check("shape", c.same_shape(r, (n, ny, nx)))
    c.check("drawn", c.eq(c.at(r, m, y, x), c.at(a, c.at(k, m, y, x), y, x)))
    bad, _ = c.raises(ValueError, lambda: M.choose(k[:, :, :], c.array("b", (n + 1, ny, nx), dtype="float32")))
    c.check("shapes must match", bad)


def _stack(c, n, nt, ny, nx, name, lead):
    y, x = yx(c, ny, nx)
    t = c.iris.coords.DimCoord(c.np.array([3600 * k for k in range(nt)], dtype=c.np.int64), standard_name="time", units=EPOCH)
    return cube(c, name, "air_temperature", "K", [lead, t, y, x])


def _reorder(masked):
    def f(c):
        n = c.choice("members", [2, 3, 4] if not masked else [2, 3] if not c.symbolic else [2])
        nt = c.choice("times", [1, 2])
        ny, nx = c.dim("ny"), c.dim("nx")
        ties = False if c.symbolic else c.flag("ties")
        seed = c.choice("seed", [None, 0] if not masked else [None])
        raw = c.array("raw", (n, nt, ny, nx), dtype="float32", lo=-50, hi=50,
                      values=None if c.symbolic or not ties else [0.0, 1.0, 2.0])
        cal = c.array("cal", (n, nt, ny, nx), dtype="float32", lo=-50, hi=50, sorted=("le", 0))
        raw0, cal0 = c.snap(raw), c.snap(cal)
        if masked:
            mk = c.array("mk", (nt, ny, nx), dtype="bool")
            full = c.from_fn((n, nt, ny, nx), lambda m, t, i, j: c.at(mk, t, i, j), "bool")
            calin, rawin = c.masked_array(cal, full), c.masked_array(raw, full) if c.flag("raw masked") else raw
        else:
            calin, rawin = cal, raw
        p = dimcoord(c, "percentile", [100.0 * (k + 1) / (n + 1) for k in range(n)], "%")
        P = c.mod(MOD).EnsembleReordering()
        r = P(_stack(c, n, nt, ny, nx, calin, p), _stack(c, n, nt, ny, nx, rawin, realization(c, n)), random_seed=seed)
        c.check("shape", c.same_shape(r, (n, nt, ny, nx) if nt > 1 else (n, 1, ny, nx)))
        pts = r.coord("realization").points
        c.check("realizations", c.and_(*[c.eq(c.at(pts, k), k) for k in range(n)]))
        t, y, x = c.index("point", (nt, ny, nx))
        if masked:
            ok = c.not_(c.at(mk, t, y, x))
            if c.isma(r.data):
                c.check("mask", c.and_(*[c.iff(c.masked(r.data, k, t, y, x), c.at(mk, t, y, x)) for k in range(n)]))
            else:
                c.check("mask kept", ok)
        else:
            ok = True
        o = [c.at(r.data, k, t, y, x) for k in range(n)]
        v = [c.at(cal0, k, t, y, x) for k in range(n)]
        w = [c.at(raw0, k, t, y, x) for k in range(n)]
        for a in range(n):
            for b in range(n):
                if a != b:
                    c.check("order", c.implies(c.and_(ok, w[a] < w[b]), o[a] <= o[b]))
        if c.symbolic or ok is True or bool(ok):
            c.check("same values", c.implies(ok, c.or_(*[c.and_(*[c.eq(o[k], v[s[k]]) for k in range(n)])
                                                         for s in itertools.permutations(range(n))])))
    return f


for _m in (False, True):
    _f = _reorder(_m)
    _f.__name__ = "reorder_masked" if _m else "reorder"
    _f.__doc__ = ("every point keeps exactly its calibrated values, reordered so that a member with a smaller raw value never "
                  "gets the larger calibrated value" + ("; masked points stay masked" if _m else ""))
    contract("C08", [MOD + ":EnsembleReordering.process", MOD + ":EnsembleReordering.rank_ecc",
                     MOD + ":EnsembleReordering._check_input_cube_masks", MOD + ":RebadgePercentilesAsRealizations.process"],
             budget=300, trials=100)(_f)


@contract("C08", [MOD + ":EnsembleReordering._recycle_raw_ensemble_realizations", MOD + ":EnsembleReordering.process"],
          budget=200, trials=60)
def recycle(c):
    """with more percentiles than members the members are used again in turn; with fewer only the first ones are used"""
    mlen, plen = c.choice("sizes", [(2, 3), (3, 2), (2, 5), (3, 3)])
    ny, nx = c.dim("ny"), c.dim("nx")
    raw = c.array("raw", (mlen, 1, ny, nx), dtype="float32", lo=-50, hi=50)
    cal = c.array("cal", (plen, 1, ny, nx), dtype="float32", lo=-50, hi=50, sorted=("le", 0))
    p = dimcoord(c, "percentile", [100.0 * (k + 1) / (plen + 1) for k in range(plen)], "%")
    off = c.choice("first realization", [0, 7])
    lead = dimcoord(c, "realization", [off + k for k in range(mlen)], "1", dtype="int32")
    P = c.mod(MOD).EnsembleReordering
    r = P._recycle_raw_ensemble_realizations(_stack(c, plen, 1, ny, nx, cal, p), _stack(c, mlen, 1, ny, nx, raw, lead), "percentile")
    pts = r.coord("realization").points
    c.check("length", len(pts) == plen)
    c.check("numbers", c.and_(*[c.eq(c.at(pts, k), off + k) for k in range(plen)]))
    t, y, x = c.index("point", (1, ny, nx))
    g = r.data
    ix = (lambda k: (k, t, y, x)) if g.ndim == 4 else (lambda k: (k, y, x))
    for k in range(plen):
        c.check("member %d" % k, c.eq(c.at(g, *ix(k)), c.at(raw, k % mlen, t, y, x)))


@contract("C08", MOD + ":EnsembleReordering._check_input_cube_masks", trials=150)
def reorder_masks(c):
    """a masked raw ensemble must share the calibrated ensemble's mask, the same for every member; anything else is refused"""
    n, ny, nx = c.choice("members", [2, 3]), c.dim("ny"), c.dim("nx")
    same = c.flag("same")
    mk = c.array("mk", (ny, nx), dtype="bool")
    one = lambda: c.from_fn((n, ny, nx), lambda k, i, j: c.at(mk, i, j), "bool")
    ma = one() if same else c.array("ma", (n, ny, nx), dtype="bool")
    mb = one() if same or c.flag("half") else c.array("mb", (n, ny, nx), dtype="bool")
    a, b = c.array("a", (n, ny, nx)), c.array("b", (n, ny, nx))
    m, y, x = c.index("cell", (n, ny, nx))
    for k in range(n):
        c.use_index(k, y, x)
    c.use_index(y, x)
    c.assume(c.at(mb, m, y, x))                # the raw ensemble has a masked value
    pa = c.flag("calibrated masked")
    ca = field(c, c.masked_array(a, ma) if pa else a, "air_temperature", "K", lead=[realization(c, n)])
    cb = field(c, c.masked_array(b, mb), "air_temperature", "K", lead=[realization(c, n)])
    raised, _ = c.raises(ValueError, lambda: c.mod(MOD).EnsembleReordering._check_input_cube_masks(ca, cb))
    if not pa:
        c.check("unmasked calibrated ensemble refused", raised)
        return
    if same:
        c.check("accepted", not raised)
    elif not raised:
        some = c.at(ma, 0, y, x)
        if c.symbolic:
            c.check("equal masks", c.implies(some, c.and_(*[c.and_(c.at(ma, k, y, x), c.at(mb, k, y, x)) for k in range(n)])))
        elif ma.any():
            c.check("equal masks", (ma == ma[0]).all() and (mb == ma[0]).all())
