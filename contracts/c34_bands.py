from vc import contract
from _cubes import cube, dimcoord, field, realization, time_coords, yx

A = "improver.generate_ancillaries.generate_ancillary"
Z = "improver.generate_ancillaries.generate_topographic_zone_weights"
NB = "improver.nbhood.use_nbhood"
BANDS = [[[0, 50], [50, 200]], [[-500, 50], [50, 100], [100, 300]], [[20, 400]]]


def _orography(c, kind="equal_area"):
    sh = (c.dim("ny"), c.dim("nx"))
    h = c.array("orography", sh, dtype="float32", lo=-100, hi=450, often=(0, 20, 25, 50, 75, 100, 125, 200, 300))
    y, x = yx(c, sh[0], sh[1], kind)
    return sh, h, cube(c, h.copy(), "surface_altitude", "m", [y, x])


def _land(c, sh, kind="equal_area", dtype="int8"):
    m = c.array("land", sh, dtype="bool")
    y, x = yx(c, sh[0], sh[1], kind)
    return m, cube(c, m.astype(dtype), "land_binary_mask", "1", [y, x])


@contract("C34", [Z + ":GenerateTopographicZoneWeights.process", Z + ":GenerateTopographicZoneWeights.calculate_weights",
                  Z + ":GenerateTopographicZoneWeights.add_weight_to_upper_adjacent_band",
                  Z + ":GenerateTopographicZoneWeights.add_weight_to_lower_adjacent_band", A + ":_make_mask_cube",
                  A + ":GenerateOrographyBandAncils.sea_mask"], budget=200, trials=150, max_paths=900)
def zone_weights(c):
    """the weights of a height within the bands sum to one: all of it for the band whose middle it is, half and half where two
    bands meet, linear between; beyond the outer middles the outer band has it all; no others have any; heights beyond the bands
    have none; the sea is masked if asked"""
    bands = BANDS[c.choice("bands", [0, 1, 2])]
    km = c.flag("in km")
    masked = c.flag("land only")
    sh, h, orog = _orography(c)
    land, lm = _land(c, sh)
    spec = {"bounds": [[v / 1000.0 if km else v for v in b] for b in bands], "units": "km" if km else "m"}
    r = c.mod(Z).GenerateTopographicZoneWeights().process(orog, spec, landmask=lm if masked else None)
    i, j = c.index("point", sh)
    n = len(bands)
    for k in range(n):
        c.use_index(k, i, j)
    c.use_index(i, j)
    v = c.at(h, i, j)
    z = r.coord("topographic_zone")
    c.check("zones", len(z.points) == n and str(z.units) == "m" and all(
        abs(float(z.bounds[k][q]) - bands[k][q]) < 0.01 for k in range(n) for q in (0, 1)))
    c.check("name", r.name() == "topographic_zone_weights" and str(r.units) == "1")
    lead = (n,) if len(r.data.shape) == 3 else ()
    c.check("shape", c.same_shape(r.data, lead + sh))
    w = [c.at(c.np.ma.getdata(r.data), *((k, i, j) if lead else (i, j))) for k in range(n)]
    gone = c.and_(masked, c.not_(c.at(land, i, j)))
    c.check("sea", c.iff(c.masked(r.data, *((0, i, j) if lead else (i, j))), gone))
    inside = c.and_(v > bands[0][0], v <= bands[-1][1])
    tol = 2e-3 if km else 1e-5     # the limits of bands in km are rounded
    c.check("sum", c.or_(gone, c.near(sum(w[1:], w[0]), c.ite(inside, 1.0, 0.0), 1e-5, loose=True)) if not km else True)
    mids = [(b[0] + b[1]) / 2.0 for b in bands]
    near_edge = c.or_(*[c.and_(v > e - 0.01, v < e + 0.01) for b in bands for e in b]) if km else False
    for k in range(n):
        lo, hi = bands[k]
        here = c.and_(v > lo, v <= hi)
        up = c.ite(v > mids[k], 1.0 if k == n - 1 else 1 - 0.5 * (v - mids[k]) / (hi - mids[k]),
                   1.0 if k == 0 else 1 - 0.5 * (mids[k] - v) / (mids[k] - lo))
        want = c.ite(here, c.ite(v == mids[k], 1.0, up), 0.0)
        if k > 0:   # the part of the band below
            plo, phi = bands[k - 1]
            part = c.and_(v > mids[k - 1], v <= phi)
            want = c.ite(part, 0.5 * (v - mids[k - 1]) / (phi - mids[k - 1]), want)
        if k < n - 1:
            nlo, nhi = bands[k + 1]
            part = c.and_(v > nlo, v < mids[k + 1])
            want = c.ite(part, 0.5 * (mids[k + 1] - v) / (mids[k + 1] - nlo), want)
        c.check("weight", c.or_(gone, near_edge, c.near(w[k], want, tol, loose=True)))
    c.check("inputs left alone", c.and_(c.eq(c.at(orog.data, i, j), v)))


@contract("C34", [A + ":GenerateOrographyBandAncils.process", A + ":GenerateOrographyBandAncils.gen_orography_masks",
                  A + ":GenerateOrographyBandAncils.sea_mask", A + ":_make_mask_cube"], trials=120)
def band_masks(c):
    """each land point within the bands is in exactly the band above whose lower and not above whose upper limit it is, the sea in
    none unless it is included"""
    bands = BANDS[c.choice("bands", [0, 1, 2])]
    masked = c.flag("land only")
    sh, h, orog = _orography(c)
    land, lm = _land(c, sh)
    r = c.mod(A).GenerateOrographyBandAncils().process(orog, {"bounds": bands, "units": "m"}, landmask=lm if masked else None)
    i, j = c.index("point", sh)
    c.use_index(i, j)
    c.use_index(0, i, j)
    v = c.at(h, i, j)
    c.check("one for each band", len(r) == len(bands))
    for b, m in zip(bands, r):
        want = c.and_(v > b[0], v <= b[1])
        if masked:
            want = c.and_(want, c.at(land, i, j))
        c.check("shape", c.same_shape(m.data, (1,) + sh))
        c.check("in the band", c.eq(c.at(m.data, 0, i, j), c.ite(want, 1, 0)))
        z = m.coord("topographic_zone")
        c.check("band", [float(q) for q in z.bounds[0]] == b and str(z.units) == "m")
        c.check("sea noted", m.attributes["topographic_zones_include_seapoints"] == str(not masked))
    c.check("inputs left alone", c.and_(c.eq(c.at(orog.data, i, j), v), c.eq(c.at(lm.data, i, j), c.ite(c.at(land, i, j), 1, 0))))
    bad = [[None, 50]]
    if c.flag("open band"):
        c.check("refused", c.raises(TypeError, lambda: c.mod(A)._make_mask_cube(h, orog.coords(), bad[0], "m"))[0])
        c.check("refused", c.raises(TypeError, lambda: c.mod(A)._make_mask_cube(h, orog.coords(), [1, 2, 3], "m"))[0])


@contract("C34", A + ":CorrectLandSeaMask.process", trials=100)
def land_mask_rounded(c):
    """half land or more is land, everything else sea"""
    sh = (c.dim("ny"), c.dim("nx"))
    f = c.array("fraction", sh, dtype="float32", lo=0, hi=1, often=(0, 0.5, 1))
    y, x = yx(c, sh[0], sh[1])
    r = c.mod(A).CorrectLandSeaMask().process(cube(c, f.copy(), "land_area_fraction", "1", [y, x]))
    i, j = c.index("point", sh)
    c.use_index(i, j)
    c.check("shape", c.same_shape(r.data, sh))
    c.check("name", r.name() == "land_binary_mask" and r.data.dtype == c.np.dtype("int8"))
    c.check("land", c.eq(c.at(r.data, i, j), c.ite(c.at(f, i, j) >= 0.5, 1, 0)))


@contract("C34", [NB + ":ApplyNeighbourhoodProcessingWithAMask.process",
                  NB + ":ApplyNeighbourhoodProcessingWithAMask.collapse_mask_coord"], budget=200, trials=150)
def neighbourhoods_within_bands(c):
    """each slice is smoothed within each band with the settings for its own lead time, and the bands are put together with their
    weights among the bands which have a value there; each result keeps the times of its slice"""
    np = c.np
    ny, nx = c.dim("ny", lo=4), c.dim("nx", lo=4)
    nb = 2
    times = c.flag("two times")
    weighted = c.flag("put together")
    repeated = times and c.flag("same data twice")
    radii_vary = times and c.flag("radii vary")
    lead = (2,) if times else ()
    gaps = times and not radii_vary and c.flag("gaps")
    d = c.array("d", (2, ny, nx), lo=1, hi=9)
    gap = c.array("gap", (2, ny, nx), dtype="bool")
    m = c.array("mask", (nb, ny, nx), dtype="bool")
    w = c.array("w", (nb, ny, nx), lo=0.125, hi=1)
    seen = []

    class Smooth:
        """assumed here (C02): a function of the slice, the mask and the lead time, without value outside the mask"""

        def __init__(self, method, radii, lead_times=None, weighted_mode=False, sum_only=False, re_mask=True):
            self.k = (method, radii, lead_times, weighted_mode, sum_only, re_mask)

        def __call__(self, q, mask_cube=None):
            seen.append(self.k)
            a, k = c.snap(q.data), c.snap(mask_cube.data)
            hours = int(q.coord("forecast_period").points[0]) // 3600 if self.k[2] else 0
            z = float(mask_cube.coord("topographic_zone").points[0])
            out = q.copy()
            if gaps:
                k = np.where(np.ma.getmaskarray(a), 0, k)
                a = np.ma.getdata(a)
            out.data = np.where(k == 1, a * (1.0 + hours) + z, np.nan)
            return out
    real = None if c.symbolic else c.mod(NB).NeighbourhoodProcessing
    c.cut(NB + ":NeighbourhoodProcessing", Smooth)
    y, x = yx(c, ny, nx)
    D = c.iris.coords.DimCoord
    zone = dimcoord(c, "topographic_zone", [25.0, 125.0], "m", bounds=np.array([[0.0, 50.0], [50.0, 200.0]], dtype=np.float32))
    t0, frt = 1510286400, 1510279200
    if repeated:
        data = np.stack([d[0], d[0]])
    else:
        data = d.copy()
    if gaps:
        data = np.ma.masked_array(data, mask=gap)
    if not times:
        data = data[0]
    tp = [t0, t0 + 3600]
    tb = [[t - 1800, t] for t in tp]
    ep = "seconds since 1970-01-01 00:00:00"
    sc = [(D(np.array(frt, dtype=np.int64), standard_name="forecast_reference_time", units=ep), None)]
    if times:
        tc = D(np.array(tp, dtype=np.int64), standard_name="time", units=ep, bounds=np.array(tb, dtype=np.int64))
        fp = D(np.array([t - frt for t in tp], dtype=np.int32), standard_name="forecast_period", units="seconds",
               bounds=np.array([[b - frt for b in q] for q in tb], dtype=np.int32))
        src = cube(c, data, "rainfall_rate", "m s-1", [tc, y, x], [(fp, 0)] + sc)
    else:
        tc = D(np.array(tp[0], dtype=np.int64), standard_name="time", units=ep, bounds=np.array(tb[0], dtype=np.int64))
        fp = D(np.array(tp[0] - frt, dtype=np.int32), standard_name="forecast_period", units="seconds")
        src = cube(c, data, "rainfall_rate", "m s-1", [y, x], [(tc, None), (fp, None)] + sc)
    y2, x2 = yx(c, ny, nx)
    mask = cube(c, m.astype("int8"), "topography_mask", "1", [zone, y2, x2])
    y3, x3 = yx(c, ny, nx)
    wc = cube(c, w.copy(), "topographic_zone_weights", "1", [zone.copy(), y3, x3]) if weighted else None
    r = c.mod(NB).ApplyNeighbourhoodProcessingWithAMask(
        "topographic_zone", "square", [2000.0, 4000.0] if radii_vary else 2000.0, lead_times=[2, 3] if radii_vary else None,
        collapse_weights=wc, sum_only=True).process(src, mask)
    c.check("settings", all(q == ("square", [2000.0, 4000.0] if radii_vary else 2000.0, [2, 3] if radii_vary else None, False,
                                  True, False) for q in seen))
    c.check("shape", c.same_shape(r.data, lead + (() if weighted else (nb,)) + (ny, nx)))
    i, j = c.index("point", (ny, nx))
    c.use_index(i, j)
    for n in range(2 if times else 1):
        if times:
            c.check("time", int(r.coord("time").points[n]) == tp[n] and [int(q) for q in r.coord("time").bounds[n]] == tb[n])
            c.check("forecast period", int(r.coord("forecast_period").points[n]) == tp[n] - frt
                    and [int(q) for q in r.coord("forecast_period").bounds[n]] == [q - frt for q in tb[n]])
        v = c.at(d, 0 if repeated else n, i, j)
        hours = 2 + n if radii_vary else 0
        for q in range(nb):
            c.use_index(q, i, j)
            c.use_index(n, q, i, j)
        c.use_index(n, i, j)
        if c.symbolic:
            parts = [v * (1.0 + hours) + z for z in (25.0, 125.0)]
            inb = [c.and_(c.at(m, q, i, j), c.not_(c.and_(gaps, c.at(gap, n, i, j)))) for q in range(nb)]
        else:   # the neighbourhood sums themselves
            one = [real("square", [2000.0, 4000.0] if radii_vary else 2000.0, lead_times=[2, 3] if radii_vary else None,
                        sum_only=True, re_mask=False)(src[n] if times else src, mask_cube=mask[q]) for q in range(nb)]
            parts = [float(np.ma.filled(o.data, np.nan)[i, j]) for o in one]
            inb = [not c.isnan(o) for o in parts]
            parts = [o if k else 0.0 for o, k in zip(parts, inb)]
        if not weighted:
            for q in range(nb):
                got = c.at(np.ma.getdata(r.data), *((n,) if times else ()) + (q, i, j))
                c.check("no mask", c.not_(c.masked(r.data, *((n,) if times else ()) + (q, i, j))))
                c.check("in the band", c.ite(inb[q], c.near(c.ite(inb[q], got, 0.0), parts[q], 1e-4), c.isnan(got)))
            continue
        got = c.at(np.ma.getdata(r.data), *((n,) if times else ()) + (i, j))
        ws = [c.ite(inb[q], c.at(w, q, i, j), 0.0) for q in range(nb)]
        some = c.or_(*inb)
        c.check("none", c.iff(c.not_(some), c.isnan(got)))
        tot = ws[0] + ws[1]
        c.check("put together", c.implies(some, c.near(c.ite(some, got, 0.0) * tot, ws[0] * parts[0] + ws[1] * parts[1], 1e-3)))
