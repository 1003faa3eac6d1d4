import datetime as _dt
from vc import contract
from _cubes import EPOCH, cube, dimcoord, field, time_coords, yx

F = "improver.nowcasting.forecasting"
U = "improver.nowcasting.utilities"
NOW = 1510286400


def _winds(c, u, v, units="m s-1", km=False):
    """x and y velocity cubes on a 2 km grid"""
    ny, nx = u.shape[-2], u.shape[-1]
    out = []
    for nm, a in (("advection_velocity_x", u), ("advection_velocity_y", v)):
        y, x = yx(c, ny, nx)
        if km:
            for co in (y, x):
                co.convert_units("km")
        out.append(cube(c, a, nm, units, [y, x]))
    return out


def _parts(c, ny, nx, sx, sy):
    """is the place (sx, sy) on the grid, and the four points around it: (is it needed, row, column, weight across, weight along)"""
    fx, fy = c.f("trunc", sx), c.f("trunc", sy)
    inside = c.and_(c.ge(sx, 0), c.le(sx, nx - 1), c.ge(sy, 0), c.le(sy, ny - 1))
    wx, wy = sx - fx, sy - fy
    out = []
    for dx in (0, 1):
        for dy in (0, 1):
            px, py = fx + dx, fy + dy
            ax, ay = (wx if dx else 1 - wx), (wy if dy else 1 - wy)
            out.append((c.and_(inside, ax > 0, ay > 0, px < nx, py < ny), py, px, ax, ay))
    return inside, out


@contract("C29", F + ":AdvectField._increment_output_array", trials=60)
def one_source_added(c):
    """the contribution of one source point is its value times its two weights; points it does not apply to keep what they had"""
    ny, nx = c.dim("ny"), c.dim("nx")
    d = c.array("d", (ny, nx), dtype="float32", lo=0, hi=16)
    o = c.array("o", (ny, nx), dtype="float32", lo=0, hi=16)
    m = c.array("cond", (ny, nx), dtype="bool")
    xs = c.array("xs", (ny, nx), dtype="int64", lo=-3, hi=9)
    ys = c.array("ys", (ny, nx), dtype="int64", lo=-3, hi=9)
    wx = c.array("wx", (ny, nx), dtype="float32", lo=0, hi=1)
    wy = c.array("wy", (ny, nx), dtype="float32", lo=0, hi=1)
    c.assume_all((ny, nx), lambda *ix: c.implies(c.at(m, *ix), c.and_(c.ge(c.at(xs, *ix), 0), c.lt(c.at(xs, *ix), nx),
                                                                     c.ge(c.at(ys, *ix), 0), c.lt(c.at(ys, *ix), ny))))
    i, j = c.index("point", (ny, nx))
    out = c.np.array(o)
    xg, yg = c.np.meshgrid(c.np.arange(nx), c.np.arange(ny))
    c.fn(F + ":AdvectField._increment_output_array")(d, out, m, xg, yg, xs, ys, wx, wy)
    on = c.at(m, i, j)
    was, got = c.at(o, i, j), c.at(out, i, j)
    c.check("elsewhere", c.implies(c.not_(on), c.eq(got, was)))
    px, py = c.ite(on, c.at(xs, i, j), 0), c.ite(on, c.at(ys, i, j), 0)
    want = was + c.at(d, py, px) * c.at(wx, i, j) * c.at(wy, i, j)
    c.check("added", c.implies(on, c.eq(got, want) if c.symbolic else c.near(got, want, 1e-4)))


@contract("C29", F + ":AdvectField._advect_field", trials=250, budget=150)
def carried_by_the_flow(c):
    """each point takes the value at the place the flow brings it from, the four points around that place being weighted by their
    nearness; a point whose source is off the grid, or misses a value it needs, is missing"""
    np = c.np
    ny, nx = c.dim("ny"), c.dim("nx")
    T = c.choice("T", [1, 8, 0])
    d = c.array("d", (ny, nx), dtype="float32", lo=0, hi=16)
    ms = c.array("gaps", (ny, nx), dtype="bool") if c.flag("masked") else None
    u = c.array("u", (ny, nx), dtype="float32", lo=-2, hi=2)
    v = c.array("v", (ny, nx), dtype="float32", lo=-2, hi=2)
    if not c.symbolic:         # places that single precision can tell apart
        u, v = [(np.round(a * 8) / 8).astype(np.float32) for a in (u, v)]
    i, j = c.index("point", (ny, nx))
    A = c.mod(F).AdvectField
    calls = []
    if c.symbolic:
        real = A.__dict__["_increment_output_array"].__func__

        def add(*a, **k):
            """contract of one_source_added, the product it adds being left opaque"""
            if len(a) != 9 or k:
                return real(*a, **k)
            indata, out, cond, xd, yd, xs, ys, xw, yw = a
            c.check("written in place", c.implies(c.at(cond, i, j), c.and_(c.eq(c.at(xd, i, j), j), c.eq(c.at(yd, i, j), i))))
            part = c.real("part%d" % len(calls), 0, 16)
            on = c.at(cond, i, j)
            qx, qy = c.ite(on, c.at(xs, i, j), 0), c.ite(on, c.at(ys, i, j), 0)
            gap = c.isnan(c.at(indata, qy, qx))
            calls.append((on, c.at(xs, i, j), c.at(ys, i, j), c.at(xw, i, j), c.at(yw, i, j), gap, part, qx, qy, c.at(indata, qy, qx)))
            nan = c.from_fn((ny, nx), lambda p, q: c.ite(gap, np.nan, 0.0))
            new = np.where(cond, out + part + nan, out)
            out[:] = new
        c.cut(F + ":AdvectField._increment_output_array", add)
    p = A.__new__(A)
    src = d if ms is None else c.masked_array(d, ms)
    r = p._advect_field(src, u, v, T)
    got, gone = c.at(np.ma.getdata(r), i, j), c.masked(r, i, j)
    if T == 0:
        c.check("no time, no change", c.eq(got, c.at(d, i, j)))
        c.check("no time, same gaps", c.iff(gone, c.at(ms, i, j) if ms is not None else False))
        return
    sx, sy = j - c.at(u, i, j) * T, i - c.at(v, i, j) * T
    there, parts = _parts(c, ny, nx, sx, sy)
    c.check("type", c.dtype_is(r, "float32"))
    c.check("source left alone", c.eq(c.at(np.ma.getdata(src), i, j), c.at(d, i, j)))
    tot = 0.0
    for k, (used, py, px, ax, ay) in enumerate(parts):
        qx, qy = c.ite(used, px, 0), c.ite(used, py, 0)
        if ms is not None:
            there = c.and_(there, c.not_(c.and_(used, c.at(ms, qy, qx))))
        if len(calls) == 4:
            on, xs, ys, xw, yw, gap, part, hx, hy, val = calls[k]
            # a source that has weight is looked up, at its own place and with its own weights; one without is not missed
            c.check("source looked up", c.implies(used, c.and_(on, c.eq(xs, px), c.eq(ys, py), c.eq(xw, ax), c.eq(yw, ay))))
            c.check("its value", c.implies(c.and_(used, c.not_(gap)), c.eq(val, c.at(d, qy, qx))))
            c.check("no other", c.implies(c.and_(there, on, c.not_(used)), c.and_(c.not_(gap), c.or_(c.le(xw, 0), c.le(yw, 0)))))
            c.assume(c.implies(c.and_(on, c.or_(c.eq(xw, 0), c.eq(yw, 0))), c.eq(part, 0)))
            tot = tot + c.ite(used, part, 0.0)
        else:
            tot = tot + c.ite(used, c.at(d, qy, qx) * ax * ay, 0.0)
    c.check("missing", c.iff(gone, c.not_(there)))
    c.check("value", c.implies(there, c.eq(got, tot) if c.symbolic else c.near(got, tot, 1e-3)))


def _now(c, t, units=EPOCH):
    np, D = c.np, c.iris.coords.DimCoord
    return D(np.array(t, dtype=np.int64), standard_name="time", units=units)


@contract("C29", [F + ":AdvectField.process", F + ":AdvectField.__init__", F + ":AdvectField._update_time",
                  F + ":AdvectField._add_forecast_reference_time", F + ":AdvectField._add_forecast_period",
                  F + ":AdvectField._create_output_cube"], trials=150, budget=150)
def nowcast_made(c):
    """the flow moves the field by speed times time over grid length, each in the same units; the nowcast is valid that time later,
    its reference time is the time of the analysis, and the analysis is left alone"""
    np = c.np
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    t = NOW + c.int("t", 0, 10 ** 7)
    step = c.choice("step", [900, 90, 5400])
    units = c.choice("units", ["m s-1", "km h-1"])
    km = c.flag("grid in km")
    d = c.array("d", (ny, nx), dtype="float32", lo=0, hi=16)
    u = c.array("u", (ny, nx), dtype="float32", lo=-20, hi=20)
    v = c.array("v", (ny, nx), dtype="float32", lo=-20, hi=20)
    vx, vy = _winds(c, u, v, units, km)
    A = c.mod(F).AdvectField
    seen = []
    real = A._advect_field

    def flow(self, data, gx, gy, timestep):
        seen.append((data, gx, gy, timestep))
        return c.np.ma.masked_array(data + 1, mask=np.zeros(data.shape, dtype=bool))
    c.replace(F + ":AdvectField._advect_field", flow)
    y, x = vx.coord("projection_y_coordinate").copy(), vx.coord("projection_x_coordinate").copy()
    old = c.choice("carries", [None, "lead time"])
    aux = [(_now(c, t), None)] + (time_coords(c, NOW)[1:] if old else [])
    cu = cube(c, d, "rainfall_rate", "mm h-1", [y, x], aux, attributes={"institution": "Met Office", "source": "Radarnet"}
              if c.flag("institution") else {})
    i, j = c.index("point", (ny, nx))
    p = A(vx, vy, attributes_dict=c.choice("attributes", [None, {"title": "Nowcast"}]))
    r = p.process(cu, _dt.timedelta(seconds=step))
    if len(seen) == 1:
        dd, gx, gy, ts = seen[0]
        k = 1.0 if units == "m s-1" else 1 / 3.6
        c.check("step", int(ts) == step)
        for nm, g, a in (("across", gx, u), ("along", gy, v)):
            c.check("displacement " + nm, c.near(c.at(g, i, j) * 2000.0, c.at(a, i, j) * k, 1e-3))
    c.check("result", c.eq(c.at(np.ma.getdata(r.data), i, j), c.at(d, i, j) + 1))
    c.check("valid time", c.eq(c.at(r.coord("time").points, 0), t + step))
    c.check("cycle", c.eq(c.at(r.coord("forecast_reference_time").points, 0), t))
    c.check("lead time", int(r.coord("forecast_period").points[0]) == step and str(r.coord("forecast_period").units) in ("seconds", "s"))
    c.check("types", c.dtype_is(r.coord("time").points, "int64") and c.dtype_is(r.coord("forecast_reference_time").points, "int64")
            and c.dtype_is(r.coord("forecast_period").points, "int32"))
    c.check("still a", r.name() == "rainfall_rate" and str(r.units) == "mm h-1")
    want = "Met Office Nowcast" if "institution" in cu.attributes else "Nowcast"
    c.check("source", r.attributes["source"] == want)
    c.check("analysis left alone", c.and_(c.eq(c.at(cu.data, i, j), c.at(d, i, j)), c.eq(c.at(cu.coord("time").points, 0), t)))


@contract("C29", [F + ":AdvectField.process", F + ":AdvectField.__init__"], trials=30)
def flow_refused(c):
    """velocities on different grids, a field on another grid than the velocities, or without a time, are refused"""
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    mk = lambda nm: c.array(nm, (ny, nx), dtype="float32", lo=-20, hi=20)
    why = c.choice("why", ["winds differ", "field differs", "no time", "levels"])
    vx, vy = _winds(c, mk("u"), mk("v"))
    y, x = yx(c, ny, nx, x0=0.0 if why != "field differs" else 500.0)
    A = c.mod(F).AdvectField
    err = c.mod("iris").exceptions.InvalidCubeError
    c.use_index(0)
    c.use_index(1)
    if why == "winds differ":
        y2, x2 = yx(c, ny, nx, y0=2000.0)
        vz = cube(c, mk("w"), "advection_velocity_y", "m s-1", [y2, x2])
        c.check("refused", c.raises(err, lambda: A(vx, vz))[0])
        return
    if why == "levels":
        h = dimcoord(c, "height", [10.0, 20.0], "m")
        vz = cube(c, c.array("w", (2, ny, nx), dtype="float32", lo=-2, hi=2), "advection_velocity_y", "m s-1", [h, y, x])
        c.check("refused", c.raises(err, lambda: A(vx, vz))[0])
        return
    cu = cube(c, mk("d"), "rainfall_rate", "mm h-1", [y, x], [] if why == "no time" else [(_now(c, NOW), None)])
    p = A(vx, vy)
    c.check("refused", c.raises(err, lambda: p.process(cu, _dt.timedelta(seconds=900)))[0])


@contract("C29", [U + ":ApplyOrographicEnhancement.process", U + ":ApplyOrographicEnhancement._select_orographic_enhancement_cube",
                  U + ":ApplyOrographicEnhancement._apply_orographic_enhancement",
                  U + ":ApplyOrographicEnhancement._apply_minimum_precip_rate",
                  "improver.utilities.temporal:extract_nearest_time_point"], trials=200, budget=200)
def orography_applied(c):
    """orographic enhancement is added to, or taken off, precipitation of at least 1/32 mm/h only, using the enhancement nearest in
    time; what is taken off never leaves less than 1/32 mm/h where there was that much; inputs are left alone"""
    np = c.np
    op = c.choice("operation", ["add", "subtract"])
    units = c.choice("units", ["mm h-1", "m s-1"])
    n = c.choice("times", [1, 2])
    ny, nx = c.dim("ny"), c.dim("nx")
    k = 1.0 if units == "mm h-1" else 1 / 3.6e6
    hi = 16 if units == "mm h-1" else 16 / 3.6e6
    p = c.array("p", (ny, nx), dtype="float32", lo=0, hi=hi)
    gaps = c.array("gaps", (ny, nx), dtype="bool") if c.flag("masked") else None
    e = c.array("e", ((n,) if n > 1 else ()) + (ny, nx), dtype="float32", lo=0, hi=8)
    late = c.choice("offset", [0, 600, 1500, 2400])
    y, x = yx(c, ny, nx)
    t0 = NOW + late
    pc = cube(c, p if gaps is None else c.masked_array(p, gaps), "rainfall_rate", units, [y, x], [(_now(c, t0), None)])
    if n > 1:
        tc = c.iris.coords.DimCoord(np.array([NOW, NOW + 3600], dtype=np.int64), standard_name="time", units=EPOCH)
        oe = cube(c, e, "orographic_enhancement", "mm h-1", [tc, y, x])
    else:
        oe = cube(c, e, "orographic_enhancement", "mm h-1", [y, x], [(_now(c, NOW), None)])
    i, j = c.index("point", (ny, nx))
    for q in range(n):
        c.use_index(*(((q,) if n > 1 else ()) + (i, j)))
    A = c.mod(U).ApplyOrographicEnhancement
    if n == 1 and late > 1800:
        c.check("too far off in time", c.raises(ValueError, lambda: A(op).process(pc, oe))[0])
        return
    many = c.flag("list")
    (r,) = A(op).process([pc] if many else pc, oe)
    near = 1 if n > 1 and late > 1800 else 0
    ee = c.at(e, *(((near,) if n > 1 else ()) + (i, j))) * k
    was = c.at(p, i, j)
    low = k / 32
    # not within rounding of the threshold
    c.assume(c.or_(was < low * 0.999, was >= low * 1.001))
    used = c.ite(was < low, 0.0, ee)
    if op == "add":
        want = was + used
    else:
        c.assume(c.or_(was - used < low * 0.999, was - used >= low * 1.001))
        want = c.ite(c.and_(was >= low, was - used <= low), low, was - used)
    got = c.at(np.ma.getdata(r.data), i, j)
    gone = False if gaps is None else c.at(gaps, i, j)
    c.check("value", c.or_(gone, c.near(got / k, want / k, 1e-3)))
    c.check("gaps", c.iff(c.masked(r.data, i, j), gone))
    c.check("units", str(r.units) == units and r.name() == "rainfall_rate")
    c.check("precipitation left alone", c.eq(c.at(np.ma.getdata(pc.data), i, j), was))
    for q in range(n):
        ix = ((q,) if n > 1 else ()) + (i, j)
        c.check("enhancement left alone", c.and_(c.eq(c.at(oe.data, *ix), c.at(e, *ix)), str(oe.units) == "mm h-1"))


@contract("C29", [F + ":CreateExtrapolationForecast.process", F + ":CreateExtrapolationForecast.extrapolate",
                  F + ":CreateExtrapolationForecast.__init__"], trials=60, budget=120)
def enhancement_stays_put(c):
    """rain is carried by the flow without its orographic enhancement, which is taken off before and put back, for the new time,
    after; without enhancement the field itself is carried; rain without enhancement is refused"""
    np = c.np
    ny, nx = c.dim("ny", lo=2), c.dim("nx", lo=2)
    rain = c.flag("rain")
    oro = c.flag("enhancement")
    lead, gap = c.choice("leads", [(30, 15), (20, 30), (60, 60)])
    d = c.array("d", (ny, nx), dtype="float32", lo=0, hi=16)
    u, v = [c.array(nm, (ny, nx), dtype="float32", lo=-20, hi=20) for nm in "uv"]
    vx, vy = _winds(c, u, v)
    y, x = yx(c, ny, nx)
    cu = cube(c, d, "rainfall_rate" if rain else "air_temperature", "mm h-1" if rain else "K", [y, x], [(_now(c, NOW), None)])
    oe = cube(c, d, "orographic_enhancement", "mm h-1", [y, x], [(_now(c, NOW), None)]) if oro else None
    i, j = c.index("point", (ny, nx))
    E = c.mod(F).CreateExtrapolationForecast
    if rain and not oro:
        c.check("refused", c.raises(ValueError, lambda: E(cu, vx, vy))[0])
        return
    log = []

    def enhance(self, cubes, o):
        cubes = [cubes] if isinstance(cubes, c.iris.cube.Cube) else cubes
        log.append((self.operation, o))
        return c.iris.cube.CubeList([q.copy(data=q.data + (1 if self.operation == "add" else -2)) for q in cubes])

    def flow(self, q, step):
        log.append(("flow", step, q))
        f = q.copy(data=q.data * 4)
        f.coord("time").points = f.coord("time").points + int(step.total_seconds())
        return f
    c.replace(U + ":ApplyOrographicEnhancement.process", enhance)
    c.replace(F + ":AdvectField.process", flow)
    p = E(cu, vx, vy, orographic_enhancement_cube=oe)
    rs = p.process(gap, lead)
    leads = [k for k in range(0, lead + 1) if k % gap == 0]
    c.check("lead times", len(rs) == len(leads))
    for k, r in zip(leads, rs):
        c.check("time", int(r.coord("time").points[0]) == NOW + 60 * k)
        was = c.at(d, i, j)
        c.check("value", c.near(c.at(r.data, i, j), (was - 2) * 4 + 1 if oro else was * 4, 1e-3))
    ops = [q[0] for q in log]
    c.check("steps", ops == (["subtract"] + ["flow", "add"] * len(leads) if oro else ["flow"] * len(leads)))
    if oro:
        c.check("enhancement used", all(q[1] is oe for q in log if q[0] != "flow"))
    c.check("analysis left alone", c.eq(c.at(cu.data, i, j), c.at(d, i, j)))


@contract("C29", U + ":ExtendRadarMask.process", trials=80, budget=100)
def coverage_masks(c):
    """radar rain rates stay exactly where the coverage says rain could be seen (1 or 2) and are missing elsewhere; a coverage for
    other points or times is refused"""
    np = c.np
    n = c.choice("times", [1, 2])
    ny, nx = c.dim("ny"), c.dim("nx")
    sh = ((n,) if n > 1 else ()) + (ny, nx)
    d = c.array("d", sh, dtype="float32", lo=0, hi=16)
    g = c.array("gaps", sh, dtype="bool")
    v = c.array("coverage", sh, dtype="int32", lo=0, hi=3)
    y, x = yx(c, ny, nx)
    tc = c.iris.coords.DimCoord(np.array([NOW, NOW + 900], dtype=np.int64), standard_name="time", units=EPOCH)
    mk = lambda a, nm, un, t=0: cube(c, a, nm, un, [tc, y, x] if n > 1 else [y, x], [] if n > 1 else [(_now(c, NOW + t), None)])
    rad = mk(c.masked_array(d, g), "rainfall_rate", "mm h-1")
    P = c.mod(U).ExtendRadarMask()
    if n == 1 and c.flag("other time"):
        c.check("refused", c.raises(ValueError, lambda: P.process(rad, mk(v, "radar_coverage", "1", 900)))[0])
        return
    cov = mk(v, "radar_coverage", "1")
    k, i, j = c.index("point", (n, ny, nx))
    ix = ((k,) if n > 1 else ()) + (i, j)
    c.use_index(*ix)
    r = P.process(rad, cov)
    w = c.at(v, *ix)
    seen = c.or_(c.eq(w, 1), c.eq(w, 2))
    c.check("shape", c.same_shape(r.data, sh))
    c.check("missing", c.iff(c.masked(r.data, *ix), c.not_(seen)))
    c.check("rates", c.eq(c.at(np.ma.getdata(r.data), *ix), c.at(d, *ix)))
    c.check("same kind", r.name() == "rainfall_rate" and str(r.units) == "mm h-1")
    c.check("radar left alone", c.and_(c.eq(c.at(np.ma.getdata(rad.data), *ix), c.at(d, *ix)),
                                       c.iff(c.masked(rad.data, *ix), c.at(g, *ix))))


HOLES = {"single": [(4, 4)], "pair": [(4, 4), (5, 6)], "edge": [(0, 4)], "near edge": [(2, 5), (2, 6)], "none": [],
         "24": [(r, q) for r in range(3, 9) for q in range(3, 7)], "25": [(r, q) for r in range(3, 8) for q in range(3, 8)]}


@contract("C29", [U + ":FillRadarHoles.process", U + ":FillRadarHoles._find_and_interpolate_speckle"], trials=60, budget=120)
def holes_filled(c):
    """a gap in the radar is filled where fewer than 30% of the 9 x 9 points about it are missing (those off the grid count as
    missing): with the mean, in log space, of the valid points within two, or with no rain where one of them has none; all other
    points, valid or missing, stay as they are"""
    np = c.np
    holes = HOLES[c.choice("holes", sorted(HOLES))]
    units = c.choice("units", ["mm h-1", "m s-1"] if holes == HOLES["pair"] else ["mm h-1"])
    n = 11
    k = 1.0 if units == "mm h-1" else 1 / 3.6e6
    d = c.array("d", (n, n), dtype="float32", lo=0.0625 if len(holes) > 3 else 0, hi=16)
    if not c.symbolic:
        d = d + (np.float32(0) if c.rng.random() < 0.5 else np.float32(0.1))
    m = np.array([[(r, q) in holes for q in range(n)] for r in range(n)])
    y, x = yx(c, n, n)
    cu = cube(c, c.masked_array(np.array(d), m), "rainfall_rate", "mm h-1", [y, x])
    cu.convert_units(units)
    i, j = c.choice("point", [p for p in [(4, 4), (5, 6), (0, 4), (2, 5), (2, 6), (3, 3), (8, 6)] if p in holes] + [(5, 5), (0, 0)])
    was = c.at(np.ma.getdata(cu.data), i, j)
    off = lambda r, q: not (0 <= r < n and 0 <= q < n)
    miss = sum(1 for r in range(i - 4, i + 5) for q in range(j - 4, j + 5) if off(r, q) or (r, q) in holes)
    near = [(r, q) for r in range(i - 2, i + 3) for q in range(j - 2, j + 3) if not off(r, q) and (r, q) not in holes]
    fill = (i, j) in holes and miss < 24.3
    r = c.mod(U).FillRadarHoles().process(cu)
    got = c.at(np.ma.getdata(r.data), i, j)
    c.check("still missing", c.iff(c.masked(r.data, i, j), (i, j) in holes and not fill))
    c.check("units", str(r.units) == units)
    c.check("input left alone", c.and_(c.eq(c.at(np.ma.getdata(cu.data), i, j), was), c.iff(c.masked(cu.data, i, j), (i, j) in holes)))
    if not fill:
        if (i, j) not in holes:
            c.check("valid points kept", c.near(got, c.at(d, i, j) * k, 1e-4 * k))
        return
    vals = [c.at(d, r_, q) for r_, q in near]
    for v in vals:          # not within rounding of the trace amount
        c.assume(c.or_(v < 0.00099, v > 0.00101))
    if c.symbolic:
        dry = c.or_(*[v <= 0.001 for v in vals])
        if bool(dry):
            c.check("dry", c.eq(got, 0))
            return
        if units != "mm h-1":      # (the logarithm of a value converted there and back is only known to the solver as another one)
            c.check("filled", c.not_(c.isnan(got)))
            return
        mean = c.sum_list([c.f("log10", v) for v in vals]) / len(vals)
        c.check("filled", c.near(got / k, c.f("pow", 10.0, mean), 1e-3))
    else:
        if min(vals) <= 0.001:
            c.check("dry", got == 0)
        else:
            c.check("filled", c.near(got / k, 10 ** (sum(c.f("log10", v) for v in vals) / len(vals)), 1e-2))
