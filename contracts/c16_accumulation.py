"""C16: precipitation accumulations."""
from vc import contract
from contracts._cubes import dimcoord, field, time_coords

A = "improver.nowcasting.accumulation"
FRT = 1510286400


def _rate(c, d, fp, units="m s-1", frt=FRT):
    return field(c, d, "lwe_precipitation_rate", units, time=False, aux=time_coords(c, t=frt + fp, frt=frt))


def _integral(c, rates, dt, i, j):
    tot = 0
    for a, b in zip(rates[:-1], rates[1:]):
        tot = tot + (c.at(a, i, j) + c.at(b, i, j)) * dt / 2
    return tot


@contract("C16", A + ":Accumulation._calculate_accumulation", trials=80)
def accumulate(c):
    """the sum over sub-periods of the mean of the bounding rates times the interval; never negative for rates that are not;
    missing wherever a contributing rate is"""
    ny, nx = c.dim("ny"), c.dim("nx")
    n = c.choice("cubes", [2, 3, 5])
    dt = c.choice("interval", [1, 300, 3600])
    ds = [c.array("r%d" % k, (ny, nx), dtype="float32", lo=0, hi=2.0 ** -8, mask=True) for k in range(n)]
    r = c.fn(A + ":Accumulation._calculate_accumulation")([_rate(c, d.copy(), 900 * k) for k, d in enumerate(ds)], dt)
    i, j = c.index("point", (ny, nx))
    m = c.or_(*[c.masked(d, i, j) for d in ds])
    c.check("missing", c.iff(c.masked(r, i, j), m))
    v = c.at(r, i, j)
    c.check("integral", c.implies(c.not_(m), c.and_(c.near(v, _integral(c, ds, dt, i, j), 1e-4), v >= 0)))


@contract("C16", A + ":Accumulation.process", trials=60, budget=200, max_paths=3000)
def accumulation_process(c):
    """each accumulation is the time integral of the rates over exactly the period its time bounds state, ending at a requested
    forecast period; whatever the order and units of the input rates and whatever the plugin accumulated before"""
    ny, nx = c.dim("ny"), c.dim("nx")
    dt = c.choice("interval", [300, 900])
    period = c.choice("period", [None, 1, 2])
    fps = c.choice("forecast periods", [None, (3,), (2, 3)])
    order, mm, out, again = c.choice("order, rates in mm/h, output units, plugin used before", [
        ((0, 1, 2, 3), False, "m", False), ((3, 1, 0, 2), True, "mm", False), ((3, 1, 0, 2), False, "m", True),
        ((0, 1, 2, 3), True, "m", True)])
    n = 4
    ds = [c.array("r%d" % k, (ny, nx), dtype="float32", lo=0, hi=2.0 ** -8) for k in range(n)]

    def cubes(ds, n):
        cs = []
        for k in range(n):
            d = ds[k].copy()
            if mm:
                d = c.from_fn((ny, nx), lambda i, j, k=k: c.at(ds[k], i, j) * 3600000, "float32") if c.symbolic \
                    else (d * c.np.float64(3600000)).astype(c.np.float32)
            cs.append(_rate(c, d, k * dt, "mm h-1" if mm else "m s-1"))
        return cs
    p = c.mod(A).Accumulation(accumulation_units=out, accumulation_period=None if period is None else period * dt,
                              forecast_periods=None if fps is None else [f * dt for f in fps])
    if again:
        p.process(c.iris.cube.CubeList(cubes(ds, 4 if fps else 3)))
    cs = cubes(ds, n)
    r = p.process(c.iris.cube.CubeList([cs[k] for k in order]))
    per = 3 if period is None else period
    want = [f for f in (fps or (1, 2, 3)) if f >= per]
    c.check("one for every period", len(r) == len(want))
    i, j = c.index("point", (ny, nx))
    k = 1000 if out == "mm" else 1
    for cube, f in zip(r, want):
        t, q = cube.coord("time"), cube.coord("forecast_period")
        c.check("name and units", cube.name() == "lwe_thickness_of_precipitation_amount" and str(cube.units) == out)
        c.check("period", [int(x) for x in c.np.array(t.bounds).ravel()] == [FRT + (f - per) * dt, FRT + f * dt]
                and [int(x) for x in c.np.array(q.bounds).ravel()] == [(f - per) * dt, f * dt]
                and int(t.points[0]) == FRT + f * dt and int(q.points[0]) == f * dt)
        v = c.at(cube.data, i, j)
        w = _integral(c, ds[f - per:f + 1], dt, i, j) * k
        c.check("integral", c.near(v, w, 1e-3 if c.symbolic else 1e-3 + 1e-4 * abs(w)))
    c.check("input kept", all(str(x.units) == ("mm h-1" if mm else "m s-1") for x in cs))


@contract("C16", A + ":Accumulation._check_inputs", trials=40)
def accumulation_refused(c):
    """rates at uneven intervals and periods the interval does not divide, or shorter than it, are refused"""
    ny, nx = c.dim("ny"), c.dim("nx")
    ds = [c.array("r%d" % k, (ny, nx), dtype="float32", lo=0, hi=2.0 ** -8) for k in range(3)]
    P = c.mod(A).Accumulation
    last = c.choice("third time", [900, 599, 601, 659])
    mk = lambda fps: c.iris.cube.CubeList([_rate(c, d, f) for d, f in zip(ds, fps)])
    c.check("uneven", c.raises(ValueError, lambda: P(accumulation_period=300, forecast_periods=[300]).process(mk([0, 300, last])))[0])
    c.check("not divisible", c.raises(ValueError, lambda: P(accumulation_period=750).process(mk([0, 300, 600])))[0])
    c.check("too short", c.raises(ValueError, lambda: P(accumulation_period=200).process(mk([0, 300, 600])))[0])
