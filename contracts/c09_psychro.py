from vc import contract
from contracts._cubes import cube, dimcoord, field

P = "improver.psychrometric_calculations.psychrometric_calculations"
G = "improver.generate_ancillaries.generate_svp_table"
N = 1552


def _goff(c, t):
    """Goff-Gratch saturation vapour pressure over water (above the triple point) and ice, in hPa"""
    tp = 273.16
    lg = lambda x: c.f("log10", x)
    p10 = lambda x: c.f("pow", 10.0, x)
    w = (10.79574 * (1.0 - tp / t) - 5.028 * lg(t / tp) + 1.50475e-4 * (1.0 - p10(-8.2969 * (t / tp - 1.0)))
         + 0.42873e-3 * (p10(4.76955 * (1.0 - tp / t)) - 1.0) + 0.78614)
    i = -9.09685 * (tp / t - 1.0) - 3.56654 * lg(tp / t) + 0.87682 * (1.0 - t / tp) + 0.78614
    return w, i, p10


@contract("C09", G + ":SaturatedVapourPressureTable.saturation_vapour_pressure_goff_gratch", trials=60)
def goff_gratch(c):
    """the tabulated function is positive and follows the ice formula up to the triple point, the water formula above"""
    t = c.array("t", (2,), dtype="float64", lo=175, hi=370)
    r = c.mod(G).SaturatedVapourPressureTable().saturation_vapour_pressure_goff_gratch(t)
    for k in range(2):
        x = c.at(t, k)
        v = c.at(r, k)
        w, i, p10 = _goff(c, x)
        warm = x > 273.16
        if c.symbolic:
            c.check("water", c.implies(warm, c.eq(v, p10(w))))
            c.check("ice", c.implies(c.not_(warm), c.eq(v, p10(i))))
        else:
            c.check("value", c.near(v, p10(w) if warm else p10(i), 1e-9 * abs(v)))
        c.check("positive", c.gt(v, 0))


@contract("C09", G + ":SaturatedVapourPressureTable.process", trials=3)
def svp_table(c):
    """the table covers 183.15 K to 338.25 K in steps of 0.1 K, in Pa, increasing by at least 0.4% a step"""
    M = c.mod(P)
    t = M.SaturatedVapourPressureTable(t_min=M.SVP_T_MIN, t_max=M.SVP_T_MAX, t_increment=M.SVP_T_INCREMENT).process()
    c.check("units", str(t.units) == "Pa")
    pts = t.coord("air_temperature").points
    d = t.data
    c.check("length", len(pts) == N and d.shape[0] == N)
    v = [c.at(d, k) for k in range(N)]
    p = [c.at(pts, k) for k in range(N)]
    c.check("temperatures", c.and_(*[c.near(p[k], 183.15 + 0.1 * k, 1e-6, True) for k in range(N)]))
    c.check("increasing", c.and_(*[v[k + 1] > 1.004 * v[k] for k in range(N - 1)]))
    c.check("positive", v[0] > 0)
    c.check("triple point", c.near(v[900], 610.7, 0.5, True))
    c.check("boiling range", c.near(v[N - 1], 25000, 300, True))
    c.check("lookup uses this table", c.and_(*[c.near(c.at(M._svp_table(), k), v[k], 1e-9) for k in range(0, N, 50)]))


def _tab(c):
    t = c.array("table", (N,), dtype="float64", lo=0.001, hi=1e5)
    c.cut(P + ":_svp_table", lambda: t)
    return t if c.symbolic else c.mod(P)._svp_table()


def _clip(c, x, lo, hi):
    return c.ite(x < lo, lo, c.ite(x > hi, hi, x))


@contract("C09", P + ":_svp_from_lookup", trials=100)
def svp_lookup(c):
    """linear interpolation in the table, flat beyond its ends, and never decreasing as temperature rises"""
    ny, nx = c.dim("ny"), c.dim("nx")
    tab = _tab(c)
    t = c.array("t", (ny, nx), dtype="float64", lo=150, hi=400)
    r = c.fn(P + ":_svp_from_lookup")(t)
    c.check("shape", c.same_shape(r, (ny, nx)))
    i, j = c.index("a", (ny, nx))
    k, l = c.index("b", (ny, nx))
    LO, HI, ST = 183.15, 338.25 - 0.1, 0.1
    sv, pos, at = [], [], []
    for (y, x) in ((i, j), (k, l)):
        T = c.at(t, y, x)
        v = c.at(r, y, x)
        p = (_clip(c, T, LO, HI) - LO) / ST
        n = c.f("floor", p)
        n = n if c.symbolic else int(n)
        a, b = c.at(tab, n), c.at(tab, n + 1)
        c.check("index", c.and_(n >= 0, n + 1 <= N - 1))
        c.check("interpolated", c.near(v, a + (p - n) * (b - a), 1e-6))
        c.check("between", c.implies(a <= b, c.and_(c.ge(v, a, 1e-6), c.le(v, b, 1e-6))))
        sv.append(v); pos.append(p); at.append((n, a, b))
    # monotone given an increasing table
    (n1, a1, b1), (n2, a2, b2) = at
    inc = c.and_(a1 <= b1, a2 <= b2, c.implies(n1 < n2, b1 <= a2))
    c.check("rises with temperature", c.implies(c.and_(inc, c.at(t, i, j) <= c.at(t, k, l)), c.le(sv[0], sv[1], 1e-6)))


def _svp_cut(c, ny, nx):
    s = c.array("svp", (ny, nx), dtype="float64", lo=0.001, hi=3e4)
    c.cut(P + ":_svp_from_lookup", lambda t: s)
    return s


@contract("C09", P + ":calculate_svp_in_air", trials=100)
def svp_in_air(c):
    """saturation vapour pressure over water corrected for the pressure of moist air"""
    ny, nx = c.dim("ny"), c.dim("nx")
    t = c.array("t", (ny, nx), dtype="float32", lo=200, hi=320)
    p = c.array("p", (ny, nx), dtype="float32", lo=100, hi=110000)
    s = _svp_cut(c, ny, nx)
    if not c.symbolic:
        s = c.mod(P)._svp_from_lookup(t)
    r = c.fn(P + ":calculate_svp_in_air")(t, p)

    def post(i, j):
        tc = c.at(t, i, j) - 273.15
        want = c.at(s, i, j) * (1 + 1e-8 * c.at(p, i, j) * (4.5 + 6e-4 * tc * tc))
        return c.and_(c.near(c.at(r, i, j), want, 1e-2), c.ge(c.at(r, i, j), c.at(s, i, j), 1e-2))
    c.check_all("value", (ny, nx), post)


@contract("C09", P + ":saturated_humidity", trials=100)
def saturated_humidity(c):
    """mixing ratio at saturation: between 0 and 1, the ratio of vapour to dry air, larger for larger vapour pressure"""
    ny, nx = c.dim("ny"), c.dim("nx")
    t = c.array("t", (ny, nx), dtype="float32", lo=200, hi=320)
    p = c.array("p", (ny, nx), dtype="float32", lo=100, hi=110000)
    s = c.array("svp", (ny, nx), dtype="float64", lo=0.001, hi=3e4)
    c.cut(P + ":calculate_svp_in_air", lambda a, b: s)
    if not c.symbolic:
        s = c.mod(P).calculate_svp_in_air(t, p)
    r = c.fn(P + ":saturated_humidity")(t, p)
    c.check("dtype", c.dtype_is(r, "float32"))
    E = 0.62198
    i, j = c.index("a", (ny, nx))
    k, l = c.index("b", (ny, nx))
    q = []
    for y, x in ((i, j), (k, l)):
        e, pp, v = c.at(s, y, x), c.at(p, y, x), c.at(r, y, x)
        d = c.max(e, pp) - (1 - E) * e
        c.check("value", c.near(v * d, E * e, 1e-2 if not c.symbolic else 1e-4))
        c.check("range", c.and_(c.gt(v, 0), c.le(v, 1, 1e-6)))
        q.append(v)
    c.check("rises with vapour pressure", c.implies(c.and_(c.at(p, i, j) >= c.at(p, k, l), c.at(s, i, j) <= c.at(s, k, l)),
                                                    c.le(q[0], q[1], 1e-6)))


@contract("C09", [P + ":dry_adiabatic_temperature", P + ":dry_adiabatic_pressure"], trials=200)
def dry_adiabatic(c):
    """raising air lowers its temperature, and the temperature and pressure relations are mutual inverses"""
    ny, nx = c.dim("ny"), c.dim("nx")
    t0 = c.array("t0", (ny, nx), dtype="float64", lo=200, hi=320)
    p0 = c.array("p0", (ny, nx), dtype="float64", lo=10000, hi=110000)
    p1 = c.array("p1", (ny, nx), dtype="float64", lo=10000, hi=110000)
    M = c.mod(P)
    t1 = M.dry_adiabatic_temperature(t0, p0, p1)
    b = M.dry_adiabatic_pressure(t0, p0, t1)
    i, j = c.index("point", (ny, nx))
    T0, P0, P1, T1 = c.at(t0, i, j), c.at(p0, i, j), c.at(p1, i, j), c.at(t1, i, j)
    K = 287.0 / 1005.0
    f = c.f("pow", P1 / P0, K)
    c.check("poisson", c.near(T1, T0 * f, 1e-6))
    if c.symbolic:
        c.lemma("factor", c.eq(T1 / T0, f))
        g = c.f("pow", f, 1005.0 / 287.0)
        c.lemma("inverse factor", c.near(g, P1 / P0, 1e-5, True))
    c.check("inverse", c.near(c.at(b, i, j), P1, 0.2, True))
    c.check("cools when raised", c.iff(P1 < P0, T1 < T0))
    c.check("unchanged at the same pressure", c.implies(P1 == P0, c.near(T1, T0, 1e-9)))


@contract("C09", [P + ":_latent_heat_release", P + ":_calculate_latent_heat"], trials=100)
def latent_heat(c):
    """latent heat decreases linearly with temperature; condensing vapour releases it"""
    ny, nx = c.dim("ny"), c.dim("nx")
    t = c.array("t", (ny, nx), dtype="float32", lo=200, hi=320)
    q1 = c.array("q1", (ny, nx), dtype="float32", lo=0, hi=0.1)
    q2 = c.array("q2", (ny, nx), dtype="float32", lo=0, hi=0.1)
    L = c.fn(P + ":_calculate_latent_heat")(t)
    r = c.fn(P + ":_latent_heat_release")(q1, q2, t)

    def post(i, j):
        l = 2.501e6 - 2.34e3 * (c.at(t, i, j) - 273.15)
        return c.and_(c.near(c.at(L, i, j), l, 20), c.near(c.at(r, i, j), l / 1005.0 * (c.at(q1, i, j) - c.at(q2, i, j)), 1e-2))
    c.check_all("value", (ny, nx), post)


@contract("C09", P + ":adjust_for_latent_heat", trials=100)
def adjust_latent(c):
    """saturated air warms by the latent heat of the vapour it loses; other air is unchanged; nothing ever cools.
    Assumed of scipy's newton: the returned humidity solves the equation it was given."""
    n = c.dim("n")
    t = c.array("t", (n,), dtype="float32", lo=250, hi=310)
    q = c.array("q", (n,), dtype="float32", lo=0.0005, hi=0.02)
    p = c.array("p", (n,), dtype="float32", lo=60000, hi=105000)
    sat = lambda T, pp: c.opaque("qsat", T, pp)
    if c.symbolic:
        c.cut(P + ":saturated_humidity", lambda T, pp: c.from_fn((n,), lambda k: sat(c.at(T, k), c.at(pp, k)), "float32"))
    t0, q0 = t.copy(), q.copy()
    T, Q = c.fn(P + ":adjust_for_latent_heat")(t, q, p)
    i = c.index("point", (n,))[0]
    Ti, Qi, Pi, To, Qo = c.at(t0, i), c.at(q0, i), c.at(p, i), c.at(T, i), c.at(Q, i)
    c.check("inputs kept", c.and_(c.eq(c.at(t, i), Ti), c.eq(c.at(q, i), Qi)))
    L = (2.501e6 - 2.34e3 * (Ti - 273.15)) / 1005.0
    c.check("never cools", c.ge(To, Ti, 1e-6))
    c.check("never moister", c.le(Qo, Qi, 1e-9))
    c.check("energy", c.near(To - Ti, L * (Qi - Qo), 2e-4 if c.symbolic else 1e-3))
    if c.symbolic:
        s0, s1 = sat(Ti, Pi), sat(To, Pi)
        unch = c.and_(c.eq(To, Ti), c.eq(Qo, Qi))
        c.check("unchanged or saturated", c.or_(unch, c.near(Qo, s1, 1e-9)))
        mono = c.and_(c.implies(To >= Ti, s1 >= s0))
        c.check("unsaturated air unchanged", c.implies(c.and_(mono, Qi < s0), unch))
    else:
        M = c.mod(P)
        s0, s1 = (float(M.saturated_humidity(c.np.array([a]), c.np.array([float(Pi)]))[0]) for a in (float(Ti), float(To)))
        c.check("not supersaturated", Qo <= s1 + 2e-5)
        c.check("unsaturated air unchanged", Qi > s0 - 1e-6 or (To == Ti and Qo == Qi))
        c.check("saturated air adjusted", Qi < s0 + 1e-5 or abs(Qo - s1) < 2e-5)


@contract("C09", P + ":HumidityMixingRatio.process", trials=60)
def humidity_mixing_ratio(c):
    """humidity mixing ratio is relative humidity times the saturated mixing ratio at the same temperature and pressure"""
    ny, nx = c.dim("ny"), c.dim("nx")
    t = c.array("t", (ny, nx), dtype="float32", lo=200, hi=320)
    p = c.array("p", (ny, nx), dtype="float32", lo=1000, hi=110000)
    h = c.array("rh", (ny, nx), dtype="float32", lo=0, hi=1.5)
    s = c.array("sat", (ny, nx), dtype="float32", lo=0, hi=1)
    c.cut(P + ":saturated_humidity", lambda a, b: s)
    if not c.symbolic:
        s = c.mod(P).saturated_humidity(t, p)
    order = c.choice("order", [(0, 1, 2), (2, 0, 1)])
    cs = [field(c, t.copy(), "air_temperature", "K"), field(c, p.copy(), "surface_air_pressure", "Pa"),
          field(c, h.copy(), "relative_humidity", "1")]
    r = c.mod(P).HumidityMixingRatio()(*[cs[k] for k in order])
    c.check("name", r.name() == "humidity_mixing_ratio" and str(r.units) == "kg kg-1")
    c.check("shape", c.same_shape(r.data, (ny, nx)))
    c.check_all("value", (ny, nx), lambda i, j: c.near(c.at(r.data, i, j), c.at(s, i, j) * c.at(h, i, j), 1e-6))
