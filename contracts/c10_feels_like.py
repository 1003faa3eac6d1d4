from vc import contract
from contracts._cubes import field

F = "improver.feels_like_temperature"
P = "improver.psychrometric_calculations.psychrometric_calculations"


@contract("C10", F + ":_feels_like_temperature", trials=200)
def blend(c):
    """wind chill below 10 C, apparent temperature above 20 C, the linear mix in between; continuous at both ends"""
    ny, nx = c.dim("ny"), c.dim("nx")
    t = c.array("t", (ny, nx), dtype="float32", lo=-60, hi=60, often=[10.0, 20.0, 15.0])
    a = c.array("a", (ny, nx), dtype="float32", lo=-80, hi=80)
    w = c.array("w", (ny, nx), dtype="float32", lo=-80, hi=80)
    r = c.fn(F + ":_feels_like_temperature")(t, a, w)
    c.check("shape", c.same_shape(r, (ny, nx)))
    c.check("dtype", c.dtype_is(r, "float32"))

    def post(i, j):
        T, A, W, v = c.at(t, i, j), c.at(a, i, j), c.at(w, i, j), c.at(r, i, j)
        al = (T - 10) / 10
        mix = al * A + (1 - al) * W
        return c.and_(c.implies(T <= 10, c.near(v, W, 1e-4)), c.implies(T >= 20, c.near(v, A, 1e-4)),
                      c.implies(c.and_(T >= 10, T <= 20), c.near(v, mix, 1e-4)),
                      c.ge(v, c.min(A, W), 1e-4), c.le(v, c.max(A, W), 1e-4))
    c.check_all("value", (ny, nx), post)


def _chill(c, t, w):
    f = c.f("pow", c.max(w, 4.824), 0.16)
    return 13.12 + 0.6215 * t - 11.37 * f + 0.3965 * t * f


@contract("C10", F + ":_calculate_wind_chill", trials=200)
def wind_chill(c):
    """the wind chill index of temperature (C) and wind speed (km/h), with winds below 4.824 km/h counted as that speed"""
    ny, nx = c.dim("ny"), c.dim("nx")
    t = c.array("t", (ny, nx), dtype="float32", lo=-60, hi=60)
    w = c.array("w", (ny, nx), dtype="float32", lo=0, hi=200, often=[4.824, 0.0])
    r = c.fn(F + ":_calculate_wind_chill")(t, w)
    c.check_all("value", (ny, nx), lambda i, j: c.near(c.at(r, i, j), _chill(c, c.at(t, i, j), c.at(w, i, j)), 1e-3))
    i, j = c.index("a", (ny, nx))
    k, l = c.index("b", (ny, nx))
    c.check("light winds count alike", c.implies(
        c.and_(c.at(w, i, j) <= 4.8, c.at(w, k, l) <= 4.8, c.at(t, i, j) == c.at(t, k, l)), c.near(c.at(r, i, j), c.at(r, k, l), 1e-3)))


@contract("C10", F + ":_calculate_apparent_temperature", trials=100)
def apparent(c):
    """apparent temperature from temperature, wind and actual vapour pressure"""
    ny, nx = c.dim("ny"), c.dim("nx")
    t = c.array("t", (ny, nx), dtype="float32", lo=-60, hi=60)
    w = c.array("w", (ny, nx), dtype="float32", lo=0, hi=60)
    h = c.array("h", (ny, nx), dtype="float32", lo=0, hi=1)
    p = c.array("p", (ny, nx), dtype="float32", lo=80000, hi=105000)
    svp = lambda T, pp: c.opaque("svp", T, pp)
    if c.symbolic:
        c.cut(F + ":calculate_svp_in_air", lambda T, pp: c.from_fn((ny, nx), lambda i, j: svp(c.at(T, i, j), c.at(pp, i, j)), "float64"))
    r = c.fn(F + ":_calculate_apparent_temperature")(t, w, h, p)
    i, j = c.index("point", (ny, nx))
    T = c.at(t, i, j)
    if c.symbolic:
        s = svp(T + 273.15, c.at(p, i, j))
    else:
        s = float(c.mod(P).calculate_svp_in_air(c.np.array([T + 273.15]), c.np.array([float(c.at(p, i, j))]))[0])
    want = -2.7 + 1.04 * T + 2.0 * (s * c.at(h, i, j) / 1000) - 0.65 * c.at(w, i, j)
    c.check("value", c.near(c.at(r, i, j), want, 2e-3))


@contract("C10", F + ":calculate_feels_like_temperature", trials=60)
def feels_like_cube(c):
    """whatever the input units: the blend of both indices, in the units of the temperature; inputs are not altered"""
    ny, nx = c.dim("ny"), c.dim("nx")
    tu = c.choice("temperature units", ["K", "degC"])
    wu = c.choice("wind units", ["m s-1", "km h-1"])
    hu = c.choice("humidity units", ["1", "%"])
    off = 273.15 if tu == "K" else 0.0
    t = c.array("t", (ny, nx), dtype="float32", lo=-40 + off, hi=45 + off, often=[10 + off, 20 + off])
    w = c.array("w", (ny, nx), dtype="float32", lo=0, hi=40)
    h = c.array("h", (ny, nx), dtype="float32", lo=0, hi=1)
    p = c.array("p", (ny, nx), dtype="float32", lo=90000, hi=105000)
    kw, kh = (1.0 if wu == "m s-1" else 3.6), (1.0 if hu == "1" else 100.0)
    m = c.fn(F + ":calculate_feels_like_temperature")
    app = lambda T, W, H, Q: c.opaque("app", T, W, H, Q)
    chill = lambda T, W: c.opaque("chill", T, W)
    if c.symbolic:
        c.cut(F + ":_calculate_apparent_temperature", lambda T, W, H, Q: c.from_fn(
            (ny, nx), lambda i, j: app(c.at(T, i, j), c.at(W, i, j), c.at(H, i, j), c.at(Q, i, j)), "float32"))
        c.cut(F + ":_calculate_wind_chill", lambda T, W: c.from_fn(
            (ny, nx), lambda i, j: chill(c.at(T, i, j), c.at(W, i, j)), "float32"))
        mk = lambda a, k: c.from_fn((ny, nx), lambda i, j: c.at(a, i, j) * k, "float32")
        W, H = mk(w, kw), mk(h, kh)
    else:
        W, H = w * c.np.float32(kw), h * c.np.float32(kh)
    cubes = [field(c, t.copy(), "air_temperature", tu), field(c, W, "wind_speed", wu), field(c, H, "relative_humidity", hu),
             field(c, p.copy(), "air_pressure", "Pa")]
    r = m(*cubes)
    c.check("name", r.name() == "feels_like_temperature" and r.units == cubes[0].units)
    c.check("units kept", str(cubes[1].units) == wu and str(cubes[2].units) == hu)
    i, j = c.index("point", (ny, nx))
    c.check("input kept", c.eq(c.at(cubes[0].data, i, j), c.at(t, i, j)))
    T = c.at(t, i, j) - off
    V = c.at(w, i, j)
    if c.symbolic:
        Q = c.at(p, i, j)
        A, Wc = app(T, V, c.at(h, i, j), Q), chill(T, V * 3.6)
    else:
        a1 = lambda v: c.np.array([v], dtype=c.np.float32)
        M = c.mod(F)
        A = float(M._calculate_apparent_temperature(a1(T), a1(V), a1(c.at(h, i, j)), a1(c.at(p, i, j)))[0])
        Wc = _chill(c, T, V * 3.6)
    al = (T - 10) / 10
    want = c.ite(T < 10, Wc, c.ite(T > 20, A, al * A + (1 - al) * Wc)) + off
    c.check("value", c.near(c.at(r.data, i, j), want, 1e-4 if c.symbolic else 2e-2))
