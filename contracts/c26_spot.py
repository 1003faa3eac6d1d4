"""C26: spot data."""
from vc import contract
from contracts._cubes import cube, dimcoord, field, realization, time_coords, yx
from contracts._spots import METHODS, neighbours, sites

SE = "improver.spotdata.spot_extraction"


@contract("C26", SE + ":SpotExtraction.process", trials=80)
def spot_extraction(c):
    """each site gets the value, in every leading slice, of exactly the grid point its neighbour entry names"""
    ny, nx, n = c.dim("ny"), c.dim("nx"), c.dim("sites")
    m = c.choice("members", [0, 2])
    which = c.choice("method", METHODS)
    first = c.flag("x before y")
    masked = c.flag("masked")
    shape = ((m,) if m else ()) + ((nx, ny) if first else (ny, nx))
    d = c.array("d", shape, dtype="float32", lo=-50, hi=50, mask=masked)
    xi = c.array("xi", (2, n), dtype="int32", lo=0, cell=lambda v, *q: v < nx)
    yi = c.array("yi", (2, n), dtype="int32", lo=0, cell=lambda v, *q: v < ny)
    dz = c.array("dz", (2, n), dtype="float32", lo=-100, hi=100)
    dd = d.copy()
    if first:
        dd = c.np.ma.swapaxes(dd, -1, -2) if not c.symbolic and masked else c.np.swapaxes(dd, -1, -2)
    cu = field(c, dd, "air_temperature", "K", [realization(c, m)] if m else [], attributes={"model_grid_hash": "h", "title": "t"})
    if first:
        cu.transpose([0, 2, 1] if m else [1, 0])
    nb = neighbours(c, xi, yi, dz)
    r = c.mod(SE).SpotExtraction(neighbour_selection_method=which)(nb, cu)
    c.check("shape", c.same_shape(r.data, ((m, n) if m else (n,))))
    c.check("metadata", r.name() == "air_temperature" and str(r.units) == "K" and r.attributes["model_grid_hash"] == "h")
    k = c.index("site", (n,))[0]
    a = METHODS.index(which)
    x, y = c.at(xi, a, k), c.at(yi, a, k)
    for q in range(m or 1):
        h = (q,) if m else ()
        src = h + ((x, y) if first else (y, x))
        src = src if c.symbolic else tuple(int(s) for s in src)
        c.check("missing", c.iff(c.masked(r.data, *(h + (k,))), c.masked(d, *src)))
        c.check("value", c.or_(c.masked(d, *src), c.eq(c.at(r.data, *(h + (k,))), c.at(d, *src))))
    c.check("site", c.and_(c.eq(c.at(r.coord("altitude").points, k), k * 10.0), c.eq(c.at(r.coord("wmo_id").points, k), k + 3000)))


@contract("C26", SE + ":SpotExtraction.process", trials=20)
def spot_extraction_refused(c):
    """neighbours of another grid, and methods the neighbour cube does not hold, are refused"""
    n = c.dim("sites")
    d = c.array("d", (3, 4), dtype="float32", lo=-50, hi=50)
    z = c.array("xi", (2, n), dtype="int32", lo=0, hi=2)
    mk = lambda h: field(c, d.copy(), "air_temperature", "K", attributes={"model_grid_hash": h})
    S = c.mod(SE).SpotExtraction
    c.check("other grid", c.raises(ValueError, lambda: S()(neighbours(c, z, z, z), mk("g")))[0])
    c.check("no such method", c.raises(ValueError, lambda: S("minimum_dz")(neighbours(c, z, z, z), mk("h")))[0])


@contract("C26", [SE + ":SpotExtraction.process", SE + ":SpotExtraction.get_aux_coords", SE + ":SpotExtraction.get_coordinate_data",
                  SE + ":SpotExtraction.build_diagnostic_cube", SE + ":SpotExtraction.check_for_unique_id"], trials=120, budget=120)
def site_coordinates_follow(c):
    """coordinates that vary over the grid become the value, and bounds, at the site's grid point; scalar ones and those of leading
    dimensions are kept; sites keep their identifiers; grid attributes go and the title is reset or as asked"""
    np = c.np
    ny, nx, n = c.dim("ny"), c.dim("nx"), c.dim("sites")
    m = c.choice("members", [0, 2])
    bounded = c.flag("bounded")
    unique = c.flag("unique id")
    title = c.choice("title", [None, "Mine"])
    which = c.choice("method", METHODS)
    d = c.array("d", ((m,) if m else ()) + (ny, nx), dtype="float32", lo=-50, hi=50)
    t = c.array("t", (ny, nx), dtype="int64", lo=0, hi=100000)
    xi = c.array("xi", (2, n), dtype="int32", lo=0, cell=lambda v, *q: v < nx)
    yi = c.array("yi", (2, n), dtype="int32", lo=0, cell=lambda v, *q: v < ny)
    dz = c.array("dz", (2, n), dtype="float32", lo=-100, hi=100)
    A, D = c.iris.coords.AuxCoord, c.iris.coords.DimCoord
    tb = None
    if bounded:
        tb = c.from_fn((ny, nx, 2), lambda i, j, b: c.at(t, i, j) - 3600 * (1 - b), "int64") if c.symbolic else \
            np.stack([t - 3600, t], axis=-1)
    local = A(t.copy(), standard_name="time", units="seconds since 1970-01-01 00:00:00", bounds=tb)
    y, x = yx(c, ny, nx)
    k0 = 1 if m else 0
    aux = [(local, (k0, k0 + 1)), (D(np.array(7200, dtype=np.int32), standard_name="forecast_period", units="seconds"), None)]
    if m:
        aux.append((A(np.array([11, 12], dtype=np.int32), long_name="source", units="1"), (0,)))
    cu = cube(c, d.copy(), "air_temperature", "K", ([realization(c, m)] if m else []) + [y, x], aux,
              attributes={"model_grid_hash": "h", "title": "t", "mosg__grid_type": "standard", "mosg__grid_version": "1.3.0",
                          "mosg__grid_domain": "uk_extended", "mosg__model_configuration": "uk_det", "source": "IMPROVER"})
    cu.cell_methods = (c.iris.coords.CellMethod("maximum", coords="time"),)
    nb = neighbours(c, xi, yi, dz, unique=c.from_fn((n,), lambda k: k + 70000, "int32") if unique else None)
    kw = {} if title is None else {"new_title": title}
    r = c.mod(SE).SpotExtraction(neighbour_selection_method=which)(nb, cu, **kw)
    k = c.index("site", (n,))[0]
    a = METHODS.index(which)
    gx, gy = c.at(xi, a, k), c.at(yi, a, k)
    src = (gy, gx) if c.symbolic else (int(gy), int(gx))
    co = r.coord("time")
    c.check("where", tuple(r.coord_dims(co)) == (1 if m else 0,))
    c.check("time at the site", c.eq(c.at(co.points, k), c.at(t, *src)))
    c.check("bounds or none", co.has_bounds() == bounded)
    if bounded:
        c.check("bounds at the site", c.and_(c.eq(c.at(co.bounds, k, 0), c.at(t, *src) - 3600), c.eq(c.at(co.bounds, k, 1), c.at(t, *src))))
    fp = r.coord("forecast_period")
    c.check("scalar coordinate kept", c.and_(c.eq(c.at(fp.points, 0), 7200), tuple(r.coord_dims(fp)) == ()))
    if m:
        s = r.coord("source")
        c.check("leading coordinate kept", c.and_(c.eq(c.at(s.points, 0), 11), c.eq(c.at(s.points, 1), 12), tuple(r.coord_dims(s)) == (0,)))
        c.check("members kept", c.and_(*[c.eq(c.at(r.coord("realization").points, q), q) for q in range(m)]))
    if unique:
        u = r.coord("site_id")
        c.check("unique id", c.and_(c.eq(c.at(u.points, k), c.at(nb.coord("site_id").points, k))))
    else:
        c.check("no unique id", not r.coords("site_id"))
    c.check("own place", c.and_(c.eq(c.at(r.coord("altitude").points, k), k * 10.0), c.eq(c.at(r.coord("latitude").points, k), k * 0.5),
                                c.eq(c.at(r.coord("longitude").points, k), k * 0.25)))
    at = dict(r.attributes)
    c.check("attributes", not any(z.startswith("mosg__grid") for z in at) and at["mosg__model_configuration"] == "uk_det"
            and at["source"] == "IMPROVER" and at["model_grid_hash"] == "h" and at["title"] == (title or "unknown"))
    c.check("method kept", [(z.method, tuple(z.coord_names)) for z in r.cell_methods] == [("maximum", ("time",))])
