from vc import contract
from _cubes import cube, field, realization, threshold_coord, time_coords, yx, dimcoord

U = "improver.metadata.utilities"
AM = "improver.metadata.amend"
P = "improver.metadata.probabilistic"
DIAGS = ["air_temperature", "probability_index_above_ground", "cloud_in_vicinity_of_site", "lwe_precipitation_rate"]
VIC = ["", "_in_vicinity", "_in_variable_vicinity"]
THR = ["_above_threshold", "_below_threshold", "_between_thresholds", ""]


@contract("C35", [P + ":probability_cube_name_regex", P + ":in_vicinity_name_format", P + ":_extract_diagnostic_name",
                  P + ":get_threshold_coord_name_from_probability_name", P + ":get_diagnostic_cube_name_from_probability_name"],
          trials=120)
def probability_names(c):
    """a probability's name is taken apart into its diagnostic, vicinity and kind of threshold, and put together again"""
    d = c.choice("diagnostic", DIAGS)
    v = c.choice("vicinity", VIC)
    t = c.choice("threshold", THR)
    m = c.mod(P)
    name = "probability_of_" + d + v + t
    c.check("threshold", m.get_threshold_coord_name_from_probability_name(name) == d)
    c.check("diagnostic", m.get_diagnostic_cube_name_from_probability_name(name) == d + v)
    c.check("vicinity", m.in_vicinity_name_format(name) == "probability_of_" + d + "_in_vicinity" + t)
    for bad in (d + v + t, "a_" + name):
        for fn in (m.get_threshold_coord_name_from_probability_name, m.get_diagnostic_cube_name_from_probability_name):
            c.check("refused", c.raises(ValueError, lambda: fn(bad))[0])


ABOVE = ["above", "greater_than", "greater_than_or_equal_to"]
BELOW = ["below", "less_than", "less_than_or_equal_to"]


@contract("C35", [P + ":find_threshold_coordinate", P + ":is_probability", P + ":probability_is_above_or_below",
                  P + ":find_percentile_coordinate", P + ":is_percentile"], trials=150)
def kinds_of_forecast(c):
    """thresholds and percentiles are found by name, wherever they are, and only there"""
    sh = (2, c.dim("ny"), c.dim("nx"))
    d = c.array("d", sh, lo=0, hi=1)
    kind = c.choice("kind", ["threshold", "old threshold", "realization", "percentile", "two percentiles"])
    rel = c.choice("relation", ABOVE + BELOW + ["between", None])
    scalar = c.flag("scalar")
    m = c.mod(P)
    aux = []
    if kind == "threshold":
        lead = threshold_coord(c, [273.0, 280.0], rel=rel or "greater_than")
        if rel is None:
            lead.attributes = {}
    elif kind == "old threshold":
        lead = dimcoord(c, "threshold", [273.0, 280.0], "K")
        if rel is not None:
            lead.attributes["spp__relative_to_threshold"] = rel
    elif kind == "realization":
        lead = realization(c, 2)
    else:
        lead = dimcoord(c, "percentile", [10.0, 90.0], "%")
        if kind == "two percentiles":
            aux = [(dimcoord(c, "percentile_of_height", [50.0], "%"), None)]
    cu = field(c, d, "air_temperature", "K", lead=[lead], aux=aux)
    if scalar:
        cu = cu[0]
    th = kind in ("threshold", "old threshold")
    c.check("probability", m.is_probability(cu) is th)
    c.check("percentile", m.is_percentile(cu) is (kind == "percentile"))
    lacking = c.iris.exceptions.CoordinateNotFoundError
    if th:
        c.check("threshold", m.find_threshold_coordinate(cu) == cu.coord(lead.name()))
        want = "above" if rel in ABOVE else "below" if rel in BELOW else None
        c.check("relation", m.probability_is_above_or_below(cu) == want)
    else:
        c.check("no threshold", c.raises(lacking, lambda: m.find_threshold_coordinate(cu))[0])
    if kind == "percentile":
        c.check("percentiles", m.find_percentile_coordinate(cu) == cu.coord("percentile"))
    else:
        e = ValueError if kind == "two percentiles" else lacking
        c.check("no percentile", c.raises(e, lambda: m.find_percentile_coordinate(cu))[0])
    for fn in (m.find_threshold_coordinate, m.find_percentile_coordinate):
        c.check("not a cube", c.raises(TypeError, lambda: fn([cu]))[0])


@contract("C35", [P + ":format_cell_methods_for_probability", P + ":format_cell_methods_for_diagnostic",
                  AM + ":update_diagnostic_name", AM + ":_update_cell_methods"], trials=150)
def names_changed(c):
    """a renamed diagnostic takes its thresholds and the remarks about it along, and nothing else is renamed"""
    CM = c.iris.coords.CellMethod
    prob = c.flag("probability")
    vicinity = prob and c.flag("vicinity")
    to_vicinity = c.flag("to vicinity")
    rel = c.choice("relation", ["above", "below"])
    other = c.flag("other remark")
    old, base = "rainfall_rate", "snowfall_rate"
    new = base + ("_in_vicinity" if to_vicinity else "")
    d = c.array("d", (1, c.dim("ny"), c.dim("nx")), lo=0, hi=1)
    name = "probability_of_%s%s_%s_threshold" % (old, "_in_vicinity" if vicinity else "", rel) if prob else old
    lead = threshold_coord(c, [0.5], name=old, units="m s-1", rel="greater_than" if rel == "above" else "less_than") if prob \
        else realization(c, 1)
    cms = [CM("maximum", coords="time", intervals="1 hour", comments="of cloud" if other else "of " + old),
           CM("mean", coords="realization")]
    src = field(c, d, name, "1" if prob else "m s-1", lead=[lead])
    src.cell_methods = cms
    res = src.copy()
    c.mod(AM).update_diagnostic_name(src, new, res)
    c.check("name", res.name() == (("probability_of_%s_%s_threshold" % (new, rel)) if prob else new))
    if prob:
        c.check("threshold", c.mod(P).find_threshold_coordinate(res).name() == base and not res.coords(old))
    got = list(res.cell_methods)
    c.check("cell methods", len(got) == 2 and got[1] == cms[1] and got[0].method == "maximum"
            and tuple(got[0].coord_names) == ("time",) and tuple(got[0].intervals) == ("1 hour",))
    c.check("remark", tuple(got[0].comments) == (("of cloud",) if other else ("of " + base,)))
    c.check("source left alone", src.name() == name and list(src.cell_methods) == cms
            and (not prob or src.coord(var_name="threshold").name() == old))
    two = src.copy()
    c.mod(P).format_cell_methods_for_probability(two, base)
    g = list(two.cell_methods)
    c.check("about the threshold", [(q.method, tuple(q.coord_names), tuple(q.intervals), tuple(q.comments)) for q in g] == [
        ("maximum", ("time",), ("1 hour",), ("of " + base,)), ("mean", ("realization",), (), ("of " + base,))])
    c.mod(P).format_cell_methods_for_diagnostic(two)
    g = list(two.cell_methods)
    c.check("no remarks", [(q.method, tuple(q.coord_names), tuple(q.intervals), tuple(q.comments)) for q in g] == [
        ("maximum", ("time",), ("1 hour",), ()), ("mean", ("realization",), (), ())])


@contract("C35", [U + ":generate_mandatory_attributes", U + ":get_model_id_attr", AM + ":update_model_id_attr_attribute"], trials=200,
          max_paths=1500)
def attributes_agreed(c):
    """a new diagnostic has the title, source and institution its inputs agree on, otherwise the default; a model named as required
    must be on all and agreed; the models of several inputs are listed once each in order"""
    which = c.choice("attribute", ["title", "source", "institution"])
    vals = c.choice("values", [(None, None), (None, "A model"), ("A model", "A model"), ("A model", "B model")])
    ids = c.choice("ids", [(None, None), ("uk_ens", None), (None, "uk_ens"), ("uk_ens", "uk_ens"), ("uk_ens", "uk_det nc_det uk_ens")])
    req = c.flag("required")
    d = c.array("d", (c.dim("ny"), c.dim("nx")))
    cubes = []
    for k in range(2):
        at = {"history": "h", "mosg__model": ids[k], which: vals[k]}
        cubes.append(field(c, d.copy(), "air_temperature", "K", attributes={n: v for n, v in at.items() if v is not None}))
    m = c.mod(U)
    default = {"title": "unknown", "source": "IMPROVER", "institution": "unknown"}
    agreed_id = ids[0] is not None and ids[0] == ids[1]
    if req and not agreed_id:
        c.check("refused", c.raises(ValueError, lambda: m.generate_mandatory_attributes(cubes, model_id_attr="mosg__model"))[0])
        c.check("refused", c.raises(ValueError, lambda: m.get_model_id_attr(cubes, "mosg__model"))[0])
    else:
        got = m.generate_mandatory_attributes(cubes, model_id_attr="mosg__model" if req else None)
        want = dict(default)
        if vals[0] is not None and vals[0] == vals[1]:
            want[which] = vals[0]
        if req:
            want["mosg__model"] = ids[0]
            c.check("model", m.get_model_id_attr(cubes, "mosg__model") == ids[0])
        c.check("attributes", got == want)
        got["title"] = "changed"
        plain = field(c, d.copy(), "air_temperature", "K", attributes={})
        c.check("default", m.generate_mandatory_attributes([plain, cubes[0]]) == default)
    if None in ids:
        c.check("not on all", c.raises(AttributeError, lambda: c.mod(AM).update_model_id_attr_attribute(cubes, "mosg__model"))[0])
    else:
        got = c.mod(AM).update_model_id_attr_attribute(cubes, "mosg__model")
        c.check("models", got == {"mosg__model": " ".join(sorted(set(ids[0].split() + ids[1].split())))})


@contract("C35", U + ":create_new_diagnostic_cube", trials=150)
def new_diagnostics(c):
    """a new diagnostic has the name, units, data and attributes it is given and its own copies of the template's coordinates"""
    sh = (2, c.dim("ny"), c.dim("nx"))
    d = c.array("d", sh)
    e = c.array("e", sh)
    opt = c.choice("optional", [None, {"title": "T", "mosg__model": "uk"}, {"mosg__model": "uk"}])
    lack = c.choice("lacking", [None, "title", "source", "institution"])
    tmpl = field(c, d.copy(), "air_temperature", "K", lead=[realization(c, 2)], attributes={"extra": "x"})
    man = {"title": "unknown", "source": "IMPROVER", "institution": "unknown"}
    if lack:
        del man[lack]
    want = dict(man)
    want.update(opt or {})
    go = lambda: c.mod(U).create_new_diagnostic_cube("wind_speed", "m s-1", tmpl, dict(man), optional_attributes=opt, data=e.copy())
    if len([k for k in ("title", "source", "institution") if k in want]) < 3:
        c.check("refused", c.raises(ValueError, go)[0])
        return
    r = go()
    k, i, j = c.index("point", sh)
    c.check("shape", c.same_shape(r.data, sh))
    c.check("data", c.eq(c.at(r.data, k, i, j), c.at(e, k, i, j)))
    c.check("name", r.name() == "wind_speed" and str(r.units) == "m s-1" and r.standard_name == "wind_speed")
    c.check("attributes", dict(r.attributes) == want)
    c.check("coordinates", [q.name() for q in r.coords(dim_coords=True)] == [q.name() for q in tmpl.coords(dim_coords=True)]
            and sorted(q.name() for q in r.coords()) == sorted(q.name() for q in tmpl.coords()))
    for n in ("realization", "time", "forecast_period", "forecast_reference_time"):
        c.check("coordinate", r.coord(n) == tmpl.coord(n) and r.coord(n) is not tmpl.coord(n)
                and r.coord_dims(n) == tmpl.coord_dims(n))
    r.coord("time").points = r.coord("time").points + 3600
    c.check("own copies", int(tmpl.coord("time").points[0]) == 1510286400)
    c.check("template left alone", c.and_(c.eq(c.at(tmpl.data, k, i, j), c.at(d, k, i, j)), tmpl.name() == "air_temperature"))


@contract("C35", [U + ":check_grid_match", U + ":create_coordinate_hash", U + ":generate_hash"], trials=150)
def grids_compared(c):
    """grids match when their coordinates, coordinate systems and units do; spot data carries the mark of its grid"""
    change = c.choice("change", ["none", "origin", "spacing", "size", "system", "units", "marked alike", "marked unlike"])
    m = c.mod(U)

    def grid(dy=2000.0, y0=0.0, ny=3, kind="equal_area", km=False):
        y, x = yx(c, ny, 4, kind, dy=dy, y0=y0)
        cu = cube(c, c.np.zeros((ny, 4), dtype=c.np.float32), "surface_altitude", "m", [y, x])
        if km:
            cu.coord(axis="y").convert_units("km")
        return cu
    a = grid()
    b = {"none": lambda: grid(), "origin": lambda: grid(y0=1000.0), "spacing": lambda: grid(dy=1000.0), "size": lambda: grid(ny=2),
         "system": lambda: grid(kind="latlon"), "units": lambda: grid(km=True)}.get(change, lambda: grid())()
    if change.startswith("marked"):
        b = grid(y0=5.0)
        b.attributes["model_grid_hash"] = m.create_coordinate_hash(a if change == "marked alike" else grid(y0=7.0))
    ok = change in ("none", "marked alike")
    for three in (False, True):
        cubes = [a, a.copy(), b] if three else [a, b]
        bad = c.raises(ValueError, lambda: m.check_grid_match(cubes))[0]
        c.check("match", bad is not ok)
        c.check("match either way", c.raises(ValueError, lambda: m.check_grid_match(cubes[::-1]))[0] is not ok)


@contract("C35", [AM + ":amend_attributes", AM + ":set_history_attribute", "improver:PostProcessingPlugin.__call__",
                  "improver:PostProcessingPlugin.post_processed_title"], trials=150)
def attributes_amended(c):
    """attributes are set, filled in, or removed as asked and no others are touched; histories are replaced or added to; post-processed
    results say so once"""
    had = c.choice("had", [None, "old", "Post-Processed old", "unknown"])
    what = c.choice("what", ["new", "remove", "pre {} post"])
    append = c.flag("append")
    many = c.flag("several results")
    d = c.array("d", (c.dim("ny"), c.dim("nx")))
    at = {"kept": "k"}
    if had is not None:
        at["title"] = had
    src = lambda: field(c, d.copy(), "air_temperature", "K", attributes=dict(at))
    q = src()
    c.mod(AM).amend_attributes(q, {"title": what})
    want = {"kept": "k"}
    if what == "new":
        want["title"] = "new"
    elif what != "remove":
        want["title"] = "pre %s post" % (had or "")
    c.check("amended", dict(q.attributes) == want)
    q = src()
    if had is not None:
        q.attributes["history"] = had
    c.mod(AM).set_history_attribute(q, "regridded", append=append)
    h = q.attributes["history"]
    c.check("history", h.endswith("Z: regridded") and (h.startswith(had + "; ") if append and had is not None else "; " not in h))

    class Plugin(c.mod("improver").PostProcessingPlugin):
        def process(self, *x):
            return x if many else x[0]
    a, b = src(), src()
    r = Plugin()(a, b)
    done = "Post-Processed old" if had in ("old", "Post-Processed old") else had
    c.check("result", (r[0] is a and r[1] is b) if many else r is a)
    c.check("title", a.attributes.get("title") == done and b.attributes.get("title") == (done if many else had))
    c.check("others", a.attributes["kept"] == "k" and len(a.attributes) == len(at))
    for x in ("text", 3, None):
        c.check("other results", Plugin()(x, x) == ((x, x) if many else x))
