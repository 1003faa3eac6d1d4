from vc import contract
from _cubes import EPOCH, cube, dimcoord, field, realization, time_coords, yx

W = "improver.blending.calculate_weights_and_blend"
U = "improver.blending.utilities"
B = "improver.blending.weighted_blend"
HOUR = 3600
T0 = 1510286400  # 2017-11-10 04:00


def _stamp(secs):
    """20171110T0400Z"""
    import datetime
    return datetime.datetime.utcfromtimestamp(secs).strftime("%Y%m%dT%H%MZ")


def _input(c, k, sh, frt, t, bounds=False, model=None, **attrs):
    d = c.array("d%d" % k, sh, dtype="float32", lo=-8, hi=8)
    y, x = yx(c, sh[0], sh[1])
    tc = time_coords(c, t, frt, bounds=[t - HOUR, t] if bounds else None)
    at = dict(attrs)
    if model:
        at["mosg__model_configuration"] = model
    return cube(c, d.copy(), "air_temperature", "K", [y, x], tc, attributes=at), d


def _state(cu):
    return (sorted(x.name() for x in cu.coords()), dict(cu.attributes), str(cu.units),
            [int(cu.coord(n).points[0]) for n in ("time", "forecast_period", "forecast_reference_time")])


@contract("C32", [W + ":WeightAndBlend.process", W + ":WeightAndBlend._remove_zero_weighted_slices",
                  W + ":WeightAndBlend._calculate_blending_weights", U + ":store_record_run_as_coord",
                  U + ":update_record_run_weights", U + ":record_run_coord_to_attr", U + ":get_coords_to_remove",
                  U + ":update_blended_metadata", U + ":_set_blended_time_coords", B + ":MergeCubesForWeightedBlending.process",
                  "improver.metadata.forecast_times:add_blend_time"], budget=250, trials=150, max_paths=1200)
def cycles_blended(c):
    """successive runs of one model: each point is the weighted mean over the runs, weights rising or falling evenly from the
    oldest run to the newest; runs without weight take no part and are not recorded; the record lists each contributing run with
    its weight; the result is dated from the current cycle; the inputs keep data, coordinates and attributes"""
    order = c.choice("order", [(0,), (0, 1), (1, 0), (2, 0, 1), (0, 1, 2)])
    n = len(order)
    y0, yn = c.choice("ends", [(1, 1), (0, 1), (1, 3), (4, 0)])
    record = c.flag("record")
    bounded = c.flag("bounds")
    late = c.choice("cycle after the last run", [0, 1])
    sh = (c.dim("ny"), c.dim("nx"))
    t = T0 + 6 * HOUR
    cubes, data = [], []
    for k in order:  # k: age rank, 0 the oldest
        cu, d = _input(c, k, sh, T0 - (n - 1 - k) * HOUR, t, bounded, "uk_det", source="IMPROVER")
        cubes.append(cu)
        data.append((k, d))
    before = [_state(cu) for cu in cubes]
    cycle = T0 + late * HOUR
    i, j = c.index("point", sh)
    c.use_index(i, j)
    P = c.mod(W).WeightAndBlend("forecast_reference_time", "linear", y0val=y0, ynval=yn)
    kw = {"model_id_attr": "mosg__model_configuration", "record_run_attr": "mosg__model_run"} if record else {}
    r = P.process(c.iris.cube.CubeList(cubes), cycletime=_stamp(cycle), **kw)
    raw = [1.0] if n == 1 else [y0 + (yn - y0) * k / (n - 1.0) for k in range(n)]
    w = [v / sum(raw) for v in raw]
    c.check("shape", c.same_shape(r.data, sh))
    want = 0
    for k, d in data:
        want = want + w[k] * c.at(d, i, j)
    c.check("value", c.near(c.at(r.data, i, j), want, 1e-4, loose=True))
    c.check("what it is", r.name() == "air_temperature" and str(r.units) == "K")
    names = [x.name() for x in r.coords()]
    c.check("no blending coordinates left", "blend_record" not in names and "model_id" not in names and len(names) == len(set(names)))
    c.check("validity time", int(r.coord("time").points[0]) == t and len(r.coord("time").points) == 1)
    c.check("cycle", int(r.coord("forecast_reference_time").points[0]) == cycle and int(r.coord("blend_time").points[0]) == cycle
            and r.coord("forecast_reference_time").bounds is None)
    c.check("lead time", int(r.coord("forecast_period").points[0]) == t - cycle)
    c.check("mandatory attributes", all(a in r.attributes for a in ("title", "source", "institution"))
            and r.attributes["source"] == "IMPROVER")
    if record:
        lines = sorted("uk_det:%s:%.3f" % (_stamp(T0 - (n - 1 - k) * HOUR), w[k]) for k in range(n) if w[k] > 0)
        c.check("record", r.attributes["mosg__model_run"] == "\n".join(lines))
    else:
        c.check("no record", "mosg__model_run" not in r.attributes)
    for cu, st, (k, d) in zip(cubes, before, data):
        c.check("input left alone", _state(cu) == st and c.eq(c.at(cu.data, i, j), c.at(d, i, j)))


@contract("C32", [W + ":WeightAndBlend.process", W + ":WeightAndBlend._calculate_blending_weights",
                  B + ":MergeCubesForWeightedBlending._create_model_coordinates", B + ":MergeCubesForWeightedBlending.process",
                  B + ":MergeCubesForWeightedBlending._remove_blend_time", B + ":MergeCubesForWeightedBlending._remove_deprecation_warnings",
                  U + ":update_record_run_weights", U + ":update_blended_metadata", U + ":_set_blended_time_coords",
                  "improver.metadata.forecast_times:rebadge_forecasts_as_latest_cycle",
                  "improver.metadata.forecast_times:unify_cycletime"], budget=250, trials=150, max_paths=1200)
def models_blended(c):
    """different models: weights by lead time from the configuration, read at the lead time from the current cycle; models without
    weight take no part; the record multiplies the weights already there; the result names its models"""
    models = c.choice("models", [("uk_det", "uk_ens"), ("uk_ens", "uk_det"), ("nc_det", "uk_ens", "uk_det")])
    n = len(models)
    lead = c.choice("lead hours", [2, 4, 5, 6, 8])
    record = c.choice("record", ["none", "new", "old", "single"])
    stale = c.flag("blended before")
    sh = (c.dim("ny"), c.dim("nx"))
    ages = {"uk_det": 0, "uk_ens": 2, "nc_det": 1}
    t = T0 + lead * HOUR
    cubes, data = [], []
    for k, m in enumerate(models):
        frt = T0 - ages[m] * HOUR
        at = {"title": "Forecast %d" % k, "source": "IMPROVER", "institution": "Met Office"}
        if record == "old" and m != "uk_det":
            at["mosg__model_run"] = "%s:%s:0.250\n%s:%s:0.750" % (m, _stamp(frt - HOUR), m, _stamp(frt))
        if record == "single":
            at["mosg__model_run"] = "%s:%s:%s" % (m, _stamp(frt), {"uk_det": "0.600", "uk_ens": "1.000", "nc_det": "0.500"}[m])
        cu, d = _input(c, k, sh, frt, t, False, m, **at)
        if stale and m == "uk_ens":
            bt = c.iris.coords.DimCoord(c.np.array(frt, dtype=c.np.int64), long_name="blend_time", units=EPOCH)
            cu.add_aux_coord(bt)
            cu.coord("forecast_period").attributes["deprecation_message"] = "forecast_period will be removed"
        cubes.append(cu)
        data.append(d)
    before = [_state(cu) for cu in cubes]
    i, j = c.index("point", sh)
    c.use_index(i, j)
    fp = [4, 6]
    conf = {"uk_det": {"forecast_period": fp, "weights": [1, 0.5], "units": "hours"},
            "uk_ens": {"forecast_period": fp, "weights": [0, 0.5], "units": "hours"},
            "nc_det": {"forecast_period": fp, "weights": [1, 0], "units": "hours"}}
    P = c.mod(W).WeightAndBlend("model_id", "dict", weighting_coord="forecast_period", wts_dict=conf)
    kw = {"record_run_attr": "mosg__model_run"} if record != "none" else {}
    r = P.process(cubes, cycletime=_stamp(T0), model_id_attr="mosg__model_configuration",
                  attributes_dict={"title": "Blended", "history": "remove"}, **kw)
    f = min(max((lead - 4) / 2.0, 0.0), 1.0)
    raw = [{"uk_det": 1 - 0.5 * f, "uk_ens": 0.5 * f, "nc_det": 1 - f}[m] for m in models]
    w = [v / sum(raw) for v in raw]
    want = 0
    for v, d in zip(w, data):
        want = want + v * c.at(d, i, j)
    c.check("shape", c.same_shape(r.data, sh))
    c.check("value", c.near(c.at(r.data, i, j), want, 1e-4, loose=True))
    used = sorted(m for m, v in zip(models, w) if v > 0)
    c.check("its models", r.attributes["mosg__model_configuration"] == " ".join(used))
    names = [x.name() for x in r.coords()]
    c.check("no blending coordinates left", not set(names) & {"blend_record", "model_id", "model_configuration"})
    c.check("cycle", int(r.coord("forecast_reference_time").points[0]) == T0 and int(r.coord("blend_time").points[0]) == T0)
    c.check("lead time", int(r.coord("forecast_period").points[0]) == t - T0 and int(r.coord("time").points[0]) == t)
    c.check("title", r.attributes["title"] == "Blended")
    if record == "none":
        c.check("no record", "mosg__model_run" not in r.attributes)
    else:
        lines = []
        for m, v in zip(models, w):
            frt = T0 - ages[m] * HOUR
            if v > 0 and record == "old" and m != "uk_det":
                lines += ["%s:%s:%.3f" % (m, _stamp(frt - HOUR), 0.25 * v), "%s:%s:%.3f" % (m, _stamp(frt), 0.75 * v)]
            elif v > 0:
                own = {"uk_det": 0.6, "uk_ens": 1.0, "nc_det": 0.5}[m] if record == "single" else 1.0
                lines.append("%s:%s:%.3f" % (m, _stamp(frt), own * v))
        got = sorted(q.rsplit(":", 1) for q in r.attributes["mosg__model_run"].split("\n"))
        exp = sorted(q.rsplit(":", 1) for q in lines)
        c.check("record", [g[0] for g in got] == [e[0] for e in exp])
        c.check("recorded weights", all(abs(float(g[1]) - float(e[1])) < 0.0015 for g, e in zip(got, exp)))
    for cu, st, d in zip(cubes, before, data):
        c.check("input left alone", _state(cu) == st and c.eq(c.at(cu.data, i, j), c.at(d, i, j)))


@contract("C32", [W + ":WeightAndBlend.process", B + ":MergeCubesForWeightedBlending.process",
                  B + ":MergeCubesForWeightedBlending._create_model_coordinates",
                  "improver.utilities.cube_manipulation:MergeCubes._check_time_bounds_ranges",
                  U + ":store_record_run_as_coord", U + ":update_record_run_weights"], trials=80)
def blend_refusals(c):
    """blends that could not be credited or dated are refused: a model twice, no model name, no cycle time, periods of different
    lengths, a blending coordinate that is missing, a record without weights"""
    why = c.choice("why", ["same model", "no model name", "no cycle", "periods", "no coordinate", "record without weight",
                           "record without model", "unknown method", "no model attribute"])
    sh = (c.dim("ny"), c.dim("nx"))
    t = T0 + 6 * HOUR
    a, da = _input(c, 0, sh, T0, t, why == "periods", "uk_det")
    b, db = _input(c, 1, sh, T0 - HOUR, t, False, "uk_det" if why in ("same model", "record without weight") else "uk_ens")
    if why == "periods":
        b.coord("time").bounds = c.np.array([[t - 3 * HOUR, t]], dtype=c.np.int64)
        b.coord("forecast_period").bounds = c.np.array([[4 * HOUR, 7 * HOUR]], dtype=c.np.int32)
    if why == "no model name":
        b.attributes.pop("mosg__model_configuration")
    if why == "record without weight":
        b.attributes["mosg__model_run"] = "uk_det:20171110T0300Z:"
    if why == "no coordinate":
        b.remove_coord("forecast_reference_time")
    M = c.mod(W)
    over = "model_id" if why in ("same model", "no model name", "no model attribute") else "forecast_reference_time"
    kw = {}
    if over == "model_id" and why != "no model attribute":
        kw["model_id_attr"] = "mosg__model_configuration"
    if why.startswith("record"):
        kw["record_run_attr"] = "mosg__model_run"
        if why == "record without weight":
            kw["model_id_attr"] = "mosg__model_configuration"
    cyc = None if why == "no cycle" else _stamp(T0)

    def run():
        P = M.WeightAndBlend(over, "guess" if why == "unknown method" else "linear", y0val=1, ynval=1)
        return P.process([a, b], cycletime=cyc, **kw)
    c.check("refused", c.raises(ValueError, run)[0])


@contract("C32", [U + ":store_record_run_as_coord", U + ":record_run_coord_to_attr"], trials=60)
def records_combined(c):
    """combining instead of blending: the record is each contributing run once, from the inputs' own records where they have one and
    their model and cycle where they have none, without weights"""
    n = c.choice("cubes", [1, 2, 3])
    old = [c.flag("record %d" % k) for k in range(n)]
    named = c.flag("model known")
    drop = c.flag("discard weights")
    aslist = c.flag("as a list") or n > 1
    sh = (c.dim("ny"), c.dim("nx"))
    cubes, lines = c.iris.cube.CubeList(), []
    for k in range(n):
        frt = T0 - (k % 2) * HOUR
        model = "m%d" % (k // 2)
        cu, d = _input(c, k, sh, frt, T0 + HOUR, False, model if named else None)
        own = ["%s:%s:1.000" % (model, _stamp(frt))]
        if old[k]:
            own = ["x:%s:0.400" % _stamp(frt), "x:%s:0.600" % _stamp(T0 - k * HOUR)]
            cu.attributes["run"] = "\n".join(own)
        lines.append(own)
        cubes.append(cu)
    M = c.mod(U)
    if not named and not all(old):
        c.check("model needed", c.raises(ValueError, lambda: M.store_record_run_as_coord(cubes, "run", None))[0])
        c.check("model missing", c.raises(Exception, lambda: M.store_record_run_as_coord(cubes, "run", "mosg__model_configuration"))[0])
        return
    M.store_record_run_as_coord(cubes, "run", "mosg__model_configuration" if named else None)
    target = cubes[0].copy()
    M.record_run_coord_to_attr(target, cubes if aslist else cubes[0], "run", discard_weights=drop)
    if drop:
        want = sorted(set(q.rsplit(":", 1)[0] + ":" for own in lines for q in own))
    else:
        want = sorted("\n".join(own) for own in lines)
    c.check("record", target.attributes["run"] == "\n".join(want))
