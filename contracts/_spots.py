"""Site cubes shared by the contracts."""
METHODS = ["nearest", "nearest_land"]


def neighbours(c, xi, yi, dz, ids=None, methods=METHODS, keys=("x_index", "y_index", "vertical_displacement"), unique=None):
    """neighbour cube of n sites: grid indices and vertical displacement of each method (rows of xi, yi, dz)"""
    n = xi.shape[-1]
    M = c.mod("improver.spotdata.build_spotdata_cube")
    src = {"x_index": xi, "y_index": yi, "vertical_displacement": dz}
    order = [src[k] for k in keys]
    m = len(methods)

    def cell(a, b, k):
        v = c.at(order[2], a, k)
        for q in (1, 0):
            v = c.ite(b == q, c.at(order[q], a, k), v)
        return v
    data = c.from_fn((m, 3, n), cell, "float32") if c.symbolic else \
        c.np.stack([c.np.stack([c.np.asarray(o)[a] for o in order]) for a in range(m)]).astype("float32")
    al = c.from_fn((n,), lambda k: k * 10.0, "float32")
    la = c.from_fn((n,), lambda k: k * 0.5, "float32")
    lo = c.from_fn((n,), lambda k: k * 0.25, "float32")
    ids = c.from_fn((n,), lambda k: k + 3000, "int32") if ids is None else ids
    kw = {} if unique is None else dict(unique_site_id=unique, unique_site_id_key="site_id")
    r = M.build_spotdata_cube(data, "grid_neighbours", 1, al, la, lo, ids, neighbour_methods=list(methods),
                              grid_attributes=list(keys), **kw)
    r.attributes["model_grid_hash"] = "h"
    return r


def sites(c, data, name, units, lead=(), aux=()):
    """spot cube: data[..., site]"""
    n = data.shape[-1]
    M = c.mod("improver.spotdata.build_spotdata_cube")
    al = c.from_fn((n,), lambda k: k * 10.0, "float32")
    la = c.from_fn((n,), lambda k: k * 0.5, "float32")
    ids = c.from_fn((n,), lambda k: k + 3000, "int32")
    r = M.build_spotdata_cube(data, name, units, al, la, la, ids, scalar_coords=[a for a, d in aux], additional_dims=list(lead) or None)
    r.attributes["model_grid_hash"] = "h"
    return r
