from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is an object (grid, geometry, table or file set) and a request that it cannot fulfil: an index outside it, data of another shape, a table of another length, incompatible grids, "
        "an unknown option, a transformation that is not defined, or a file that cannot represent the grid. Non-trivial: the object has more than one cell, vertex or row.")
ASSUMPTIONS = ["any exception counts as refusal, its type is judged only for indices (IndexError) and missing fields (KeyError)",
               "mixed ranks, differing coordinate systems of grids and Cartesian distances are not judged, because the library documents no answer"]
DT = ["float64", "float32", "int32", "uint8"]
past = sint(0, 3)


@st.composite
def index(draw):
    """one index outside the grid, the others inside"""
    g = draw(gridspec(maxn=7, dtypes=DT, T=transforms()))
    ny, nx = g["size"]
    dims = [ny, nx, g["nb"]]
    rank = draw(samp([2, 2, 3]))
    bad = draw(sint(0, rank - 1))
    key = []
    for k in range(rank):
        n = dims[k]
        if k == bad:
            key.append(draw(past) + n if draw(st.booleans()) else -n - 1 - draw(past))
        else:
            key.append(draw(st.one_of(sint(-n, n - 1), st.just("slice"))))
    return {"g": g, "key": key, "set": draw(st.booleans())}


@st.composite
def gridreq(draw):
    g = draw(gridspec(maxn=6, minn=2, dtypes=DT, T=transforms(skew=False)))
    k = draw(samp(["setshape", "mask", "setmask", "bandsize", "transform", "ndim", "reference", "resample", "resample-method", "sample-method", "sample-length", "indices",
                   "add", "merge-res", "merge-skew", "merge-offset", "merge-bands", "merge-weights", "merge-type",
                   "aai-skew", "aai-bands", "aai-cells", "aai-reference", "stack-size", "stack-transform", "stack-crs", "missing",
                   "skew-stencil", "stepset", "floatkey", "mask3", "nofiles", "interp", "cartesian"]))
    return {"g": g, "req": k, "a": draw(sint(1, 3)), "b": draw(sint(0, 3)), "f": draw(samp([0.5, 0.3, 0.1, 0.75])), "s": draw(samp([1, -1])), "first": draw(st.booleans()), "via": draw(samp([0, 1, 2]))}


@st.composite
def vector(draw):
    t = draw(samp(["Line", "Polygon", "Multipoint", "Multiline", "Multipolygon", "Point"]))
    n = draw(sint(1, 5) if t in ("Multipoint", "Multiline", "Multipolygon") else sint(3, 6))
    req = {"Point": ["rank", "properties", "affine", "shift", "cart"],
           "Line": ["index", "key", "affine", "shift", "extend-rank", "extend-type", "cart", "dateline", "rank"],
           "Polygon": ["key", "affine", "shift", "cart", "polar", "rank"],
           "Multipoint": ["index", "rindex", "key", "data", "tabledata", "field", "fieldkey", "setitem", "affine", "cart", "pairs", "rank"],
           "Multiline": ["index", "rindex", "key", "data", "tabledata", "field", "fieldkey", "affine", "within-type", "touching-type"],
           "Multipolygon": ["index", "rindex", "key", "data", "tabledata", "field", "fieldkey", "within-type", "touching-type"]}[t]
    return {"type": t, "n": n, "z": draw(st.booleans()), "req": draw(samp(req)), "a": draw(past), "k": draw(samp([1.5, "a", None, [0]])), "d": draw(samp([-2, -1, 1, 2, 5])),
            "m": draw(samp([[2, 2], [3, 3], [2, 4], [4, 3], [1, 3], [3, 2], [4, 4]])), "cols": draw(sint(1, 3))}


@st.composite
def table(draw):
    return {"n": draw(sint(1, 6)), "f": draw(sint(1, 3)), "req": draw(samp(["setfield", "updated", "updatedt", "get", "negget", "getfield", "fields", "columns", "types", "neither"])),
            "d": draw(samp([-3, -2, -1, 1, 2])), "a": draw(past), "new": draw(st.booleans()), "c": draw(sint(0, 5))}


@st.composite
def files(draw):
    return {"req": draw(samp(["aai-header", "aai-rows", "geotiff", "shp", "geojson", "gpx", "empty"])), "n": draw(sint(0, 4)), "m": draw(sint(1, 3))}


ASPECTS = {
    "index": {"strategy": index(), "quick": 3000, "shards": 2},
    "grid": {"strategy": gridreq(), "quick": 3500, "shards": 3, "cost": 3},
    "vector": {"strategy": vector(), "quick": 3000, "shards": 2},
    "table": {"strategy": table(), "quick": 2000, "shards": 1},
    "files": {"strategy": files(), "quick": 300, "shards": 1},
}
