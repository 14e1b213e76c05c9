from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a grid (size from 1x1, bands, dtype, storage, skewed/negative transforms, nodata, coordinate system) and writer/reader options "
        "(compression, tiling, band selection, in memory or on disk, windows read from disk, several files combined). "
        "Non-trivial: more than one row and column, or several bands, or a non-default option.")
ASSUMPTIONS = ["int64 values fit 32 bits and int8 is not written (documented limits of the writer)",
               "coordinate systems are compared by ellipsoid and by where they put test positions, not by name",
               "the datum is compared by where its positions are in WGS84 (in North America), for datums PROJ has a transformation for"]
DT = ["float64", "float32", "uint8", "int16", "uint16", "int32", "uint32", "int64"]
CRS = ["cart", "wgs84", "nad83", "nad27", "webm", "nsidcn", "upss", "utm7", "gall", "laea", "utm27", "sinu"]


@st.composite
def grid(draw):
    g = draw(gridspec(maxn=20, dtypes=DT, T=transforms()))
    if draw(sint(0, 11)) == 0:
        g["size"] = [draw(samp([65, 130, 300])), draw(samp([70, 258]))]
        g["store"] = "default"
    if draw(st.booleans()):
        g["scale"] = 0.37
    return {"g": g, "crs": draw(samp(CRS)), "nodata": draw(samp([None, None, 0, 7, 250]))}


@st.composite
def roundtrip(draw):
    c = draw(grid())
    c.update(compress=draw(samp([None, "PACKBITS", "LZW", "DEFLATE"])), tiled=draw(sint(0, 3)) == 0,
             mem=draw(st.booleans()), over=draw(sint(0, 3)) == 0)
    nb = c["g"]["nb"]
    c["ibands"] = draw(st.one_of(st.none(), sint(1, nb), st.lists(sint(1, nb), min_size=1, max_size=3)))
    ny, nx = c["g"]["size"]
    i0, j0 = draw(sint(0, ny - 1)), draw(sint(0, nx - 1))
    c["win"] = [i0, draw(sint(i0 + 1, ny)), draw(samp([1, 2, 3])), j0, draw(sint(j0 + 1, nx)), draw(samp([1, 2]))]
    return c


@st.composite
def several(draw):
    c = draw(grid())
    c["n"] = draw(sint(1, 4)) if not rare(draw, 16) else draw(sint(5, 9))
    c["mem"] = draw(samp([None, True, False]))
    c["odd"] = draw(st.one_of(st.none(), samp(["x", "y", "dx", "dy", "sx", "nx", "ny", "crs", "nodata"]))) if c["n"] > 1 else None
    c["where"] = draw(sint(1, 3))
    c["types"] = draw(st.one_of(st.none(), st.lists(samp(DT[:-1]), min_size=c["n"], max_size=c["n"]))) if not c["odd"] else None
    return c


F = samp([0.0, 0.1, 0.25, 0.33, 0.5, 0.6, 0.75, 0.9, 1.0])


@st.composite
def disk(draw):
    c = draw(grid())
    if draw(sint(0, 2)):
        c["g"]["T"][4:] = [0.0, 0.0]
    c["g"]["size"] = [min(q, 24) for q in c["g"]["size"]] if draw(sint(0, 9)) else [9, 70]
    c["strip"] = draw(sint(0, 3)) == 0
    c["ops"] = draw(lists(tuples(samp(["copy", "copyset", "apply", "merge", "resize", "resample", "add", "sub", "clip", "chunks", "mask", "stats", "bilinear", "nearest", "iter", "write", "datamask", "cell"]), F, F, F, F), 1, 4))
    return c


ASPECTS = {"roundtrip": {"strategy": roundtrip(), "quick": 1600, "shards": 6, "cost": 3},
           "disk": {"strategy": disk(), "quick": 800, "shards": 2, "cost": 3},
           "several": {"strategy": several(), "quick": 400, "shards": 2, "cost": 4}}
