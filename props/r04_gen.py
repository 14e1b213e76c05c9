from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a grid (geometry, dtype, bands, storage) and query positions drawn in index space (interior, exact cell centres, edges, outside). "
        "Non-trivial: several bands, a skewed/negative transform, or a mix of inside and outside positions.")
ASSUMPTIONS = ["nearest-cell ties (within 1e-6 of a cell edge) and bilinear queries within 1e-6 of the outermost centres are not judged unless the arithmetic is exact",
               "integer bilinear results may be truncated or rounded (|error| < 1)"]
DT = ["float64", "float32", "int16", "int32", "int64", "uint8", "uint16", "uint32"]


@st.composite
def case(draw, linear=False):
    g = draw(gridspec(maxn=9, minn=2 if linear else 1, dtypes=DT, T=transforms()))
    if g["dtype"] in ("uint32", "int64", "int32") and draw(st.booleans()):
        g["pat"][4] = 100000          # values beyond 16 bits
    if draw(st.booleans()):
        g["scale"] = 0.5
    if g["nb"] > 1 and draw(sint(0, 7)) == 0:
        g["types"] = draw(st.lists(samp(["float64", "float32", "int16", "uint8", "int32"]), min_size=g["nb"], max_size=g["nb"]))
        g["scale"] = 0.5
    ny, nx = g["size"]
    def pt():
        k = draw(samp(["in", "in", "centre", "edge", "out"]))
        if k == "in":
            return [draw(rnd(0, ny)), draw(rnd(0, nx))]
        if k == "centre":
            return [draw(sint(0, ny - 1)) + 0.5, draw(sint(0, nx - 1)) + 0.5]
        if k == "edge":
            return [draw(samp([0.3, 0.5, ny - 0.5, ny - 0.3])), draw(rnd(0, nx))] if draw(st.booleans()) else [draw(rnd(0, ny)), draw(samp([0.3, 0.5, nx - 0.5, nx - 0.3]))]
        return [draw(rnd(-3, ny + 3)), draw(rnd(-3, nx + 3))]
    form = draw(samp(["scalar", "vector", "list", "array", "point", "multipoint", "multipoint3", "arrays", "samecrs"]))
    n = {"scalar": 1, "point": 1, "array": draw(samp([2, 4, 6]))}.get(form, draw(sint(1, 7)))
    pts = [pt() for _ in range(n)]
    if draw(sint(0, 9)) == 0:
        pts = [[-1.25, p[1]] for p in pts]
    return {"g": g, "pts": pts, "form": form, "cols": draw(samp([1, 2])), "copied": draw(sint(0, 5)) == 0}


@st.composite
def profile(draw):
    g = draw(gridspec(maxn=9, minn=3, dtypes=["float64", "float32"], T=transforms(skew=False)))
    ny, nx = g["size"]
    n = draw(sint(2, 4))
    pts = [[draw(rnd(0.5, ny - 0.5)), draw(rnd(0.5, nx - 0.5))] for _ in range(n)]
    return {"g": g, "pts": pts, "method": draw(samp(["nearest", "bilinear"])), "res": draw(samp([None, None, 0.4, 1.3])), "copied": draw(sint(0, 5)) == 0}


@st.composite
def othercrs(draw):
    g = draw(gridspec(maxn=9, minn=2, dtypes=["float64", "float32", "int32"]))
    ny, nx = g["size"]
    sys_ = draw(samp(["UTM16", "UTM16", "LonLat", "Web"]))
    d = {"UTM16": 1000.0, "LonLat": 0.01, "Web": 1200.0}[sys_]
    o = {"UTM16": (430000.0, 5200000.0), "LonLat": (-87.9, 46.9), "Web": (-9790000.0, 5930000.0)}[sys_]
    sx, sy = draw(samp([(0, 0), (0, 0), (0.25, 0), (0.25, -0.125)]))
    a, b = draw(samp([1, 1, -1])), draw(samp([1, 1, -1]))
    g["T"] = [o[0], o[1], a * d, b * d * draw(samp([1, 0.5, 2])), sx * d, sy * d]
    n = draw(sint(1, 6))
    pts = [[draw(rnd(-1.5, ny + 1.5)), draw(rnd(-1.5, nx + 1.5))] for _ in range(n)]
    return {"g": g, "pts": pts, "sys": sys_, "from": draw(samp(["UTM16", "LonLat", "Web", "UTM17", "LonLatNAD"])),
            "form": draw(samp(["point", "multipoint", "multipoint3", "kw", "kw"])), "method": draw(samp(["nearest", "bilinear", "default"]))}


ASPECTS = {
    "nearest": {"strategy": case(), "quick": 4000, "shards": 3},
    "bilinear": {"strategy": case(linear=True), "quick": 4000, "shards": 3},
    "profile": {"strategy": profile(), "quick": 500, "shards": 2, "cost": 5},
    "othercrs": {"strategy": othercrs(), "quick": 1200, "shards": 2},
}
