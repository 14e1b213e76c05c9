from hypothesis import strategies as st
from harness.gens import *

RULE = ("nodata: a grid (1-3 bands, dtype, nodata value) with a random set of nodata cells, and a history of apply / set_nodata_value / += style arithmetic / masking calls. "
        "Non-trivial: the grid has at least one valid and one nodata cell. gridpoints: scattered points with repeated cells; non-trivial: at least two points share a cell and one cell is empty.")
ASSUMPTIONS = ["gridpoints: points within 1e-6 of a cell edge are avoided by construction", "grids without skew for gridpoints"]


@st.composite
def nodata(draw):
    dt = draw(samp(["float64", "float32", "int32", "int16", "uint8"]))
    g = draw(gridspec(maxn=7, dtypes=[dt], T=transforms()))
    ny, nx = g["size"]
    nds = {"f": ["default", "nan", -9999.0, 0.0, -1.0], "i": ["default", -1, 0, -9999], "u": ["default", 0, 255, 7]}[dt[0]]
    holes = draw(lists(tuples(sint(0, ny - 1), sint(0, nx - 1), sint(0, g["nb"] - 1)), 0, 8))
    if draw(sint(0, 14)) == 0:
        holes = "all"
    newnd = {"f": ["nan", -5.0, 1000.0], "i": [-2, 30000], "u": [254, 200]}[dt[0]]
    ops = draw(lists(st.one_of(st.just(["apply", False]), st.just(["apply", True]), st.sampled_from([["setnd", v] for v in newnd]),
                               st.just(["copy"]), st.just(["setvals"])), 0, 4))
    return {"g": g, "nd": draw(samp(nds)), "holes": holes, "ops": ops}


@st.composite
def arith(draw):
    g = draw(gridspec(maxn=7, dtypes=["float64", "float32", "int32"], T=transforms()))
    h = draw(gridspec(maxn=7, dtypes=[g["dtype"]]))
    h["size"] = g["size"]; h["nb"] = g["nb"]; h["T"] = list(g["T"])
    mism = draw(samp([None, None, None, "size", "transform"]))
    holes = draw(lists(tuples(sint(0, 6), sint(0, 6), sint(0, 2), sint(0, 1)), 0, 5))
    return {"a": g, "b": h, "mismatch": mism, "holes": holes, "nd": [draw(samp(["default", -9999, -1])), draw(samp(["default", -9999, -1]))]}


@st.composite
def points(draw):
    dx, dy = draw(samp([1.0, 0.5, 2.0, 10.0, 0.25, 0.1])), draw(samp([1.0, 0.5, 2.0, 10.0, 0.25, 0.1]))
    T = [draw(fl(-50, 50)), draw(fl(-50, 50)), dx, dy, 0.0, 0.0]
    n = draw(sint(1, 14))
    m = draw(samp([2, 4, 8]))
    pts = [[draw(sint(0, m - 1)), draw(sint(0, m - 1)), draw(rnd(0.01, 0.99, 2)), draw(rnd(0.01, 0.99, 2)), draw(fl(-100, 100))] for _ in range(n)]
    if rare(draw, 16):
        pts = pts + [[i * 7 % m, i * 5 % (m + 3), (i * 13 % 89 + 5) / 100.0, (i * 29 % 89 + 5) / 100.0, float(i * 31 % 101)] for i in range(draw(sint(20, 400)))]
    return {"T": T, "pts": pts, "form": draw(samp(["array", "array", "intz", "f32"]))}


ASPECTS = {
    "nodata": {"strategy": nodata(), "quick": 3000, "shards": 3},
    "arith": {"strategy": arith(), "quick": 1500, "shards": 2},
    "gridpoints": {"strategy": points(), "quick": 2500, "shards": 2},
}
