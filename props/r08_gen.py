from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a grid of at least 3x3 cells (signed resolution, dtype, bands, nodata holes), or the coefficients of a plane / linear vector field. "
        "Non-trivial: at least one interior cell has a full valid neighbourhood and a non-zero gradient.")
ASSUMPTIONS = ["values are compared at interior cells with a relative tolerance of 1e-4 (single-precision arithmetic)", "of the one-cell border only the absence of values is judged (slope, hillshade: nothing)"]


@st.composite
def surf(draw):
    g = draw(gridspec(maxn=8, minn=3, dtypes=["float64", "float32", "int16", "int32"], T=transforms(skew=False)))
    ny, nx = g["size"]
    return {"g": g, "band": draw(sint(0, g["nb"] - 1)),
            "holes": draw(st.one_of(st.just([]), lists(tuples(sint(0, ny - 1), sint(0, nx - 1)), 1, 3))),
            "crs": draw(samp(["cart", "utm", "lonlat"])), "light": [draw(samp([330.0, 0.0, 45.0, 200.0])), draw(samp([60.0, 30.0, 85.0]))]}


@st.composite
def vec(draw):
    g = draw(gridspec(maxn=8, minn=3, dtypes=["float64"], T=transforms(skew=False)))
    g["nb"] = draw(sint(2, 3))
    ny, nx = g["size"]
    return {"g": g, "bands": draw(st.permutations(list(range(g["nb"]))))[:2], "nd": draw(samp([None, -9999.0])), "crs": draw(samp(["cart", "utm", "lonlat"])),
            "holes": draw(st.one_of(st.just([]), lists(tuples(sint(0, ny - 1), sint(0, nx - 1), sint(0, 1)), 1, 3)))}


@st.composite
def plane(draw):
    return {"T": draw(transforms(skew=False)), "size": [draw(sint(3, 8)), draw(sint(3, 8))],
            "a": draw(rnd(-5, 5, 1)), "b": draw(rnd(-5, 5, 1)), "c": draw(rnd(-5, 5, 1)), "e": draw(rnd(-5, 5, 1))}


ASPECTS = {
    "derivatives": {"strategy": surf(), "quick": 1500, "shards": 4},
    "divergence": {"strategy": vec(), "quick": 1200, "shards": 2},
    "plane": {"strategy": plane(), "quick": 1000, "shards": 2},
}
