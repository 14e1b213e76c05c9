from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a grid (geometry, bands, dtype, storage) and parameters of one regridding operation (clip box, new bounding box, new resolution, "
        "chunk size/overlap, or a family of integer-translated grids with weights and nodata holes). "
        "Non-trivial: the operation keeps some but not all cells, or moves/combines data (result differs from the input in size, resolution or origin).")
ASSUMPTIONS = ["cells whose selection hinges on a coordinate within 1e-6 of a boundary or rounding tie are not judged",
               "resize and resample: unskewed grids", "averages of integer grids may be truncated or rounded (|error| < 1)"]
DT = ["float64", "float64", "float32", "int32", "int16", "uint8"]


@st.composite
def clip(draw):
    g = draw(gridspec(maxn=10, dtypes=DT, T=transforms()))
    ny, nx = g["size"]
    ci, cj = draw(sint(0, ny - 1)) + 0.5, draw(sint(0, nx - 1)) + 0.5
    c = {"g": g, "b": [round(ci - draw(rnd(0.01, ny)), 3), round(ci + draw(rnd(0.01, ny)), 3), round(cj - draw(rnd(0.01, nx)), 3), round(cj + draw(rnd(0.01, nx)), 3)]}
    c["merc"] = draw(sint(0, 7)) == 0
    return c


@st.composite
def resize(draw):
    g = draw(gridspec(maxn=9, dtypes=DT, T=transforms(skew=False)))
    # offset of the new box's corner and its size, in cells
    integer = draw(st.booleans())
    n = [draw(sint(1, 14)), draw(sint(1, 14))]
    off = [draw(sint(-n[k] - 1, g["size"][k] + 1) if integer else rnd(-n[k] - 1, g["size"][k] + 1)) for k in (0, 1)]
    return {"g": g, "off": off, "n": n, "frac": [draw(samp([0.0, 0.0, 0.4])), draw(samp([0.0, 0.0, 0.4]))]}


@st.composite
def resample(draw):
    g = draw(gridspec(maxn=9, minn=2, dtypes=["float64", "float32", "int32"], T=transforms()))
    f = samp([1.0, 0.5, 2.0, 3.0, 0.33, 1.7, 0.9])
    return {"g": g, "f": [draw(f), draw(f)], "method": draw(samp(["nearest", "linear"]))}


@st.composite
def chunks(draw):
    g = draw(gridspec(maxn=14, dtypes=DT, T=transforms()))
    if draw(sint(0, 3)) == 0:
        return {"g": g, "size": None, "overlap": [0, 0], "copy": True}
    size = [draw(sint(1, 16)), draw(sint(1, 16))]
    return {"g": g, "size": size, "overlap": [draw(sint(0, size[0] - 1)), draw(sint(0, size[1] - 1))], "copy": draw(st.booleans())}


@st.composite
def merge(draw):
    T = draw(transforms())
    nb = draw(sint(1, 3))
    dt = draw(samp(["float64", "float64", "float32", "int32", "uint8"]))
    mixed = draw(sint(0, 4)) == 0
    gs = []
    for _ in range(draw(sint(1, 4)) if not rare(draw, 16) else draw(sint(5, 10))):
        g = draw(gridspec(maxn=7, dtypes=[dt], nbmax=1, stores=True))
        g["nb"] = nb
        if mixed:
            g["dtype"] = draw(samp(["float64", "float32", "int32", "int16", "uint8"])); g["scale"] = 0.37
        elif dt in ("float64", "float32"):
            g["dtype"] = draw(samp([dt, dt, "float64", "float32"]))
        gs.append({"g": g, "nd": draw(samp([0, 0, 1])), "off": [draw(sint(-5, 5)), draw(sint(-5, 5))],
                   "holes": draw(lists(tuples(sint(0, 6), sint(0, 6), sint(0, nb - 1)), 0, 5))})
    w = draw(st.one_of(st.none(), lists(samp([1, 2, 3, 0.5, 5]), len(gs), len(gs))))
    return {"T": T, "grids": gs, "w": w, "bad": draw(sint(0, 9)) == 0 and len(gs) > 1}


ASPECTS = {
    "clip": {"strategy": clip(), "quick": 2500, "shards": 2},
    "resize": {"strategy": resize(), "quick": 2500, "shards": 2},
    "resample": {"strategy": resample(), "quick": 1500, "shards": 1},
    "chunks": {"strategy": chunks(), "quick": 1200, "shards": 2, "cost": 2},
    "merge": {"strategy": merge(), "quick": 2000, "shards": 2, "cost": 2},
}
