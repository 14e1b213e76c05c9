from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a grid (size, cell shape, skew, bands, storage) and 1-3 polygons in cell units (concave, partly or wholly off the grid, either orientation, with or without holes), "
        "given as a Polygon, a list, or a Multipolygon, in the grid's or another coordinate system. Non-trivial: at least one judged cell is kept and one is masked.")
ASSUMPTIONS = ["cells whose centre lies within 2 cells of a polygon edge are not judged",
               "grids with negative dy: known finding, see known_findings.jsonl"]


@st.composite
def poly(draw, ny, nx):
    n = draw(sint(3, 9)) if not rare(draw, 16) else draw(sint(10, 40))
    rot = draw(sint(0, 359))
    ang = [rot + round(360.0 * (k + draw(rnd(-0.4, 0.4, 2))) / n, 2) for k in range(n)]
    ci, cj = round(ny * draw(rnd(-0.2, 1.2, 2)), 2), round(nx * draw(rnd(-0.2, 1.2, 2)), 2)
    big = draw(samp([8, 15, 22, 40]))
    rad = [round(big * (1 - draw(rnd(0, 0.7, 2))), 2) for _ in range(n)]
    return {"c": [ci, cj], "ang": ang, "rad": rad, "rev": draw(st.booleans()), "hole": draw(samp([0, 0, 0.5, 0.8])), "hrev": draw(st.booleans())}


@st.composite
def case(draw):
    T = draw(transforms())
    T[3] = abs(T[3])
    g = draw(gridspec(maxn=4, nbmax=2, dtypes=["float64", "float32", "int32", "int16", "uint8"]))
    g["T"] = T
    g["size"] = [draw(samp([30, 24, 40, 12, 6])), draw(samp([30, 24, 40, 12, 6]))]
    k = draw(samp([1, 1, 1, 2, 3])) if not rare(draw, 20) else draw(sint(4, 8))
    ps = [draw(poly(g["size"][0], g["size"][1])) for _ in range(k)]
    form = draw(samp(["single", "list", "tuple"] if k == 1 else ["list", "multi", "nested", "listmulti"]))
    return {"g": g, "polys": ps, "form": form, "inplace": draw(st.booleans()), "merc": draw(sint(0, 5)) == 0}


ASPECTS = {"mask": {"strategy": case(), "quick": 1800, "shards": 8, "cost": 4}}
