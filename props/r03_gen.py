from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a grid geometry (origin, signed resolution, skew, size) and positions/keys/valid-cell patterns. "
        "Non-trivial: the grid is skewed, has a negative resolution, or a non-lattice origin, or the key selects more than one cell.")
ASSUMPTIONS = ["float tolerance 1e-9 relative to the coordinate magnitude", "index decisions within 1e-6 of a rounding tie are not judged"]


@st.composite
def geom(draw, maxn=12):
    return {"T": draw(transforms()), "size": [draw(sint(1, maxn)), draw(sint(1, maxn))]}


@st.composite
def positions(draw):
    g = draw(geom())
    ny, nx = g["size"]
    n = draw(sint(1, 6))
    pts = [[draw(rnd(-1, ny + 1)), draw(rnd(-1, nx + 1))] if draw(sint(0, 3)) else [draw(fl(-2, ny + 2)), draw(fl(-2, nx + 2))] for _ in range(n)]
    inside = draw(st.booleans())
    if inside:
        pts = [[min(max(p[0], 0.01), ny - 0.01), min(max(p[1], 0.01), nx - 0.01)] for p in pts]
    g["pts"] = pts
    g["form"] = draw(samp(["array", "list", "scalar"]))
    return g


def key(n):
    end = st.one_of(st.none(), sint(-n - 2, n + 2))
    sl = st.tuples(end, end, samp([None, 1, 2, -1, -2])).map(lambda t: {"s": list(t)})
    return st.one_of(sint(0, n - 1), sl, st.just({"s": [None, None, None]}))


@st.composite
def coords(draw):
    g = draw(geom())
    g["keys"] = draw(lists(st.tuples(key(g["size"][0]), key(g["size"][1])).map(list), 1, 4))
    g["crs"] = draw(samp([None, None, None, None, "merc"]))
    if g["crs"]:
        # metre grid away from the poles / antimeridian
        g["T"] = [draw(fl(-1e6, 1e6)), draw(fl(-1e6, 1e6)), 1000.0 * g["T"][2], 1000.0 * g["T"][3], 1000.0 * g["T"][4], 1000.0 * g["T"][5]]
    return g


@st.composite
def extent(draw):
    g = draw(geom())
    ny, nx = g["size"]
    g["valid"] = draw(lists(tuples(sint(0, ny - 1), sint(0, nx - 1)), 1, 5))
    g["nodata"] = draw(samp(["nan", -9999.0, 0.0]))
    return g


ASPECTS = {
    "positions": {"strategy": positions(), "quick": 4000, "shards": 2},
    "coords": {"strategy": coords(), "quick": 2500, "shards": 2},
    "extent": {"strategy": extent(), "quick": 3000, "shards": 2},
}
