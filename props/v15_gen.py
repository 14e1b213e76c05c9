from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a line, planar (on a lattice, scaled and offset) or geographic (hops from metres to thousands of kilometres, across the dateline and near poles), with a spacing relative to its length or a number of points. "
        "Non-trivial: at least two segments and at least three points returned.")
ASSUMPTIONS = ["lines of rank two", "segments of geographic lines are shorter than 15000 km, and their vertices not within 50 km of a pole", "where the length is a multiple of the spacing to rounding, the last point may be missing"]
I = sint(-9, 9)
N = st.one_of(sint(2, 12), sint(2, 40), samp([2, 3]))
F = st.one_of(rnd(0.02, 0.99, 3), fl(0.02, 0.99, nice=False), samp([0.5, 0.25, 0.1, 1 / 3, 0.999, 1.5, 0.05, 1.0]))


@st.composite
def planar(draw):
    v = draw(st.lists(tuples(I, I), min_size=2, max_size=7))
    return {"v": v, "scale": draw(samp([1, 1, 0.125, 1024, 2.0 ** -20, 3])), "off": draw(tuples(samp([0, 0, 1000, -512]), samp([0, 0, 4096]))), "crs": draw(samp(["cart", "utm", "merc"])), "n": draw(N), "f": draw(F)}


@st.composite
def geodetic(draw):
    x, y = draw(samp([0, 180, -180, 179.9, 90, 12.3, -170])), draw(samp([0, 45, -70, 85, -88, 0.5, -30]))
    s = draw(samp([0.001, 0.1, 1, 10, 60]))
    hops = draw(st.lists(tuples(sint(0, 359), rnd(0.05, 1, 2)), min_size=1, max_size=5))
    return {"c": [x, y], "s": s, "hops": hops, "crs": draw(samp(["lonlat", "lonlat", "sph"])), "n": draw(N), "f": draw(F), "dup": draw(samp([0, 0, 0, 1]))}


ASPECTS = {
    "planar": {"strategy": planar(), "quick": 3000, "shards": 1},
    "geodetic": {"strategy": geodetic(), "quick": 1800, "shards": 3},
}
