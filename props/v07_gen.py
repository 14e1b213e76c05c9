from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a set of vertices of a line, polygon or point cloud: on a lattice (with duplicates and collinear runs), arbitrary, or on a sphere. "
        "Non-trivial: the hull has at least three corners and at least one vertex is not one of them.")
ASSUMPTIONS = ["vertices on the sphere lie within 65 degrees of a common centre", "the vertex at which the hull starts and its direction are not judged"]
I = sint(-6, 6)


@st.composite
def planar(draw):
    k = draw(samp(["lat", "lat", "line", "any", "circle"]))
    n = draw(samp([3, 8, 8, 30]))
    m = min(n, draw(samp([1, 5, 6])))
    if rare(draw, 16):
        pts = draw(longline(160, -6, 6))
    elif k == "lat":
        pts = draw(st.lists(tuples(I, I), min_size=m, max_size=n))
    elif k == "line":
        a, b, c = draw(sint(-3, 3)), draw(sint(-3, 3)), draw(sint(-5, 5))
        pts = [[a * t + c, b * t] for t in draw(st.lists(I, min_size=m, max_size=n))] + draw(st.lists(tuples(I, I), max_size=2))
    elif k == "any":
        pts = draw(st.lists(tuples(rnd(-1e3, 1e3), rnd(-1e3, 1e3)), min_size=m, max_size=n))
    else:
        pts = [[x, y] for x, y in draw(st.lists(samp([(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3), (1, 1), (0, 0), (4, 0)]), min_size=m, max_size=n))]
    return {"pts": pts, "scale": draw(samp([1, 1, 1024, 0.125, 2.0 ** -20])), "off": draw(tuples(samp([0, 0, 500000]), samp([0, 0, 4000000]))) if k != "any" else [0, 0],
            "type": draw(samp(["Multipoint", "Line", "Polygon"])), "crs": draw(samp(["cart", "utm"])), "z": draw(st.booleans())}


@st.composite
def sphere(draw):
    lon0, lat0 = draw(samp([0, 180, -180, 90, -75.5])), draw(samp([0, 30, -60, 85, 90, -90]))
    w = draw(samp([0.01, 1, 20, 60]))
    pts = draw(st.lists(tuples(rnd(0, 360, 2), rnd(0, 1, 3)), min_size=3, max_size=12)) if not rare(draw, 16) else [[float(137.5 * i % 360), round((i % 17) / 17.0, 3)] for i in range(draw(sint(13, 90)))]
    return {"c": [lon0, lat0], "w": w, "pts": pts, "type": draw(samp(["Multipoint", "Line", "Polygon"])), "crs": draw(samp(["lonlat", "sph"])), "dup": draw(st.booleans())}


ASPECTS = {
    "planar": {"strategy": planar(), "quick": 6000, "shards": 2},
    "sphere": {"strategy": sphere(), "quick": 2500, "shards": 1},
}
