from hypothesis import strategies as st
from harness.gens import *
from props.v04_gen import star

RULE = ("A case is a pair of lines or polygons, on a lattice (so that touching, shared vertices and overlap happen and are decided exactly), in two coordinate systems, or on the sphere. "
        "Non-trivial: their bounding boxes overlap; for the point sets, at least one crossing.")
ASSUMPTIONS = ["intersection points of collinear overlapping segments are not judged, only that the geometries intersect",
               "on the sphere, pairs of segments that come within about a micro-radian of touching without sharing a vertex are not judged",
               "lines do not start with a zero-length segment"]
I = sint(-6, 6)


@st.composite
def shape(draw, n=6):
    kind = draw(samp(["line", "line", "poly"]))
    if rare(draw, 24):
        return [kind, draw(longline(40, -6, 6))]
    if kind == "line":
        v = draw(st.lists(tuples(I, I), min_size=2, max_size=n))
        if v[0] == v[1]:
            v[1] = [v[1][0] + draw(samp([1, -1])), v[1][1] + draw(sint(-1, 1))]
    else:
        v = draw(st.one_of(star(3, 2), st.lists(tuples(I, I), min_size=3, max_size=n, unique_by=tuple)))
    return [kind, v]


@st.composite
def planar(draw):
    a, b = draw(shape()), draw(shape())
    if draw(sint(0, 3)) == 0:
        # end b on a vertex or on the middle of a segment of a
        k = draw(sint(0, len(a[1]) - 2))
        p, q = a[1][k], a[1][k + 1]
        m = draw(samp([list(p), list(q)] + ([[(p[0] + q[0]) // 2, (p[1] + q[1]) // 2]] if (p[0] + q[0]) % 2 == 0 and (p[1] + q[1]) % 2 == 0 else [])))
        if b[1][-2] != m:
            b[1][-1] = m
    if draw(sint(0, 5)) == 0:
        d = draw(tuples(sint(-20, 20), sint(-20, 20)))
        b = [b[0], [[v[0] + d[0], v[1] + d[1]] for v in b[1]]]
    return {"a": a, "b": b, "scale": draw(samp([1, 1, 0.25, 65536, 3, 2.0 ** -20])), "off": draw(tuples(samp([0, 0, 500000, -7]), samp([0, 0, 4000000, 11]))),
            "z": draw(samp([0, 0, 1])), "crs": draw(samp(["cart", "cart", "utm"]))}


@st.composite
def cross(draw):
    g = lambda: [draw(samp(["line", "poly"])), [[draw(rnd(-116, -108, 3)), draw(rnd(40, 50, 3))] for _ in range(draw(sint(3, 5)))]]
    return {"a": g(), "b": g(), "ca": draw(samp(["utm", "merc", "laea"])), "cb": draw(samp(["utm", "merc", "laea", "lonlat"]))}


@st.composite
def sphere(draw):
    lon0, lat0 = draw(samp([0, 180, -180, 90, 179, -60])), draw(samp([0, 0, 45, -70, 86, -88, 90]))
    w = draw(samp([3, 20, 60]))
    def g():
        n = draw(sint(2, 5)) if not rare(draw, 20) else draw(sint(6, 25))
        v = [[lon0 + draw(rnd(-w, w, 2)) * (3 if abs(lat0) > 80 else 1), max(-89.9, min(89.9, lat0 + draw(rnd(-w, w, 2))))] for _ in range(n)]
        return [draw(samp(["line", "poly"])) if n > 2 else "line", [[(x + 180) % 360 - 180, y] for x, y in v]]
    a, b = g(), g()
    s = draw(sint(0, 4))
    if s == 0:
        b[1][draw(samp([0, -1]))] = list(draw(samp(a[1])))
    return {"a": a, "b": b, "crs": draw(samp(["lonlat", "sph"])), "disp": draw(samp([0, 0, 60]))}


ASPECTS = {
    "planar": {"strategy": planar(), "quick": 6000, "shards": 2},
    "cross": {"strategy": cross(), "quick": 600, "shards": 1},
    "sphere": {"strategy": sphere(), "quick": 3500, "shards": 2},
}
