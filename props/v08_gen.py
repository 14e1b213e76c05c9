from hypothesis import strategies as st
from harness.gens import *
from props.v04_gen import star

RULE = ("A case is a geometry and a point, on the plane (decided in rational arithmetic), between coordinate systems, or on an ellipsoid or sphere (decided by an independent minimisation over geodesics). "
        "Non-trivial: the nearest position is interior to a segment, or (for distances) the points differ in both coordinates.")
ASSUMPTIONS = ["geodetic segments are 100 m to 3000 km long and the point is within 5000 km", "which of several equally near positions is returned is not judged"]
I = sint(-6, 6)


@st.composite
def line(draw, n=6):
    kind = draw(samp(["line", "poly", "line"]))
    if rare(draw, 20):
        return [kind, draw(longline(60, -6, 6))]
    if kind == "line":
        return [kind, draw(st.lists(tuples(I, I), min_size=draw(samp([2, 3, 4])), max_size=n))]
    return [kind, draw(st.one_of(star(3, 2), st.lists(tuples(I, I), min_size=3, max_size=n)))]


@st.composite
def planar(draw):
    g = draw(line())
    p = draw(st.one_of(tuples(sint(-8, 8), sint(-8, 8)), tuples(rnd(-9, 9, 2), rnd(-9, 9, 2))))
    k = draw(sint(0, 9))
    if k == 0:
        p = list(draw(samp(g[1])))
    elif k == 1:
        i = draw(sint(0, len(g[1]) - 2))
        p = [(g[1][i][0] + g[1][i + 1][0]) / 2.0, (g[1][i][1] + g[1][i + 1][1]) / 2.0]
    return {"g": g, "p": p, "scale": draw(samp([1, 1, 0.25, 65536, 3, 2.0 ** -20])), "off": draw(tuples(samp([0, 0, 500000, -7]), samp([0, 0, 4000000, 11]))),
            "z": draw(samp([0, 0, 1])), "crs": draw(samp(["cart", "cart", "utm", "merc"])), "r": draw(rnd(0, 12, 2))}


@st.composite
def geodetic(draw):
    lon0, lat0 = draw(samp([0, 180, -180, 90, 179.9, -60])), draw(samp([0, 0, 45, -70, 86, -88, 90, 5]))
    w = draw(samp([0.05, 1, 8]))
    n = draw(sint(2, 4)) if not rare(draw, 20) else draw(sint(5, 20))
    v = draw(st.lists(tuples(rnd(0, 360, 1), rnd(0.1, 1, 2)), min_size=n, unique_by=tuple, max_size=n))
    return {"kind": draw(samp(["line", "poly"])) if n > 2 else "line", "c": [lon0, lat0], "w": w, "v": v,
            "p": draw(tuples(rnd(0, 360, 1), st.one_of(rnd(0, 1, 2), rnd(0, 3, 2)))), "on": draw(samp([0, 0, 0, 0, 1])), "crs": draw(samp(["lonlat", "sph"])),
            "wrap": draw(samp([0, 0, 1])), "r": draw(rnd(0.1, 2, 2))}


@st.composite
def points(draw):
    names = ["cart", "utm", "merc", "laea", "lonlat", "sph"]
    a = draw(samp(names))
    if a == "cart":
        b = "cart"
    elif a == "sph":
        b = "sph"
    else:
        b = draw(samp([a, a, "utm", "merc", "lonlat"]))
    n = draw(sint(1, 6)) if not rare(draw, 20) else draw(sint(7, 40))
    ll = lambda: tuples(rnd(-116, -108, 3), rnd(38, 50, 3)) if b != "sph" and b != "lonlat" else tuples(rnd(-180, 180, 2), rnd(-90, 90, 2))
    gl = st.one_of(tuples(rnd(-116, -108, 3), rnd(38, 50, 3)), tuples(rnd(-180, 180, 2), rnd(-85, 85, 2))) if a == b and a in ("sph", "lonlat") else tuples(rnd(-116, -108, 3), rnd(38, 50, 3))
    if a == "cart":
        gl = tuples(fl(-50, 50), fl(-50, 50))
    return {"a": a, "b": b, "p": draw(gl), "v": draw(st.lists(gl, min_size=n, max_size=n)), "z": draw(samp([0, 0, 1])),
            "zs": draw(st.lists(sint(-3000, 3000), min_size=n + 1, max_size=n + 1)), "type": draw(samp(["Multipoint", "Multipoint", "Line", "Polygon"])), "proj": draw(st.booleans())}


ASPECTS = {
    "planar": {"strategy": planar(), "quick": 6000, "shards": 2},
    "geodetic": {"strategy": geodetic(), "quick": 2400, "shards": 3},
    "points": {"strategy": points(), "quick": 1500, "shards": 1},
}
