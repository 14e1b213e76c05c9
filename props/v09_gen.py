from hypothesis import strategies as st
from harness.gens import *
from props.v04_gen import star

RULE = ("A case is a line or polygon (with holes), planar on a lattice and scaled and offset, or on an ellipsoid or sphere anywhere on the globe; or a pair of positions. "
        "Non-trivial: a polygon of at least four vertices or with a hole; a line of at least three different vertices; a pair that differs in both coordinates.")
ASSUMPTIONS = ["geographic polygons are star-shaped, at least 5 km across, and smaller than a hemisphere; holes are smaller copies of the outline",
               "geographic centroids are not judged (a planar formula in degrees)", "azimuths at poles and between nearly antipodal positions are not judged"]
I = sint(-9, 9)


@st.composite
def planar(draw):
    kind = draw(samp(["line", "poly", "poly"]))
    if kind == "line":
        v = draw(st.lists(tuples(I, I), min_size=draw(samp([2, 3, 4])), max_size=8)) if not rare(draw, 20) else draw(longline())
    elif rare(draw, 16):
        v = draw(longline())
    else:
        v = draw(st.one_of(star(5, 3), star(5, 3), st.lists(tuples(I, I), min_size=3, max_size=8)))
    holes = draw(lists(star(4, 1), 0, 2)) if kind == "poly" and draw(st.booleans()) else []
    if kind == "poly" and rare(draw, 16):
        v, holes = (lambda q: (q[0], q[1:]))(draw(cheese()))
    return {"kind": kind, "v": v, "holes": holes, "rev": draw(st.booleans()), "k": draw(sint(0, 9)), "scale": draw(samp([1, 1, 0.125, 1024, 2.0 ** -20, 3])),
            "off": draw(tuples(samp([0, 0, 1000, -500000]), samp([0, 0, 1000, 4000000]))), "z": draw(st.booleans()), "crs": draw(samp(["cart", "utm", "merc"]))}


@st.composite
def geodetic(draw):
    n = draw(sint(3, 9)) if not rare(draw, 16) else draw(sint(10, 60))
    az = sorted(draw(st.lists(sint(0, 359), min_size=n, max_size=n, unique=True)))
    return {"c": draw(tuples(samp([0, 180, -180, 90, 179.9, -60, 12.3]), samp([0, 0, 45, -70, 86, -88, 90, -90, 0.5, -30]))), "w": draw(samp([0.05, 0.3, 1, 8, 30])),
            "az": az, "r": draw(st.lists(rnd(0.4, 1, 2), min_size=n, max_size=n)), "hole": draw(samp([0, 0, 0.3])), "rev": draw(st.booleans()), "k": draw(sint(0, n - 1)),
            "z": draw(samp([0, 0, 1])), "crs": draw(samp(["lonlat", "sph"])), "wrap": draw(samp([0, 0, 1])), "kind": draw(samp(["line", "poly", "poly"]))}


@st.composite
def box(draw):
    s, n = draw(samp([(-90, -60), (-90, 0), (60, 90), (0, 90), (30, 90), (-30, 30), (0, 0.5), (-1, 0), (88, 90), (-90, 45), (-20, 90), (-45.5, -10.25), (89.5, 90)]))
    return {"lat": [s, n], "lon": draw(samp([0, 180, -180, 170, -75, 90, 179.5])), "steps": draw(st.lists(samp([0.5, 1, 10, 45, 60, 90, 33.3]), min_size=1, max_size=4)), "rev": draw(st.booleans()), "k": draw(sint(0, 9)),
            "crs": draw(samp(["lonlat", "lonlat", "sph"])), "wrap": draw(st.booleans()), "mid": draw(st.booleans())}


@st.composite
def pair(draw):
    k = draw(samp(["cart", "utm", "merc", "laea", "lonlat", "sph", "lonlat"]))
    if k == "cart":
        ll = tuples(fl(-50, 50), fl(-50, 50))
    elif k in ("lonlat", "sph"):
        ll = st.one_of(tuples(rnd(-180, 180, 2), rnd(-89, 89, 2)), tuples(samp([-180, -179.5, 0, 179.9, 90, 10]), samp([-45, 0, 30, 60.5])))
    else:
        ll = tuples(rnd(-116, -108, 3), rnd(38, 50, 3))
    return {"crs": k, "a": draw(ll), "b": draw(ll), "az": draw(st.one_of(rnd(-180, 360, 1), samp([0, 90, 180, 270, -90]))), "d": draw(samp([0, 1, 10, 1234.5, 1e5, 2.5e6])), "proj": draw(st.booleans()),
            "b_crs": draw(samp(["same", "same", "lonlat"])), "z": draw(samp([0, 0, 1]))}


ASPECTS = {
    "planar": {"strategy": planar(), "quick": 5000, "shards": 2},
    "geodetic": {"strategy": geodetic(), "quick": 3000, "shards": 3},
    "box": {"strategy": box(), "quick": 1500, "shards": 1},
    "pair": {"strategy": pair(), "quick": 2500, "shards": 1},
}
