from hypothesis import strategies as st
from harness.gens import *
from props.v04_gen import star

RULE = ("A case is a polygon (lattice polygon of any shape with or without holes, one across or near the dateline, or one around a pole) and a set of points inside, outside, on vertices and on edges. "
        "Non-trivial: at least one point inside and one outside that lies within the bounding box of the polygon (or on the hemisphere of the pole).")
ASSUMPTIONS = ["self-intersecting polygons are judged only at points where the even-odd and the winding rules agree",
               "points on the boundary of a hole are not judged",
               "polar polygons lie within one hemisphere, and points within about a degree of their edges are not judged"]
I = sint(-9, 9)


@st.composite
def anyring(draw):
    r = draw(st.lists(tuples(I, I), min_size=3, max_size=9))
    if draw(sint(0, 3)) == 0:
        r = r + [r[0]]
    return r


@st.composite
def comb(draw):
    """rectilinear, with horizontal and vertical edges on shared lines"""
    hs = draw(st.lists(sint(-5, 5), min_size=1, max_size=5)) if not rare(draw, 10) else [(i * 7) % 11 - 5 for i in range(draw(sint(6, 40)))]
    r, x = [], -6
    for h in hs:
        w = draw(sint(1, 3))
        r += [[x, h], [x + w, h]]
        x += w
    return r + [[x, -8], [-6, -8]]


@st.composite
def planar(draw):
    ring = draw(st.one_of(star(4, 4), anyring(), comb()))
    if draw(st.booleans()):
        ring = ring[::-1]
    k = draw(sint(0, len(ring) - 1))
    ring = ring[k:] + ring[:k]
    holes = draw(lists(star(4, 1), 0, 2)) if draw(st.booleans()) else []
    if rare(draw, 16):
        ring, holes = (lambda q: (q[0], q[1:]))(draw(cheese()))
    pts = []
    for _ in range(draw(sint(4, 14))):
        w = draw(samp(["any", "any", "vertex", "mid", "level", "half"]))
        a = draw(sint(0, len(ring) - 1))
        A, B = ring[a], ring[(a + 1) % len(ring)]
        if w == "vertex":
            pts.append(list(A))
        elif w == "mid":
            pts.append([(A[0] + B[0]) / 2.0, (A[1] + B[1]) / 2.0])
        elif w == "level":
            pts.append([draw(sint(-12, 12)), A[1]])
        elif w == "half":
            pts.append([draw(sint(-24, 24)) / 2.0, draw(sint(-24, 24)) / 2.0])
        else:
            pts.append([draw(sint(-12, 12)), draw(sint(-12, 12))])
    return {"ring": ring, "holes": holes, "pts": pts, "scale": draw(samp([1, 1, 0.125, 1024, 1048576, 2.0 ** -20])), "off": draw(tuples(samp([0, 0, 1000, -500000]), samp([0, 0, 1000, 4000000]))),
            "crs": draw(samp(["cart", "cart", "utm", "merc"])), "z": draw(st.booleans()), "pcrs": draw(st.booleans())}


@st.composite
def dateline(draw):
    c = draw(planar())
    c["lon0"] = draw(samp([0, 180, 179, -180, 171, -170, 90, 176]))
    c["lat0"] = draw(samp([0, 0, 45, -60, 70]))
    c["crs"] = draw(samp(["lonlat", "sph"]))
    c["wrap"] = draw(samp(["[-180,180)", "(-180,180]", "[0,360)"]))
    c["pwrap"] = draw(samp(["[-180,180)", "(-180,180]", "[0,360)"]))
    c["k"] = draw(samp([1, 2, 3]))
    return c


@st.composite
def polar(draw):
    n = draw(sint(3, 8)) if not rare(draw, 16) else draw(sint(9, 40))
    gaps = [draw(sint(2, 10)) for _ in range(n)]
    tot = float(sum(gaps))
    lon, x = [], draw(sint(-180, 180))
    for g in gaps:
        x += g * 360.0 / tot
        lon.append(x)
    lats = [draw(rnd(5, 87, 1)) for _ in range(n)]
    pts = [[draw(rnd(-180, 180, 1)), draw(st.one_of(rnd(-90, 90, 1), rnd(0, 90, 1), samp([90.0, -90.0, 89.9])))] for _ in range(draw(sint(4, 12)))]
    return {"lon": lon, "lat": lats, "south": draw(st.booleans()), "rev": draw(st.booleans()), "pts": pts, "crs": draw(samp(["lonlat", "sph"])), "pcrs": draw(samp([0, 0, 1])),
            "hole": draw(st.one_of(st.none(), rnd(0.1, 0.9, 1)))}


ASPECTS = {
    "planar": {"strategy": planar(), "quick": 6000, "shards": 2},
    "dateline": {"strategy": dateline(), "quick": 4000, "shards": 2},
    "polar": {"strategy": polar(), "quick": 1500, "shards": 2},
}
