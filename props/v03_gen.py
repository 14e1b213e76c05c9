from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a point cloud (lattice or arbitrary coordinates, clusters, duplicates) with attributes, and several box, radius or polygon queries. "
        "Non-trivial: more points than one leaf of the index holds, and a query that selects some but not all of them.")
ASSUMPTIONS = ["in geographic coordinate systems, points whose distance differs from the radius by less than a centimetre are not judged"]
LAT = sint(-12, 12).map(float)
XY = {"lat": tuples(LAT, LAT), "any": tuples(rnd(-50, 50), rnd(-50, 50)), "wild": tuples(st.floats(-1e6, 1e6), st.floats(-1e-3, 1e-3)),
      "clus": st.builds(lambda c, d, e: [c * 10 + d / 1e4, c * -7 + e / 1e4], sint(-3, 3), sint(0, 9), sint(0, 9))}


@st.composite
def cloud(draw, nmax=70, kinds=("lat", "any", "wild", "clus")):
    kind = draw(samp(list(kinds)))
    pts = draw(st.lists(XY[kind], min_size=draw(samp([1, 12, nmax // 2])), max_size=nmax))
    if rare(draw, 16):
        pts = pts + [[float(a) / (1 if kind != "clus" else 4), float(b)] for a, b in draw(longline(600, -12, 12))]
    rep = draw(st.lists(sint(0, len(pts) - 1), max_size=8))
    return pts + [pts[i] for i in rep]


@st.composite
def box(draw, pts):
    p, q = draw(samp(pts)), draw(samp(pts))
    j = samp([0, 0, 1e-9, 0.5, -0.5, 3.0])
    x0, x1 = sorted([p[0] + draw(j), q[0] + draw(j)])
    y0, y1 = sorted([p[1] + draw(j), q[1] + draw(j)])
    return [x0, y0, x1, y1]


@st.composite
def tree(draw):
    pts = draw(cloud())
    return {"pts": pts, "cap": draw(samp([1, 2, 3, 4, 8, 50])), "z": draw(st.booleans()), "q": draw(lists(box(pts), 1, 4))}


@st.composite
def mp(draw):
    n = draw(samp([20, 60, 60]))
    pts = draw(cloud(n))
    f = draw(samp([1, 2, 3, 4]))
    qs = []
    for _ in range(draw(sint(1, 4))):
        k = draw(samp(["bbox", "radius", "poly"]))
        if k == "bbox":
            qs.append([k, draw(box(pts))])
        elif k == "radius":
            c, o = draw(samp(pts)), draw(samp(pts))
            qs.append([k, [c[0] + draw(samp([0, 0, 1, 0.5])), c[1]], o if draw(st.booleans()) else draw(samp([0.5, 1.0, 5.0, 13.0, 100.0]))])
        else:
            c = draw(samp(pts))
            m = draw(sint(3, 6))
            qs.append([k, [[c[0] + draw(sint(-9, 9)), c[1] + draw(sint(-9, 9))] for _ in range(m)]])
    edits = draw(st.lists(tuples(sint(0, 19), tuples(LAT, LAT)), max_size=3))
    return {"pts": pts, "copies": f, "q": qs, "edits": edits, "index": draw(st.booleans()), "z": draw(st.booleans())}


@st.composite
def geo(draw):
    lon0, lat0 = draw(samp([0, 90, 179, -180, -75])), draw(samp([0, 45, -60, 80, -89]))
    pts = [[(lon0 + draw(rnd(-6, 6)) + 180) % 360 - 180, max(-90, min(90, lat0 + draw(rnd(-5, 5))))] for _ in range(draw(sint(1, 14)))]
    return {"pts": pts, "c": draw(samp(pts)) if draw(st.booleans()) else [lon0, lat0], "r": draw(samp([1e3, 5e4, 2e5, 4e5, 1e6])),
            "crs": draw(samp(["lonlat", "sph"])), "pcrs": draw(samp(["lonlat", "same", "merc"]))}


ASPECTS = {
    "tree": {"strategy": tree(), "quick": 2500, "shards": 2},
    "points": {"strategy": mp(), "quick": 1800, "shards": 2},
    "geo": {"strategy": geo(), "quick": 400, "shards": 1},
}
