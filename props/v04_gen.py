from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a collection of lines or simple polygons with attributes, and several box, line or polygon queries, through the index and through Multiline and Multipolygon. "
        "Non-trivial: more members than one node of the index holds, and a query that selects some but not all of them.")
ASSUMPTIONS = ["members strictly inside a box are within it and members that leave it are not; members whose box touches the edge of the box from inside are not judged (the documentation does not say)",
               "members are lines and simple polygons, query polygons are simple and without holes; all on a lattice, so that the exact answer is known"]
I = sint(-15, 15)


@st.composite
def star(draw, cmax=12, rmax=7):
    """simple lattice polygon: directions in angular order"""
    D = [[2, 0], [2, 1], [1, 2], [0, 2], [-1, 2], [-2, 1], [-2, 0], [-2, -1], [-1, -2], [0, -2], [1, -2], [2, -1]]
    idx = sorted(draw(st.lists(sint(0, 11), min_size=3, max_size=7, unique=True)))
    gaps = [(idx[(i + 1) % len(idx)] - idx[i]) % 12 for i in range(len(idx))]
    if max(gaps) >= 6:
        idx = [0, 3, 6, 9]
    cx, cy = draw(sint(-cmax, cmax)), draw(sint(-cmax, cmax))
    r = [[cx + D[i][0] * k, cy + D[i][1] * k] for i in idx for k in [draw(sint(1, rmax))]]
    if draw(st.booleans()):
        r = r[::-1]
    k = draw(sint(0, len(r) - 1))
    return r[k:] + r[:k]


@st.composite
def item(draw, kind):
    if kind == "line":
        x, y = draw(I), draw(I)
        s = draw(samp([1, 3, 30]))
        return [[x, y]] + [[x + draw(sint(-s, s)), y + draw(sint(-s, s))] for _ in range(draw(sint(1, 3)))]
    return draw(star(12, 3))


@st.composite
def tree(draw):
    kind = draw(samp(["line", "poly"]))
    its = draw(st.lists(item(kind), min_size=draw(samp([1, 8, 25])), max_size=50))
    sc = draw(samp([1.0, 1.0, 0.1, 1e7, 16777217.0, 1e-5]))
    q = []
    for _ in range(draw(sint(1, 4))):
        x0, x1 = sorted([draw(sint(-30, 30)), draw(sint(-30, 30))])
        y0, y1 = sorted([draw(sint(-30, 30)), draw(sint(-30, 30))])
        q.append([x0, y0, x1, y1])
    return {"items": its, "rep": draw(samp([1, 1, 1, 3, 20])), "scale": sc, "off": draw(samp([0.0, 0.0, 0.5, 1e5])), "mc": draw(samp([4, 5, 8, 50])), "q": q, "half": draw(st.booleans()), "z": draw(sint(0, 3)) == 0,
            "max": draw(st.one_of(st.none(), sint(0, 5)))}


@st.composite
def multi(draw):
    kind = draw(samp(["line", "poly"]))
    its = draw(st.lists(item(kind), min_size=draw(samp([1, 5])), max_size=14))
    q = []
    for _ in range(draw(sint(1, 3))):
        k = draw(samp(["within_bbox", "touching_bbox", "touching_line", "touching_poly", "within_poly"]))
        if "bbox" in k:
            x, y = draw(sint(-25, 15)), draw(sint(-25, 15))
            q.append([k, [x, y, x + draw(sint(1, 40)), y + draw(sint(1, 40))]])
        elif "line" in k:
            q.append([k, draw(item("line"))])
        else:
            q.append([k, draw(star(6, 9))])
    return {"kind": kind, "items": its, "copies": draw(samp([1, 1, 2, 5])), "q": q, "index": draw(sint(0, 3)) > 0}


ASPECTS = {
    "tree": {"strategy": tree(), "quick": 2500, "shards": 3},
    "multi": {"strategy": multi(), "quick": 1500, "shards": 3},
}
