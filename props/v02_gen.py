from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a multipart geometry (points, lines, or polygons with holes; with geometry properties and attribute columns) and a history of indexing, slicing, shifting, filtering, merging, rebuilding and assignment. "
        "Non-trivial: at least two parts, at least one attribute column and at least two operations that make a new geometry.")
ASSUMPTIONS = ["a Multipolygon built from Polygons has at least one property that they share (see the known finding)"]
F = samp(["a", "b", "c", "dd"])
PF = samp(["p", "q"])
val = st.one_of(sint(-5, 5), samp(["x", "", "yy"]), st.none(), samp([0.5, -1.25]))


@st.composite
def part(draw, kind, rank, i):
    c = lambda: [draw(sint(-20, 20)) for _ in range(rank)]
    if kind == "point":
        return c()
    if kind == "line":
        return [c() for _ in range(draw(sint(2, 4)))]
    x, y = draw(sint(-20, 20)), draw(sint(-20, 20))
    s = draw(sint(2, 9))
    z = [draw(sint(0, 5))] if rank == 3 else []
    sq = lambda x, y, s: [[x, y] + z, [x + s, y] + z, [x + s, y + s] + z, [x, y + s] + z]
    rings = [sq(x, y, s * 4)]
    for k in range(draw(sint(0, 2))):
        rings.append(sq(x + 1 + k * (s + 1), y + 1, s)[:draw(samp([3, 4]))])
    return rings


@st.composite
def multi(draw, kind, nmin=1, nmax=6, need=False):
    rank = draw(samp([2, 2, 3]))
    n = draw(sint(nmin, nmax))
    fields = draw(st.lists(F, min_size=1 if need else 0, max_size=3, unique=True))
    parts = [draw(part(kind, rank, i)) for i in range(n)]
    cols = {f: draw(lists(val, n, n)) for f in fields}
    if rare(draw, 24):
        k = draw(sint(3, 20))
        parts = parts * k
        cols = {f: cols[f] * k for f in fields}
    return {"rank": rank, "parts": parts, "cols": cols,
            "props": draw(st.dictionaries(PF, val, max_size=2)), "asparts": draw(st.booleans())}


@st.composite
def history(draw):
    kind = draw(samp(["point", "line", "poly"]))
    need = kind == "poly"
    m = draw(multi(kind, 1, 7, need))
    n, ops = len(m["parts"]), []
    for _ in range(draw(sint(1, 6))):
        if n == 0:
            break
        k = draw(samp(["index", "slice", "rebuild", "shift", "bbox", "merge", "setitem", "iter", "rotate"]))
        if k == "index":
            ops.append([k, draw(sint(-n, n - 1))])
        elif k == "slice":
            o = st.one_of(st.none(), sint(-n - 1, n + 1))
            s = [draw(o), draw(o), draw(samp([None, 1, 2, 3, -1, -2]))]
            ops.append([k] + s)
            n = len(range(n)[slice(*s)])
        elif k in ("shift",):
            ops.append([k, draw(sint(-9, 9)), draw(sint(-9, 9))])
        elif k == "bbox":
            x, y = draw(sint(-30, 20)), draw(sint(-30, 20))
            ops.append([k, [x - 0.5, y - 0.5, x + draw(sint(5, 60)) + 0.5, y + draw(sint(5, 60)) + 0.5]])
            n = 99
        elif k == "merge":
            its = draw(lists(tuples(samp(["multi", "single"]), multi(kind, 1, 3, need)), 1, 3))
            ops.append([k, its, draw(sint(0, len(its)))])
            n = 99
        elif k == "setitem":
            if kind == "point":
                ops.append([k, draw(sint(-n, n - 1)) if n < 99 else 0, draw(part("point", m["rank"], 0)), draw(st.dictionaries(F, val, max_size=3)), draw(st.booleans())])
        else:
            ops.append([k])
    return {"kind": kind, "m": m, "ops": ops}


@st.composite
def mixed(draw):
    kind = draw(samp(["point", "line", "poly"]))
    n = draw(sint(1, 4))
    lonlat = tuples(rnd(-119, -104, 2), rnd(35, 55, 2))
    its = []
    for i in range(n):
        k = 1 if kind == "point" else draw(sint(3, 5))
        its.append({"crs": draw(samp(["lonlat", "merc", "utm", "laea"])), "xy": [draw(lonlat) for _ in range(k)], "sub": kind == "poly" and draw(st.booleans()),
                    "z": draw(st.one_of(st.none(), rnd(0, 9, 1))), "props": dict(draw(st.dictionaries(F, val, max_size=3)), k=draw(val))})
    return {"kind": kind, "items": its, "crs": draw(samp([None, "lonlat", "merc", "utm"])), "how": draw(samp(["merge", "new", "add"]))}


ASPECTS = {
    "history": {"strategy": history(), "quick": 3500, "shards": 3},
    "mixed": {"strategy": mixed(), "quick": 1200, "shards": 1},
}
