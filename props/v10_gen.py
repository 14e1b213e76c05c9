from hypothesis import strategies as st
from harness.gens import *
from props.v04_gen import star

RULE = ("A case is a geometry of any type (rank 2 or 3, holes, attributes, properties) and a history of queries (boxes in several coordinate systems, lengths, areas, hashes, coordinates), transformations, extensions and assignments; or a pair of geometries that are equal or differ in one respect. "
        "Non-trivial: at least two transformations and two queries; for pairs, all.")
ASSUMPTIONS = ["geographic geometries stay away from the dateline", "three-dimensional geometries are transformed by 2x3 or 3x4 matrices, two-dimensional ones as if z were zero",
               "attribute columns and properties have different names"]
I = sint(-9, 9)
val = st.one_of(sint(-5, 5), samp(["x", "", "yy"]), st.none(), samp([0.5, -1.25]))


@st.composite
def geom(draw):
    kind = draw(samp(["Point", "Line", "Polygon", "Multipoint", "Multiline", "Multipolygon"]))
    line = st.lists(tuples(I, I), min_size=2, max_size=5)
    if kind != "Point" and rare(draw, 24):
        n = draw(sint(6, 20))
        v = {"Polygon": draw(cheese()), "Multiline": [[[i, i], [i, i + 1]] for i in range(n)], "Multipolygon": [draw(cheese(4)) for i in range(1 + n % 7)]}[kind] if kind not in ("Line", "Multipoint") else draw(longline(40))
    elif kind == "Point":
        v = draw(tuples(I, I))
    elif kind in ("Line", "Multipoint"):
        v = draw(line)
    elif kind == "Polygon":
        v = [draw(star(4, 4))] + draw(lists(star(2, 1), 0, 2))
    elif kind == "Multiline":
        v = draw(lists(line, 1, 4))
    else:
        v = draw(lists(st.builds(lambda a, b: [a] + b, star(4, 4), lists(star(2, 1), 0, 2)), 1, 3))
    n = len(v)
    cols = draw(st.dictionaries(samp(["a", "b", "c"]), st.lists(val, min_size=n, max_size=n) if n < 9 else st.lists(val, min_size=3, max_size=3).map(lambda q: (q * n)[:n]), max_size=2)) if kind[:5] == "Multi" else {}
    return {"kind": kind, "v": v, "z": draw(st.booleans()), "cols": cols, "props": draw(st.dictionaries(samp(["p", "q"]), val, max_size=2)), "crs": draw(samp(["cart", "utm", "lonlat", "sph"]))}


M = rnd(-3, 3, 1)


@st.composite
def step(draw):
    k = draw(samp(["query", "query", "query", "shift", "rotate", "affine", "affine3", "back", "mutate", "reproject"]))
    s = {"op": k, "i": draw(sint(0, 239))}
    if k == "shift":
        s["d"] = draw(tuples(I, I))
    elif k == "rotate":
        s["t"] = draw(samp([0, 90, 180, 45, -30, 360, 12.5])); s["o"] = draw(st.one_of(st.none(), tuples(I, I)))
    elif k == "affine":
        s["m"] = draw(st.lists(M, min_size=6, max_size=6))
    elif k == "affine3":
        s["m"] = draw(st.lists(M, min_size=12, max_size=12))
    elif k == "mutate":
        s["v"] = draw(st.lists(tuples(I, I), min_size=1, max_size=3))
    return s


@st.composite
def history(draw):
    return {"g": draw(geom()), "steps": draw(lists(step(), 4, 14))}


@st.composite
def pair(draw):
    g = draw(geom())
    return {"g": g, "diff": draw(samp(["none", "none", "vertex", "prop", "crs", "drop", "data", "type", "sub", "z"])), "i": draw(sint(0, 30)), "d": draw(samp([1, 0.5, 1e-6]))}


ASPECTS = {
    "history": {"strategy": history(), "quick": 3000, "shards": 4},
    "pair": {"strategy": pair(), "quick": 3000, "shards": 1},
}
