from hypothesis import strategies as st
from harness.gens import *
from props.v04_gen import star

RULE = ("A case is a line, polygon (with or without holes), multipoint or multipart geometry, with two or three coordinates, planar or geographic, and the indices, slices, joins and conversions asked of it; "
        "or points of several coordinate systems made into geometries; or control points and an affine map; or a geographic line or polygon about the dateline. "
        "Non-trivial: at least three different vertices; for a map, at least three points not on a line; for the dateline, a step of more than 90 degrees of longitude.")
ASSUMPTIONS = ["indices lie within the geometry", "the order and direction of the segments of a polygon are kept, but which comes first is not specified", "joining keeps vertices and holes; attributes of joined geometries are not judged",
               "a step of exactly 180 degrees of longitude is not judged"]
I = sint(-9, 9)
bound = st.one_of(st.none(), sint(-12, 12))


@st.composite
def views(draw):
    kind = draw(samp(["Line", "Line", "Polygon", "Polygon", "Multipoint"]))
    n = draw(sint(1 if kind == "Multipoint" else 2 if kind == "Line" else 3, 9))
    if rare(draw, 24):
        n = draw(sint(17, 60))
    def vs(n):
        if n > 9:
            return draw(longline(n, nmin=n))
        return draw(lists(tuples(I, I), n, n))
    crs = draw(samp(["cart", "utm", "lonlat", "sph", "merc"]))
    return {"kind": kind, "v": vs(n), "close": kind == "Polygon" and draw(sint(0, 4)) == 0, "holes": [draw(star(3, 1)) for _ in range(draw(samp([0, 0, 1, 2])))] if kind == "Polygon" else [],
            "z": draw(st.booleans()), "crs": crs, "props": draw(samp([{}, {"name": "a"}, {"k": 1, "name": "b"}])), "data": draw(st.booleans()),
            "slices": draw(lists(tuples(bound, bound, st.one_of(st.none(), samp([1, 2, 3, -1, -2]))), 1, 4)), "hole_z": draw(st.booleans()),
            "more": [{"v": vs(draw(sint(1 if kind == "Multipoint" else 2 if kind == "Line" else 3, 5))), "crs": draw(samp(["same", "same", "lonlat", "merc"])), "holes": [draw(star(2, 1))] if draw(st.booleans()) else []} for _ in range(draw(samp([1, 1, 2])))],
            "ask": draw(st.booleans()), "input": draw(samp(["list", "tuple", "array", "iter", "points"]))}


@st.composite
def multi(draw):
    kind = draw(samp(["Multiline", "Multipolygon", "Multipolygon"]))
    n = draw(sint(1, 5)) if not rare(draw, 24) else draw(sint(6, 15))
    if kind == "Multiline":
        v = [[draw(lists(tuples(I, I), 2, 6))] for _ in range(n)]
    else:
        v = [[draw(lists(tuples(I, I), 3, 6))] + [draw(star(2, 1)) for _ in range(draw(samp([0, 0, 1, 2])))] for _ in range(n)]
    return {"kind": kind, "v": v, "z": draw(st.booleans()), "crs": draw(samp(["cart", "utm", "lonlat"])), "data": draw(st.booleans()), "props": draw(samp([{}, {"name": "a"}])),
            "slices": draw(lists(tuples(bound, bound, st.one_of(st.none(), samp([1, 2, 3, -1, -2]))), 1, 4)), "close": draw(st.booleans())}


@st.composite
def affine(draw):
    return {"v": draw(st.lists(tuples(I, I), min_size=3, max_size=8, unique_by=tuple)), "m": draw(lists(samp([0, 1, -1, 2, 0.5, -3, 1.25, 10]), 6, 6)), "scale": draw(samp([1, 1, 0.125, 1000])), "off": draw(tuples(samp([0, 0, 100]), samp([0, 0, -50]))),
            "noise": draw(st.one_of(st.just([]), lists(sint(-3, 3), 16, 16))), "crs": draw(samp([None, None, ["merc", "lonlat"], ["lonlat", "merc"], ["laea", "merc"]]))}


@st.composite
def dateline(draw):
    lon = st.one_of(samp([-180, 180, 179, -179, 0, 90, -90, 1, -1, 170, -170]), rnd(-180, 180, 1))
    return {"v": draw(lists(tuples(lon, sint(-80, 80)), 2, 6)), "poly": draw(st.booleans()), "crs": draw(samp(["lonlat", "sph"])), "z": draw(st.booleans())}


@st.composite
def frompoints(draw):
    """geometries made from points of one or more systems; the first one, or the one asked for, holds"""
    kind = draw(samp(["Line", "Polygon", "Multipoint", "Multiline", "Multipolygon", "Line"]))
    pool = draw(samp([["merc", "lonlat"], ["lonlat", "utm"], ["lonlat"], ["merc", "utm", "lonlat"], ["laea", "merc"]]))
    n = 3
    lens = [draw(sint(3, 6)) for _ in range(1 if kind in ("Line", "Polygon", "Multipoint") else draw(sint(1, 3)))]
    return {"kind": kind, "v": [[draw(tuples(sint(-40, 40), sint(-40, 40))) for _ in range(k)] for k in lens], "k": [[draw(samp(pool)) for _ in range(k)] for k in lens],
            "z": draw(st.booleans()), "crs": draw(samp([None, None, "merc", "lonlat", "utm"])), "input": draw(samp(["list", "tuple", "iter"])), "props": draw(st.booleans())}


ASPECTS = {
    "points": {"strategy": frompoints(), "quick": 500, "shards": 1},
    "views": {"strategy": views(), "quick": 4000, "shards": 3},
    "multi": {"strategy": multi(), "quick": 2000, "shards": 2},
    "affine": {"strategy": affine(), "quick": 1500, "shards": 1},
    "dateline": {"strategy": dateline(), "quick": 1500, "shards": 1},
}
