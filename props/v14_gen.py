from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a history of waypoints, tracks of any number of segments, and routes (rank 2 or 3, properties, data columns, attributes) added to a GPX document that is written and read back one or more times; or a GPX file written by the generator. "
        "Non-trivial: at least two different kinds of members, or a track of several segments.")
ASSUMPTIONS = ["names of properties are XML names, and texts have no control characters; empty texts and missing values are not distinguished by the format", "coordinates are read to six decimals",
               "values come back as texts", "properties of a route are not divided into properties and extensions"]
txt = st.one_of(st.text(alphabet="abz 019.-<>&\"'é日]\n", min_size=1, max_size=10), samp(["None", "]]>", "<b>", "&amp;", "a&b", "x"]))
val = st.one_of(txt, sint(-5, 10 ** 6), rnd(-100, 100, 3))
KEYS = ["name", "desc", "time", "sym", "hdop", "dgpsid", "cmt", "speed", "x_y", "Temp", "naïve", "wpt1", "nam"]
lon = st.one_of(rnd(-180, 180, 6), sint(-180, 180), samp([-180.0, 180.0, 0.000001, -1e-6, 179.999999]))
lat = st.one_of(rnd(-90, 90, 6), sint(-90, 90), samp([90.0, -90.0, 1e-6]))
props = st.dictionaries(samp(KEYS), val, max_size=4)


@st.composite
def path(draw):
    z = draw(st.booleans())
    n = draw(sint(1, 5))
    if rare(draw, 40):
        n = draw(sint(6, 40))
    kind = draw(samp(["Line", "Multipoint"]))
    n = max(n, 2) if kind == "Line" else n
    v = [[draw(lon), draw(lat)] + ([draw(st.one_of(sint(-100, 9000), rnd(-100, 9000, 2)))] if z else []) for _ in range(n)]
    cols = {}
    if kind == "Multipoint":
        for k in draw(st.lists(samp(KEYS), max_size=2, unique=True)):
            cols[k] = draw(st.lists(st.one_of(val, val, st.none()), min_size=n, max_size=n))
    return {"kind": kind, "v": v, "props": draw(props), "cols": cols}


@st.composite
def op(draw):
    k = draw(samp(["wpt", "wpt", "trk", "trk", "rte", "rewrite"]))
    if k == "wpt":
        z = draw(st.booleans())
        return {"op": k, "v": [draw(lon), draw(lat)] + ([draw(sint(-100, 9000))] if z else []), "props": draw(props)}
    if k == "trk":
        return {"op": k, "segs": draw(lists(path(), 1, 3)) if not rare(draw, 20) else draw(lists(path(), 4, 12)), "attr": draw(st.one_of(st.none(), props))}
    if k == "rte":
        return {"op": k, "path": draw(path())}
    return {"op": k}


@st.composite
def history(draw):
    return {"ops": draw(lists(op(), 1, 8)) if not rare(draw, 20) else draw(lists(op(), 9, 30)), "ctor": draw(samp([0, 0, 1])), "how": draw(samp(["path", "object"])), "part": draw(samp([None, None, "waypts", "tracks", "routes"]))}


@st.composite
def fpoint(draw):
    return {"c": [draw(samp(["1.5", "-122.0000004", "180", "-0.0000005", "12.34567891", "-7.1e1"])), draw(samp(["0", "45.1234567", "-90", "+3.25", "1e-3"]))], "props": draw(st.dictionaries(samp(["ele", "name", "time", "sym"]), txt, max_size=3)),
            "ext": draw(st.one_of(st.none(), st.dictionaries(samp(["speed", "hr"]), txt, max_size=2)))}


@st.composite
def foreign(draw):
    pt = fpoint()
    return {"wpts": draw(lists(pt, 0, 4)), "trks": draw(lists(st.builds(lambda a, b, e: {"segs": a, "props": b, "ext": e}, lists(lists(pt, 0, 4), 0, 3), st.dictionaries(samp(["name", "desc"]), txt, max_size=2), st.one_of(st.none(), st.dictionaries(samp(["color"]), txt, max_size=1))), 0, 3)),
            "rtes": draw(lists(st.builds(lambda a, b: {"pts": a, "props": b}, lists(pt, 0, 3), st.dictionaries(samp(["name", "desc"]), txt, max_size=2)), 0, 3)), "prefix": draw(samp(["", "g:"])), "meta": draw(st.booleans()), "order": draw(sint(0, 5))}


ASPECTS = {
    "history": {"strategy": history(), "quick": 3000, "shards": 2},
    "foreign": {"strategy": foreign(), "quick": 1500, "shards": 1},
}
