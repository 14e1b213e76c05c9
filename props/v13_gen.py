from hypothesis import strategies as st
from harness.gens import *
from props.v04_gen import star

RULE = ("A case is a set of one to eight geometries of one kind (single and multipart mixed, rank 2 or 3, holes) with properties of every type, some missing, written to a new or existing shapefile and read back; or a shapefile made with OGR directly. "
        "Non-trivial: at least two features, or a feature with a hole or of several parts.")
ASSUMPTIONS = ["names are upper-cased, cut to ten bytes and numbered when they clash, a column 'id' is added, and only properties that all features have are kept: these are the format's and the module's rules",
               "values are integers, floats, booleans, dates and texts of at most 60 characters without outer blanks (blanks and empty texts are not distinguished from missing ones by the format)",
               "a column of different types comes back as the texts of its values", "rings come back with another direction and first vertex; multipart geometries of one line or polygon come back as single ones",
               "parts of a multipolygon are disjoint, and holes inside of them", "a Cartesian plane has no representation, and a sphere is exported with the datum WGS84 (known)", "data columns of multipart geometries are not written"]
I = sint(-9, 9)
word = st.text(alphabet="abcXYZ019_-é日ß\"'<&", min_size=1, max_size=60)
VAL = {"int": st.one_of(sint(-9, 9), sint(-2 ** 31, 2 ** 31 - 1)), "big": st.one_of(sint(-2 ** 40, 2 ** 40), sint(-9, 9), samp([10 ** 17, -10 ** 17, 2 ** 31, -2 ** 31 - 1])),
       "float": st.one_of(rnd(-100, 100, 3), fl(-1e9, 1e9), samp([0.1, 1e-3, 123456789.123456, 0.0, -2.5])), "text": st.one_of(word, samp(["None", "1", "x", "2015/01/02"])), "bool": st.booleans(),
       "date": st.builds(lambda a, b, c: {"date": [a, b, c]}, sint(1000, 9999), sint(1, 12), sint(1, 28)), "num": st.one_of(sint(-9, 9), rnd(-5, 5, 1)), "mixed": st.one_of(sint(-9, 9), word, samp([0.5, -2.25])),
       "npint": st.builds(lambda a: {"int64": a}, sint(-2 ** 40, 2 ** 40)), "npfloat": st.builds(lambda a: {"float32": a}, samp([0.5, -2.25, 1024.0]))}
NAMES = ["a", "B", "depth_m", "id", "ID", "A", "longname_one", "longname_two", "longname_oneandmore", "ünï", "日本日本日本", "a b", "LONGNAME_2", "b2"]


@st.composite
def geom(draw, fam, k):
    line = st.lists(tuples(I, I), min_size=2, max_size=5, unique_by=tuple)
    off = lambda p, j: [p[0] + 100 * j, p[1] - 100 * j]
    def poly(j):
        s = draw(star(0, 4)); h = draw(st.booleans())
        rr = [[off(p, j) for p in s]]
        if h:
            q = [[p[0] / 2, p[1] / 2] for p in s]
            rr.append([off(p, j) for p in (q[::-1] if draw(st.booleans()) else q)])
        return rr
    if fam == "Point":
        return {"kind": "Point", "v": [draw(I), draw(I)]}
    if rare(draw, 20):
        n = draw(sint(6, 40))
        if fam == "Multipoint":
            return {"kind": fam, "v": draw(longline())}
        if fam == "Line":
            return draw(samp([{"kind": "Line", "v": draw(longline())}, {"kind": "Multiline", "v": [[[i, i], [i, i + 1]] for i in range(n)]}]))
        return draw(samp([{"kind": "Polygon", "v": draw(cheese())}, {"kind": "Multipolygon", "v": [[[off(p, i) for p in r] for r in draw(cheese(4))] for i in range(1 + n % 7)]}]))
    if fam == "Multipoint":
        return {"kind": "Multipoint", "v": draw(st.lists(tuples(I, I), min_size=1, max_size=5))}
    if fam == "Line":
        if draw(samp([0, 0, 1])):
            return {"kind": "Multiline", "v": draw(lists(line, 1, 4))}
        return {"kind": "Line", "v": draw(line)}
    if draw(samp([0, 0, 1])):
        return {"kind": "Multipolygon", "v": [poly(j) for j in range(draw(sint(1, 3)))]}
    return {"kind": "Polygon", "v": poly(0)}


@st.composite
def write(draw):
    fam = draw(samp(["Point", "Line", "Polygon", "Multipoint", "Line", "Polygon"]))
    n = draw(st.one_of(sint(1, 4), sint(1, 8))) if not rare(draw, 30) else draw(sint(9, 40))
    names = draw(st.lists(samp(NAMES), max_size=5, unique=True))
    cols = {k: draw(samp(sorted(VAL))) for k in names}
    feats = []
    z = draw(samp(["2", "2", "3", "mixed"]))
    for i in range(n):
        props = {k: (None if draw(samp([0, 0, 0, 0, 1])) else draw(VAL[cols[k]])) for k in names}
        if draw(samp([0, 0, 0, 1])):
            props["only%d" % i] = 5
        f = draw(geom(fam, i)); f["props"] = props; f["z"] = z == "3" or (z == "mixed" and draw(st.booleans()))
        feats.append(f)
    return {"feats": feats, "crs": draw(samp(["utm", "lonlat", "merc", "laea", "lcc", "tmerc", "nad83", "nad27", "sinu", "bessel", "stere", "utmsouth", "aea"])), "before": draw(samp([0, 0, 1])), "ext": draw(st.booleans())}


@st.composite
def foreign(draw):
    t = draw(samp(["Point", "LineString", "Polygon", "MultiPoint"]))
    z = draw(samp(["", "", "25D", "M", "ZM"]))
    n = draw(sint(1, 6))
    feats = []
    fields = draw(st.lists(samp(["INT", "BIG", "REAL", "TXT", "DAY"]), max_size=4, unique=True))
    for i in range(n):
        g = draw(geom({"LineString": "Line", "MultiPoint": "Multipoint"}.get(t, t), i))
        v = {"INT": sint(-9, 10 ** 6), "BIG": sint(-2 ** 50, 2 ** 50), "REAL": rnd(-100, 100, 3), "TXT": word, "DAY": st.lists(sint(1, 12), min_size=3, max_size=3)}
        feats.append({"g": None if draw(samp([0] * 7 + [1])) else g, "props": {k: (None if draw(samp([0, 0, 0, 1])) else draw(v[k])) for k in fields}})
    return {"t": t, "z": z, "feats": feats, "fields": fields, "srs": draw(samp(["none", "lonlat", "utm", "nad27", "ll-sphere"])), "utf8": draw(st.booleans())}


ASPECTS = {
    "write": {"strategy": write(), "quick": 2000, "shards": 4},
    "foreign": {"strategy": foreign(), "quick": 1200, "shards": 2},
}
