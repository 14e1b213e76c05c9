from hypothesis import strategies as st
from harness.gens import *
from props.v04_gen import star

RULE = ("A case is a geometry of any type (rank 2 or 3, holes, properties, data columns, any coordinate system) written to GeoJSON with any options and read back, passed through the geo interface, or a GeoJSON document of any nesting written by the generator. "
        "Non-trivial: a geometry with properties, data or holes; a document of at least two geometries.")
ASSUMPTIONS = ["list properties of multipart features that have one item per part are data columns, all other properties are not", "properties and data columns have different names",
               "rings come back closed, and in any direction and from any vertex on", "geometries on a plain Cartesian plane are written without conversion to WGS84, those on a sphere too",
               "a Feature has a geometry, and a collection has at least one member"]
I = sint(-9, 9)
text = st.one_of(samp(["", "x", "é", "日本", "a\"b", "a\\b", "<&>", "None", "1", "line\nbreak", "\u2028"]), st.text(max_size=4))
scalar = st.one_of(sint(-5, 10 ** 6), text, st.none(), st.booleans(), samp([0.5, -1.25, 1e-9, 1e20]))
deepval = st.one_of(scalar, scalar, scalar, st.dictionaries(samp(["k", "l"]), scalar, max_size=2), st.lists(scalar, min_size=7, max_size=8), st.just([]))


@st.composite
def geom(draw):
    kind = draw(samp(["Point", "Line", "Polygon", "Multipoint", "Multiline", "Multipolygon"]))
    line = st.lists(tuples(I, I), min_size=2, max_size=5)
    poly = st.builds(lambda a, b: [a] + b, star(6, 4), lists(star(2, 1), 0, 2))
    if kind != "Point" and rare(draw, 20):
        n = draw(sint(6, 40))
        v = {"Polygon": draw(cheese()), "Multiline": [[[i, i], [i, i + 1]] for i in range(n)], "Multipolygon": [draw(cheese(4)) for i in range(1 + n % 7)]}[kind] if kind not in ("Line", "Multipoint") else draw(longline())
    elif kind == "Point":
        v = draw(tuples(I, I))
    elif kind in ("Line", "Multipoint"):
        v = draw(line)
    elif kind == "Polygon":
        v = draw(poly)
    elif kind == "Multiline":
        v = draw(lists(line, 1, 4))
    else:
        v = draw(lists(poly, 1, 3))
    n = len(v)
    cols = draw(st.dictionaries(samp(["a", "b", "c d"]), st.lists(scalar, min_size=n, max_size=n) if n < 9 else st.lists(scalar, min_size=3, max_size=3).map(lambda q: (q * n)[:n]), max_size=2)) if kind[:5] == "Multi" else {}
    return {"kind": kind, "v": v, "z": draw(st.booleans()), "cols": cols, "props": draw(st.dictionaries(samp(["p", "q", "ü", "type", "id"]), deepval, max_size=3)),
            "crs": draw(samp(["cart", "utm", "lonlat", "lonlat", "merc", "laea", "sph"])), "holecrs": draw(samp([None, None, "lonlat"])), "rev": draw(st.booleans())}


@st.composite
def write(draw):
    return {"g": draw(geom()), "force": draw(st.booleans()), "urn": draw(samp([None, None, "urn:ogc:def:crs:EPSG::32612"])), "indent": draw(samp([None, 0, 2])),
            "via": draw(samp(["string", "string", "path", "object"])), "back": draw(samp(["lonlat", "own"]))}


@st.composite
def interface(draw):
    return {"g": draw(geom()), "extra": draw(st.dictionaries(samp(["p", "new"]), scalar, max_size=2)), "feature": draw(st.booleans()), "propnull": draw(st.booleans())}


num = st.one_of(sint(-180, 180), rnd(-180, 180, 3))


@st.composite
def bare(draw):
    t = draw(samp(["Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon"]))
    z = draw(samp([0, 0, 1]))
    pos = st.builds(lambda a, b, c: [a, b] + [c] * z, num, num, num)
    line = st.lists(pos, min_size=2, max_size=4)
    def ring(r):
        return [list(p) + [float(i)] * z for i, p in enumerate(r)] + [list(r[0]) + [0.0] * z]
    poly = st.builds(lambda a, b: [ring(a)] + [ring(q) for q in b], star(6, 4), lists(star(2, 1), 0, 2))
    c = draw({"Point": pos, "LineString": line, "Polygon": poly, "MultiPoint": lists(pos, 1, 4), "MultiLineString": lists(line, 1, 3), "MultiPolygon": lists(poly, 1, 3)}[t])
    return {"type": t, "coordinates": c}


@st.composite
def node(draw, depth):
    k = draw(samp(["bare", "bare", "coll"])) if depth else "bare"
    if k == "bare":
        g = draw(bare())
    else:
        g = {"type": "GeometryCollection", "geometries": [draw(node(depth - 1)) for _ in range(draw(sint(1, 3)))]}
    if draw(samp([0, 0, 0, 1])):
        g["bbox"] = [-180, -90, 180, 90]
    return g


@st.composite
def feature(draw):
    g = draw(node(draw(samp([0, 0, 0, 1, 2]))))
    f = {"type": "Feature", "geometry": g, "properties": draw(st.one_of(st.none(), st.dictionaries(samp(["p", "q", "type"]), deepval, max_size=3)))}
    if g["type"][:5] == "Multi" and f["properties"] is not None:
        n = len(g["coordinates"])
        for k in draw(st.lists(samp(["a", "b"]), max_size=2, unique=True)):
            f["properties"][k] = draw(st.lists(scalar, min_size=n, max_size=n))
        if draw(st.booleans()):
            f["properties"]["txt"] = "x" * n
    if draw(st.booleans()):
        f["id"] = draw(st.one_of(sint(0, 9), text))
    return f


@st.composite
def foreign(draw):
    k = draw(samp(["bare", "feature", "feature", "coll", "features", "features", "features"]))
    if k == "bare":
        d = draw(bare())
    elif k == "feature":
        d = draw(feature())
    elif k == "coll":
        d = {"type": "GeometryCollection", "geometries": [draw(node(2)) for _ in range(draw(sint(1, 3)))]}
    else:
        d = {"type": "FeatureCollection", "features": [draw(feature()) for _ in range(draw(sint(1, 5)) if not rare(draw, 30) else 25)]}
    if draw(samp([0, 0, 1])):
        d["crs"] = {"type": "name", "properties": {"name": "urn:ogc:def:crs:OGC:1.3:CRS84"}}
    return {"d": d, "crs": draw(samp([None, "utm"])), "via": draw(samp(["string", "path", "object"])), "indent": draw(samp([None, 1]))}


ASPECTS = {
    "write": {"strategy": write(), "quick": 2500, "shards": 3},
    "interface": {"strategy": interface(), "quick": 1500, "shards": 1},
    "foreign": {"strategy": foreign(), "quick": 2500, "shards": 2},
}
