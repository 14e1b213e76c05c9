import io
import json
import os
import tempfile
from harness.geo import *
from props.v10_chk import DEPTH, deep, shape, flat

T = {"Point": Point, "Line": Line, "Multipoint": Multipoint, "Multiline": Multiline, "Multipolygon": Multipolygon}
JT = {"Point": "Point", "Line": "LineString", "Polygon": "Polygon", "Multipoint": "MultiPoint", "Multiline": "MultiLineString", "Multipolygon": "MultiPolygon"}
KIND = {v: k for k, v in JT.items()}
PLACE = {"cart": (1.0, 0.0, 0.0), "utm": (1000.0, 500000.0, 4500000.0), "lonlat": (0.125, -110.0, 45.0), "sph": (0.125, 20.0, -30.0), "merc": (1024.0, -12200000.0, 5600000.0), "laea": (512.0, 1000.0, -2000.0)}


def place(c):
    s, x, y = PLACE[c["crs"]]
    n = [0]
    def f(v):
        n[0] += 1
        return (v[0] * s + x, v[1] * s + y) + ((float(n[0] * 7 % 50),) if c["z"] else ())
    V = deep(f, c["v"], DEPTH[c["kind"]])
    if c["rev"] and c["kind"] == "Polygon":
        V = [r[::-1] for r in V]
    if c["rev"] and c["kind"] == "Multipolygon":
        V = [[r[::-1] for r in p] for p in V]
    return V


def build(c, V):
    kind = c["kind"]; K = crs(c["crs"]); props = dict(c["props"]); cols = {k: list(v) for k, v in c["cols"].items()}
    if kind in ("Point", "Line"):
        return T[kind](V, properties=props, crs=K)
    if kind == "Polygon":
        h = c.get("holecrs")
        if h and c["crs"] in EPSG and h != c["crs"]:
            subs = [Polygon(to(c["crs"], h, r), crs=crs(h)) for r in V[1:]]
        else:
            subs = [Polygon(r, crs=K) for r in V[1:]]
        return Polygon(V[0], subs=subs, properties=props, crs=K)
    return T[kind](V, data=cols or None, properties=props, crs=K)


def ring_same(a, b, tol):
    """same ring from any vertex, in any direction; a may be closed"""
    if len(a) > 1 and all(abs(x - y) <= tol for x, y in zip(a[0], a[-1])):
        a = a[:-1]
    if len(a) != len(b):
        return False
    for d in (a, a[::-1]):
        for k in range(len(d)):
            if all(len(p) == len(q) and all(abs(x - y) <= tol for x, y in zip(p, q)) for p, q in zip(d[k:] + d[:k], b)):
                return True
    return False


def coords_same(kind, got, exp, tol, what, closed=False):
    """nested coordinates of a geometry"""
    if kind in ("Polygon", "Multipolygon"):
        ps, es = ([got], [exp]) if kind == "Polygon" else (got, exp)
        check(len(ps) == len(es), "%s: %r parts, expected %r", what, len(ps), len(es))
        for p, e in zip(ps, es):
            check(len(p) == len(e), "%s: %r rings, expected %r", what, len(p), len(e))
            for r, q in zip(p, e):
                if closed:
                    check(len(r) >= 4 and list(r[0]) == list(r[-1]), "%s: open ring %r", what, r)
                check(ring_same([list(v) for v in r], [list(v) for v in q], tol), "%s: ring %r, expected %r", what, r, q)
        return
    sh = lambda v: 0 if not isinstance(v[0], (list, tuple)) else [sh(x) for x in v]
    fl = lambda v: [v] if not isinstance(v[0], (list, tuple)) else [q for x in v for q in fl(x)]
    check(sh(got) == sh(exp), "%s: structure %r, expected %r", what, got, exp)
    check(all(len(p) == len(q) and all(abs(x - y) <= tol for x, y in zip(p, q)) for p, q in zip(fl(got), fl(exp))), "%s: coordinates %r, expected %r", what, got, exp)


def nested(g):
    k = type(g).__name__
    if k == "Point":
        return list(g.vertex())
    if k in ("Line", "Multipoint"):
        return [list(v) for v in verts(g)] if len(g) else []
    if k == "Polygon":
        check(all(isinstance(s, Polygon) for s in g.subs), "holes are %r", g.subs)
        return [verts(g)] + [verts(s) for s in g.subs]
    if k == "Multiline":
        return [verts(p) for p in g]
    return [[verts(p)] + [verts(s) for s in p.subs] for p in g]


def split(kind, props, n):
    """properties and data columns of a feature"""
    if kind[:5] != "Multi":
        return dict(props), {}
    data = {k: v for k, v in props.items() if isinstance(v, list) and len(v) == n}
    return {k: v for k, v in props.items() if k not in data}, data


def eq(a, b):
    return repr(a) == repr(b) if not isinstance(a, dict) else isinstance(b, dict) and sorted(a) == sorted(b) and all(eq(a[k], b[k]) for k in a)


def is_geom(g, kind, coords, props, cols, K, tol, what):
    check(type(g).__name__ == kind, "%s: a %s, expected %s", what, type(g).__name__, kind)
    check(g.crs is K, "%s: coordinate system %r, expected %r", what, g.crs, K)
    coords_same(kind, nested(g), coords, tol, what)
    check(eq(dict(g.properties), props), "%s: properties %r, expected %r", what, g.properties, props)
    got = {f: list(g.d[f]) for f in g.data.fields} if hasattr(g, "data") else {}
    check(eq(got, cols), "%s: data %r, expected %r", what, got, cols)


def scratch(f, suffix):
    d = tempfile.mkdtemp(prefix="kv12")
    p = os.path.join(d, "x" + suffix)
    try:
        return f(p)
    finally:
        if os.path.exists(p):
            os.unlink(p)
        os.rmdir(d)


def write(c, ctx):
    c0 = c["g"]; kind = c0["kind"]; K = crs(c0["crs"]); V = place(c0)
    g = build(c0, V)
    force = c["force"] and c0["crs"] in EPSG
    kw = dict(unless(True, force_wgs84=bool(force)))
    if c["indent"] is not None:
        kw["indent"] = c["indent"]
    if c["urn"]:
        kw["urn"] = c["urn"]
    if c["via"] == "string":
        s = g.as_geojson(**kw)
    elif c["via"] == "object":
        f = io.StringIO(); g.to_geojson(f, **kw); s = f.getvalue()
    else:
        def go(p):
            g.to_geojson(p, **kw)
            with open(p) as f:
                return f.read()
        s = scratch(go, ".json")
    check(isinstance(s, str), "as_geojson returned %r", type(s))
    d = json.loads(s)
    proj = force and c0["crs"] != "lonlat"
    W = deep(lambda p: to(c0["crs"], "lonlat", [p])[0], V, DEPTH[kind]) if proj else V
    mixed = kind == "Polygon" and c0["holecrs"] and c0["crs"] in EPSG and c0["holecrs"] != c0["crs"]
    tol = 1e-9 if proj else (1e-2 if mixed else 0.0)
    if mixed and proj:
        tol = 1e-8
    check(d["type"] == "Feature" and d["geometry"]["type"] == JT[kind], "%s is written as %r of %r", kind, d["type"], d["geometry"]["type"])
    coords_same(kind, d["geometry"]["coordinates"], W, tol, "written %s" % kind, closed=True)
    check(eq(d["properties"], dict(c0["props"], **c0["cols"])), "properties written as %r, expected %r and %r", d["properties"], c0["props"], c0["cols"])
    if c["urn"] or c["force"]:
        u = c["urn"] or "urn:ogc:def:crs:OGC:1.3:CRS84"
        if c["urn"] or force:
            check(d["crs"] == {"type": "name", "properties": {"name": u}}, "coordinate system written as %r, expected %r", d["crs"], u)
    # the geometry is not changed
    is_geom(g, kind, V if not mixed else nested(g), c0["props"], c0["cols"], K, 0.0, "the source")
    # read back
    K2 = crs("lonlat") if force or c["back"] == "lonlat" else K
    import karta.vector.read as R
    if c["via"] == "string":
        h = R.read_geojson(s, **({} if K2 is crs("lonlat") else {"crs": K2}))
    elif c["via"] == "object":
        h = R.read_geojson(io.StringIO(s), crs=K2)
    else:
        def back(p):
            with open(p, "w") as f:
                f.write(s)
            return R.read_geojson(p, crs=K2)
        h = scratch(back, ".json")
    check(isinstance(h, list) and len(h) == 1, "read %r", h)
    is_geom(h[0], kind, W, c0["props"], c0["cols"], K2, tol, "read back")
    if kind == "Polygon":
        check(all(q.crs is K2 for q in h[0].subs), "holes read in another coordinate system")
    ctx.nontrivial(bool(c0["props"] or c0["cols"] or (kind == "Polygon" and len(V) > 1))); ctx.label(kind)


class Shape(object):
    def __init__(self, d):
        self.__geo_interface__ = d


def interface(c, ctx):
    c0 = c["g"]; kind = c0["kind"]; K = crs(c0["crs"]); V = place(c0)
    import karta.vector.read as R
    if c["feature"]:
        g = build(dict(c0, holecrs=None), V)
        d = g.__geo_interface__
        check(d["type"] == "Feature" and d["geometry"]["type"] == JT[kind], "geo interface of %s is %r", kind, d)
        coords_same(kind, json.loads(json.dumps(d["geometry"]["coordinates"])), V, 0.0, "geo interface of %s" % kind, closed=True)
        p = dict(d["properties"]); p4 = p.pop("_karta_proj4", None)
        check(eq(p, c0["props"]), "properties %r, expected %r", p, c0["props"])
        check(p4 == K.get_proj4(), "coordinate system %r", p4)
        if kind != "Point":
            check(tuple(d["geometry"]["bbox"]) == tuple(g.bbox()), "box %r", d["geometry"]["bbox"])
        check(eq(dict(g.properties), c0["props"]), "the geo interface changed the properties to %r", g.properties)
        src = g; base = dict(c0["props"], _karta_proj4=p4)
    else:
        cl = lambda r: [list(p) for p in r] + [list(r[0])]
        co = [cl(r) for r in V] if kind == "Polygon" else [[cl(r) for r in p] for p in V] if kind == "Multipolygon" else V
        if c["propnull"]:
            src = Shape({"type": JT[kind], "coordinates": co}); base = {}
        else:
            src = Shape({"type": "Feature", "geometry": {"type": JT[kind], "coordinates": co}, "properties": dict(c0["props"])}); base = dict(c0["props"])
    h = R.from_shape(src, dict(c["extra"])) if c["extra"] else R.from_shape(src)
    check(type(h).__name__ == kind, "from_shape gave a %s, expected %s", type(h).__name__, kind)
    coords_same(kind, nested(h), V, 0.0, "from_shape")
    check(eq(dict(h.properties), dict(base, **c["extra"])), "properties %r, expected %r and %r", h.properties, base, c["extra"])
    ctx.nontrivial(bool(c0["props"] or (kind in ("Polygon", "Multipolygon")))); ctx.label(kind)


def expected(d):
    """the geometries of a document in order: (kind, coordinates, properties, data)"""
    if d["type"] == "FeatureCollection":
        return [q for f in d["features"] for q in expected(f)]
    if d["type"] == "GeometryCollection":
        return [q for f in d["geometries"] for q in expected(f)]
    if d["type"] == "Feature":
        g = d["geometry"]; p = d["properties"] or {}
        if g["type"] == "GeometryCollection":
            return [(k, co, dict(p), {}) for k, co, _, _ in expected(g)]
        kind = KIND[g["type"]]
        return [(kind, g["coordinates"]) + split(kind, p, len(g["coordinates"]))]
    return [(KIND[d["type"]], d["coordinates"], {}, {})]


def foreign(c, ctx):
    import karta.vector.read as R
    d = c["d"]
    s = json.dumps(d, indent=c["indent"])
    kw = {"crs": crs(c["crs"])} if c["crs"] else {}
    K = crs(c["crs"] or "lonlat")
    if c["via"] == "string":
        got = R.read_geojson(s, **kw)
    elif c["via"] == "object":
        got = R.read_geojson(io.StringIO(s), **kw)
    else:
        def back(p):
            with open(p, "w") as f:
                f.write(s)
            return R.read_geojson(p, **kw)
        got = scratch(back, ".json")
    exp = expected(json.loads(s))
    if d["type"] not in ("FeatureCollection", "GeometryCollection", "Feature"):
        check(not isinstance(got, list), "a bare geometry was read as %r", got)
        got = [got]
    check(isinstance(got, list) and not any(isinstance(g, list) for g in got), "read %r", got)
    check(len(got) == len(exp), "%r geometries read, expected %r: %s", len(got), len(exp), s)
    for i, (g, (kind, co, p, data)) in enumerate(zip(got, exp)):
        if kind == "Polygon":
            co = [r[:-1] for r in co]
        elif kind == "Multipolygon":
            co = [[r[:-1] for r in q] for q in co]
        is_geom(g, kind, co, p, data, K, 0.0, "geometry %d" % i)
    ctx.nontrivial(len(exp) >= 2); ctx.label(d["type"])


CHECKS = {"write": write, "interface": interface, "foreign": foreign}
