import datetime
import os
import shutil
import tempfile
import warnings
import pyproj
from osgeo import ogr, osr
from harness.geo import *
from props.v10_chk import DEPTH, deep
from props.v12_chk import build, ring_same, T
import karta.vector.read as R
from karta.vector._shp import write_shapefile

P4 = {"sinu": "+proj=sinu +lon_0=0 +x_0=0 +y_0=0 +a=6371007.181 +b=6371007.181 +units=m +no_defs", "lcc": "+proj=lcc +lat_1=49 +lat_2=77 +lat_0=63 +lon_0=-92 +x_0=0 +y_0=0 +datum=NAD83 +units=m +no_defs", "tmerc": "+proj=tmerc +lat_0=10 +lon_0=-90 +k=0.9996 +x_0=100000 +y_0=5000 +ellps=GRS80 +units=m +no_defs",
      "stere": "+proj=stere +lat_0=90 +lat_ts=70 +lon_0=-45 +k=1 +x_0=0 +y_0=0 +ellps=WGS84 +units=m +no_defs", "utmsouth": "+proj=utm +zone=19 +south +datum=WGS84 +units=m +no_defs",
      "aea": "+proj=aea +lat_1=20 +lat_2=60 +lat_0=23 +lon_0=-96 +x_0=0 +y_0=0 +ellps=clrk66 +units=m +no_defs"}
PLACE = {"sinu": (1000.0, -5000000.0, 4500000.0), "utm": (1000.0, 500000.0, 4500000.0), "lonlat": (0.0625, -110.0, 45.0), "merc": (1024.0, -12200000.0, 5600000.0), "laea": (512.0, 1000.0, -2000.0),
         "lcc": (100.0, 0, 0), "tmerc": (100.0, 100000, 500000), "stere": (64, 500000, -1000000), "utmsouth": (100.0, 500000, 6000000), "aea": (1000.0, 0, 0), "nad83": (0.0625, -110.0, 45.0), "nad27": (0.0625, -110.0, 45.0), "bessel": (0.03125, 10.0, 50.0)}
_extra = {}


def system(n):
    if n in EPSG:
        return crs(n)
    if n not in _extra:
        if n == "nad83":
            _extra[n] = kcrs.LonLatNAD83
        elif n == "nad27":
            _extra[n] = kcrs.LonLatNAD27
        elif n == "bessel":
            _extra[n] = kcrs.GeographicalCRS("+ellps=bessel", "Bessel", datum="")
        else:
            _extra[n] = kcrs.ProjectedCRS(P4[n], name=n)
    return _extra[n]


def same_system(a, b, n, what):
    """the projection and the ellipsoid are the same"""
    check(isinstance(b, kcrs.GeographicalCRS) == isinstance(a, kcrs.GeographicalCRS), "%s: coordinate system %r, expected %r", what, b, a)
    s, x, y = PLACE[n]
    for dx, dy in ((0, 0), (9, 5), (-7, 3)):
        X, Y = x + dx * s, y + dy * s
        l1 = pyproj.Proj(a.get_proj4())(X, Y, inverse=True) if not isinstance(a, kcrs.GeographicalCRS) else (X, Y)
        l2 = b.project(X, Y, inverse=True)
        check(abs(l1[0] - l2[0]) < 1e-7 and abs(l1[1] - l2[1]) < 1e-7, "%s: in %s the position of %r is %r, expected %r", what, b.get_proj4(), (X, Y), l2, l1)
        w = [proj(p4, "EPSG:4326").transform(X, Y) for p4 in (a.get_proj4(), b.get_proj4())] if n != "bessel" else [l1, l1]
        if isinstance(b, kcrs.GeographicalCRS):
            w[1] = b.transform(kcrs.LonLatWGS84, X, Y)
        check(abs(w[0][0] - w[1][0]) < 1e-7 and abs(w[0][1] - w[1][1]) < 1e-7, "%s: datum changed: in %s the position of %r is %r in WGS84, expected %r", what, b.get_proj4(), (X, Y), w[1], w[0])
    A, B = pyproj.Proj(a.get_proj4()).crs.ellipsoid, pyproj.Proj(b.get_proj4()).crs.ellipsoid
    check(abs(A.semi_major_metre - B.semi_major_metre) < 1e-3 and abs(A.semi_minor_metre - B.semi_minor_metre) < 1e-3, "%s: ellipsoid %r, expected %r", what, B, A)


def value(v):
    if isinstance(v, dict):
        (k, x), = v.items()
        return datetime.date(*x) if k == "date" else np.dtype(k).type(x)
    return v


def plain(v):
    return v.item() if hasattr(v, "dtype") else v


def column(vals):
    """what a column of values comes back as"""
    vals = [plain(v) for v in vals]
    kinds = set("n" if isinstance(v, (int, float)) else "d" if isinstance(v, datetime.date) else "t" for v in vals if v is not None)
    if not kinds:
        return None
    if len(kinds) > 1:
        return [None if v is None else ("text", v) for v in vals]
    return vals


def value_same(got, exp):
    if exp is None:
        return got is None
    if isinstance(exp, tuple):
        e = exp[1]
        if isinstance(e, str):
            return got == e
        if isinstance(e, datetime.date):
            return isinstance(got, str) and [int(q) for q in got.replace("-", "/").split("/")] == [e.year, e.month, e.day]
        try:
            return isinstance(got, str) and abs(float(got) - e) < 1e-9
        except ValueError:
            return False
    if isinstance(exp, (int, float)):
        return isinstance(got, (int, float)) and abs(got - exp) <= 1e-14 + 4e-15 * abs(exp) and (not isinstance(exp, int) or got == exp)
    return type(got) is type(exp) and got == exp


def coordinates(g):
    k = type(g).__name__
    if k == "Point":
        return tuple(g.vertex())
    if k in ("Line", "Multipoint"):
        return verts(g)
    if k == "Polygon":
        return [verts(g)] + [verts(s) for s in g.subs]
    if k == "Multiline":
        return [verts(p) for p in g]
    return [[verts(p)] + [verts(s) for s in p.subs] for p in g]


def geo_same(kind, got, exp, what):
    if kind == "Point":
        check(tuple(got) == tuple(exp), "%s: %r, expected %r", what, got, exp)
    elif kind in ("Line", "Multipoint"):
        check([tuple(v) for v in got] == [tuple(v) for v in exp], "%s: %r, expected %r", what, got, exp)
    elif kind == "Multiline":
        check([[tuple(v) for v in r] for r in got] == [[tuple(v) for v in r] for r in exp], "%s: %r, expected %r", what, got, exp)
    else:
        ps, es = ([got], [exp]) if kind == "Polygon" else (got, exp)
        check(len(ps) == len(es), "%s: %r parts, expected %r", what, len(ps), len(es))
        for e in es:
            ok = [p for p in ps if len(p) == len(e) and ring_same([tuple(v) for v in p[0]], e[0], 0.0)]
            check(ok, "%s: no polygon %r in %r", what, e, ps)
            for h in e[1:]:
                check(any(ring_same([tuple(v) for v in r], h, 0.0) for r in ok[0][1:]), "%s: no hole %r in %r", what, h, ok[0])


def single(kind, V):
    if kind == "Multiline" and len(V) == 1:
        return "Line", V[0]
    if kind == "Multipolygon" and len(V) == 1:
        return "Polygon", V[0]
    return kind, V


def shp_name(k):
    return k.upper().encode("utf-8")[:10].decode("utf-8", "ignore")


def scratch(f):
    d = tempfile.mkdtemp(prefix="kv13")
    try:
        return f(d)
    finally:
        shutil.rmtree(d)


def place(c, crsname):
    s, x, y = PLACE[crsname]
    n = [0]
    def f(v):
        n[0] += 1
        return (v[0] * s + x, v[1] * s + y) + ((float(n[0] * 7 % 50) - 20.5,) if c["z"] else ())
    return deep(f, c["v"], DEPTH[c["kind"]])


def raise_z(v, d):
    return deep(lambda p: p if len(p) == 3 else p + (0.0,), v, d)


def write(c, ctx):
    K = system(c["crs"])
    gs, exps = [], []
    anyz = any(f["z"] for f in c["feats"])
    for f in c["feats"]:
        V = place(f, c["crs"]); props = {k: value(v) for k, v in f["props"].items()}
        kind = f["kind"]
        if kind in ("Point", "Line"):
            g = T[kind](V, properties=dict(props), crs=K)
        elif kind == "Polygon":
            g = Polygon(V[0], subs=[Polygon(h, crs=K) for h in V[1:]], properties=dict(props), crs=K)
        else:
            g = T[kind](V, properties=dict(props), crs=K)
        gs.append(g); exps.append((kind, V, props))
    common = [k for k in exps[0][2] if all(k in e[2] for e in exps)]
    def run(d):
        p = os.path.join(d, "geo.shp")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if c["before"]:
                write_shapefile(p, Point((1.0, 2.0), properties={"old": 3}, crs=K))
            if len(gs) == 1 and c["ext"]:
                gs[0].to_shapefile(p[:-4])
            else:
                write_shapefile(p, *gs)
        for e in (".shp", ".shx", ".dbf", ".prj"):
            check(os.path.exists(p[:-4] + e), "no %s file", e)
        # the file by OGR directly
        ds = ogr.Open(p); lyr = ds.GetLayer()
        check(lyr.GetFeatureCount() == len(gs), "%r features in the file, expected %r", lyr.GetFeatureCount(), len(gs))
        raw = []
        for ft in lyr:
            raw.append((ft.GetGeometryRef().Clone(), ft.items()))
        srs = lyr.GetSpatialRef()
        check(srs is not None, "no coordinate system in the file")
        names = [lyr.GetLayerDefn().GetFieldDefn(i).GetName() for i in range(lyr.GetLayerDefn().GetFieldCount())]
        del ds, lyr
        return raw, names, R.read_shapefile(p if c["ext"] else p[:-4])
    raw, names, back = scratch(run)
    check(len(back) == len(gs), "%r geometries read, expected %r", len(back), len(gs))
    for i, ((kind, V, props), b) in enumerate(zip(exps, back)):
        if anyz:
            V = raise_z(V, DEPTH[kind])
        kind2, W = single(kind, V)
        check(type(b).__name__ == kind2, "feature %d is a %s, expected %s", i, type(b).__name__, kind2)
        geo_same(kind2, coordinates(b), W, "feature %d" % i)
        rk, rg = raw[i][0], None
        pts = []
        def rec(g):
            if g.GetGeometryCount():
                for j in range(g.GetGeometryCount()):
                    rec(g.GetGeometryRef(j))
            else:
                q = g.GetPoints()
                pts.extend(tuple(v) for v in q)
        rec(rk)
        flatV = []
        def fl(v):
            if isinstance(v, tuple):
                flatV.append(v)
            else:
                for q in v:
                    fl(q)
        fl(V)
        check(set(tuple(v[:len(flatV[0])]) for v in pts) == set(flatV), "the vertices in the file are %r, expected %r", pts, flatV)
        check(raw[i][1]["id"] == i, "id of feature %d is %r", i, raw[i][1]["id"])
        check(b.properties.get("id") == i, "id of feature %d is read as %r", i, b.properties.get("id"))
    # attributes: every common property has its column
    cols = {k: column([e[2][k] for e in exps]) for k in common}
    cols = {k: v for k, v in cols.items() if v is not None}
    check(len(set(n.upper() for n in names)) == len(names), "clashing field names %r", names)
    check(len(names) == 1 + len(cols), "fields %r, expected %r", names, sorted(cols))
    left = [n for n in names if n != "id"]
    read = {n: [b.properties[n] for b in back] for n in left}
    for b in back:
        check(set(b.properties) == set(names), "properties %r, fields %r", b.properties, names)
    groups = {}
    for k in cols:
        groups.setdefault(shp_name(k), []).append(k)
    for k, v in sorted(cols.items()):
        nm = shp_name(k)
        if len(groups[nm]) == 1 and nm != "ID" and nm in read and not any(o != nm and len(groups[o]) > 1 for o in groups):
            cand = [nm]
        else:
            cand = left
        ok = [n for n in cand if all(value_same(a, e) for a, e in zip(read[n], v))]
        check(ok, "property %r of values %r is read as %r", k, v, {n: read[n] for n in cand})
    for b in back:
        same_system(K, b.crs, c["crs"], "read")
    ctx.nontrivial(len(gs) > 1 or gs[0]._geotype[:5] == "Multi" or bool(getattr(gs[0], "subs", None))); ctx.label(c["crs"])


WKB = {"Point": ogr.wkbPoint, "LineString": ogr.wkbLineString, "Polygon": ogr.wkbPolygon, "MultiPoint": ogr.wkbMultiPoint}
FT = {"INT": ogr.OFTInteger, "BIG": ogr.OFTInteger64, "REAL": ogr.OFTReal, "TXT": ogr.OFTString, "DAY": ogr.OFTDate}


def wkt(kind, V, z):
    n = [0]
    tag = {"": "", "25D": " Z", "M": " M", "ZM": " ZM"}[z]
    def pt(p):
        return " ".join(repr(float(x)) for x in p)
    ring = lambda r: "(" + ",".join(pt(p) for p in r) + ")"
    pol = lambda r: "(" + ",".join(ring(q + [q[0]]) for q in r) + ")"
    if kind == "Point":
        return "POINT%s (%s)" % (tag, pt(V))
    if kind == "Line":
        return "LINESTRING%s %s" % (tag, ring(V))
    if kind == "Multipoint":
        return "MULTIPOINT%s (%s)" % (tag, ",".join("(" + pt(p) + ")" for p in V))
    if kind == "Multiline":
        return "MULTILINESTRING%s (%s)" % (tag, ",".join(ring(r) for r in V))
    if kind == "Polygon":
        return "POLYGON%s %s" % (tag, pol(V))
    return "MULTIPOLYGON%s (%s)" % (tag, ",".join(pol(p) for p in V))


def foreign(c, ctx):
    t0 = WKB[c["t"]]
    t0 = {"": t0, "25D": t0 | ogr.wkb25DBit, "M": t0 + 2000, "ZM": t0 + 3000}[c["z"]]
    def run(d):
        p = os.path.join(d, "f.shp")
        ds = ogr.GetDriverByName("ESRI Shapefile").CreateDataSource(p)
        srs = None
        if c["srs"] != "none":
            srs = osr.SpatialReference()
            if c["srs"] == "lonlat":
                srs.ImportFromEPSG(4326)
            elif c["srs"] == "utm":
                srs.ImportFromEPSG(32612)
            elif c["srs"] == "nad27":
                srs.ImportFromEPSG(4267)
            else:
                srs.ImportFromProj4("+proj=longlat +a=6370997 +b=6370997 +no_defs")
        lyr = ds.CreateLayer("f", srs, t0, ["ENCODING=UTF-8"])
        for k in c["fields"]:
            fd = ogr.FieldDefn(k, FT[k])
            if k == "REAL":
                fd.SetWidth(20); fd.SetPrecision(6)
            if k == "TXT":
                fd.SetWidth(200)
            lyr.CreateField(fd)
        for f in c["feats"]:
            ft = ogr.Feature(lyr.GetLayerDefn())
            for k, v in f["props"].items():
                if v is None:
                    continue
                if k == "DAY":
                    ft.SetField(k, 2000 + v[0], v[1], v[2], 0, 0, 0, 0)
                else:
                    ft.SetField(k, v)
            if f["g"] is not None:
                nz = [0]
                def put(p):
                    nz[0] += 1
                    q = (float(p[0]), float(p[1]))
                    zz = float(nz[0] * 3 % 17)
                    return q + {"": (), "25D": (zz,), "M": (99.0,), "ZM": (zz, 99.0)}[c["z"]]
                V = deep(put, f["g"]["v"], DEPTH[f["g"]["kind"]])
                f["V"] = V
                ft.SetGeometry(ogr.CreateGeometryFromWkt(wkt(f["g"]["kind"], V, c["z"])))
            lyr.CreateFeature(ft)
        if not c["fields"]:
            pass
        del lyr
        ds.Destroy()
        return R.read_shapefile(p)
    back = scratch(run)
    exp = [f for f in c["feats"] if f["g"] is not None]
    check(len(back) == len(exp), "%r geometries read, expected %r", len(back), len(exp))
    n = 3 if c["z"] in ("25D", "ZM") else 2
    for f, b in zip(exp, back):
        V = deep(lambda p: p[:n], f["V"], DEPTH[f["g"]["kind"]])
        kind, W = single(f["g"]["kind"], V)
        check(type(b).__name__ == kind, "a %s, expected %s", type(b).__name__, kind)
        got = coordinates(b)
        got = deep(lambda p: tuple(p)[:n] if c["z"] in ("M", "ZM") else tuple(p), got, DEPTH[kind])
        geo_same(kind, got, W, "read")
        for k, v in f["props"].items():
            e = None if v is None else datetime.date(2000 + v[0], v[1], v[2]) if k == "DAY" else v
            g = b.properties[k]
            check((g is None) if e is None else (abs(g - e) < 1e-5 if k == "REAL" else g == e), "property %s is %r, expected %r", k, g, e)
        K = b.crs
        if c["srs"] in ("none", "lonlat"):
            a, f_ = 6378137.0, 1 / 298.257223563
        elif c["srs"] == "nad27":
            a, f_ = 6378206.4, 1 - 6356583.8 / 6378206.4
        elif c["srs"] == "ll-sphere":
            a, f_ = 6370997.0, 0.0
        if c["srs"] == "utm":
            q = K.project(500000, 4500000, inverse=True)
            e = to("utm", "lonlat", [(500000, 4500000)])[0]
            check(abs(q[0] - e[0]) < 1e-7 and abs(q[1] - e[1]) < 1e-7, "position %r, expected %r", q, e)
        else:
            check(isinstance(K, kcrs.GeographicalCRS), "coordinate system %r", K)
            el = K.ellipsoid
            if c["srs"] in ("nad27", "lonlat"):
                # where its positions are in the other datum
                n27, n84 = kcrs.LonLatNAD27, kcrs.LonLatWGS84
                s, o = (n27, n84) if c["srs"] == "nad27" else (n84, n27)
                w = [proj(s.get_proj4(), o.get_proj4()).transform(-110.0, 43.0), K.transform(o, -110.0, 43.0)]
                check(abs(w[0][0] - w[1][0]) < 1e-7 and abs(w[0][1] - w[1][1]) < 1e-7, "datum lost: (-110, 43) is %r in the other datum, expected %r", w[1], w[0])
            check(abs(el.a - a) < 1e-3 and abs(el.f - f_) < 1e-9, "ellipsoid %r, %r, expected %r, %r", el.a, el.f, a, f_)
    ctx.nontrivial(len(exp) > 1); ctx.label(c["t"] + c["z"])


CHECKS = {"write": write, "foreign": foreign}
