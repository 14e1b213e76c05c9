import re
from harness.geo import *
import pyproj
import osgeo.osr
from karta.crs import *
from karta import crs as K_, errors
osgeo.osr.UseExceptions()
PRE = {n: getattr(K_, n) for n in ("SphericalEarth", "LonLatWGS84", "LonLatNAD27", "LonLatNAD83", "UPSNorth", "UPSSouth", "NSIDCNorth", "NSIDCSouth", "LambertEqualArea", "GallPetersEqualArea", "WebMercator")}
# what the names stand for, independently
PREDEF = {"SphericalEarth": "+proj=longlat +R=6370997", "LonLatWGS84": "EPSG:4326", "LonLatNAD27": "EPSG:4267", "LonLatNAD83": "EPSG:4269", "UPSNorth": "EPSG:32661", "UPSSouth": "EPSG:32761",
          "NSIDCNorth": "EPSG:3413", "NSIDCSouth": "+proj=stere +lat_0=-90 +lat_ts=-70 +lon_0=0 +datum=WGS84", "LambertEqualArea": "+proj=laea +lat_0=0 +lon_0=0 +datum=WGS84", "GallPetersEqualArea": "+proj=cea +lat_ts=45 +datum=WGS84", "WebMercator": "EPSG:3857"}
CENTRE = {"UPSNorth": (20, 82), "UPSSouth": (-50, -81), "NSIDCNorth": (-45, 75), "NSIDCSouth": (10, -75), "LonLatNAD27": (-100, 40), "LonLatNAD83": (-100, 40)}
_k, _c = {}, {}


def pc(d):
    if d not in _c:
        _c[d] = pyproj.CRS(d)
    return _c[d]


def split(ell):
    e = [x for x in ell.split() if not x.startswith("+towgs84")]
    t = [x for x in ell.split() if x.startswith("+towgs84")]
    return " ".join(e), " ".join(t)


def build(s):
    """karta's system"""
    if isinstance(s, str):
        return PRE[s]
    if s["s"] not in _k:
        if not s["geo"]:
            _k[s["s"]] = ProjectedCRS(s["s"])
        else:
            e, t = split(s["ell"])
            if e.startswith("+datum="):
                _k[s["s"]] = GeographicalCRS("+ellps=" + K_.DATUM_ELLIPSOIDS[e[7:]], "x", datum=e)
            elif e.startswith("+R="):
                _k[s["s"]] = GeographicalCRS("+a=%s +b=%s" % (e[3:], e[3:]), "x", datum=t)
            else:
                _k[s["s"]] = GeographicalCRS(e, "x", datum=t)
    return _k[s["s"]]


def place(s, off):
    c = CENTRE.get(s, (0, 0)) if isinstance(s, str) else s["c"]
    pole = not (isinstance(s, dict) and s["geo"]) and abs(c[1]) > 60
    lim = 89.5 if pole else 85
    return [((c[0] + o[0] + 180) % 360 - 180, max(-lim, min(lim, c[1] + o[1]))) for o in off]


def vec(f, pts, form):
    if form == "scalar":
        return [tuple(float(v) for v in f(*p)) for p in pts]
    conv = (lambda v: [float(t) for t in v]) if form == "list" else (lambda v: np.array(v, dtype=float))
    r = f(*[conv(col) for col in zip(*pts)])
    check(len(r[0]) == len(pts) and len(r[1]) == len(pts), "%d results of %d positions", len(r[0]), len(pts))
    return [tuple(float(v) for v in t) for t in zip(*r)]


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def dlon(a, b):
    d = abs((a[0] - b[0] + 180) % 360 - 180)
    return math.hypot(d * math.cos(math.radians(a[1])), a[1] - b[1])


def project(c, ctx):
    s = c["s"]
    K = build(s)
    pts = place(s, c["off"])
    geo = isinstance(K, GeographicalCRS)
    d = PREDEF[s] if isinstance(s, str) else s["s"]
    got = vec(K.project, pts, c["form"])
    if geo:
        check(got == [tuple(p) for p in pts], "positions changed: %r, expected %r", got, pts)
        check(vec(lambda x, y: K.project(x, y, inverse=True), pts, c["form"]) == [tuple(p) for p in pts], "positions changed")
    else:
        P = pyproj.Proj(pc(d))
        for p, g in zip(pts, got):
            if "towgs84" in d:
                break
            e = P(*p)
            check(dist(e, g) <= 1e-3, "%s: position %r projected to %r, expected %r", d, p, g, e)
        back = vec(lambda x, y: K.project(x, y, inverse=True), got, c["form"])
        for p, g, b in zip(pts, got, back):
            check("towgs84" in d or dlon(b, P(g[0], g[1], inverse=True)) < 1e-8, "%s: position of %r is %r, expected %r", d, g, b, P(g[0], g[1], inverse=True))
            # some of PROJ's inverses are approximate
            check(dlon(p, b) < 3e-6, "%s: position %r projected and back is %r", d, p, b)
    ctx.nontrivial(not geo and (isinstance(s, str) or "WGS84" not in s["ell"]))
    ctx.label(s if isinstance(s, str) else s["k"]); ctx.label(c["form"])


def transform(c, ctx):
    a, b = c["a"], c["b"]
    A, B = build(a), build(b)
    near = b if c["which"] and not b["geo"] else a
    pts = place(near, c["off"])
    far = b if near is a else a
    if not far["geo"] and (abs(((pts[0][0] - far["c"][0] + 180) % 360) - 180) > 40 or abs(pts[0][1] - far["c"][1]) > 50):
        # the same projection, brought to the same region
        raise Skip("regions apart")
    xy = [pyproj.Proj(pc(a["s"]))(*p) for p in pts] if not a["geo"] else pts
    want = [proj(a["s"], b["s"]).transform(*p) for p in xy]
    if not all(math.isfinite(v) for w in want for v in w):
        raise Skip("undefined")
    got = vec(lambda x, y: A.transform(B, x, y), xy, c["form"])
    for p, g, w in zip(xy, got, want):
        ok = dlon(g, w) < 2e-8 if b["geo"] else dist(g, w) < 2e-3
        check(ok, "%s -> %s: %r became %r, expected %r", a["s"], b["s"], p, g, w)
    back = vec(lambda x, y: B.transform(A, x, y), got, c["form"])
    # PROJ inverts rotations of datums, and the spherical tmerc near its origin, approximately
    loose = 10 if "towgs84" in a["s"] + b["s"] else 30 if "tmerc" in a["s"] + b["s"] else 1
    grids = any("+datum=" in t and "WGS84" not in t for t in (a["s"], b["s"]))
    for p, q in zip(xy, back):
        if grids:
            break               # which way PROJ shifts the datum depends on the area
        ok = dlon(p, q) < 3e-7 * loose if a["geo"] else dist(p, q) < 3e-2 * loose
        check(ok, "%s -> %s -> back: %r became %r", a["s"], b["s"], p, q)
    ctx.nontrivial(a["s"] != b["s"] and not (a["geo"] and b["geo"]))
    ctx.label("datum", "datum" in a["ell"] and "datum" in b["ell"] and a["ell"] != b["ell"]); ctx.label(c["form"])


def ellipsoid_of(d):
    e = pc(d).ellipsoid
    return e.semi_major_metre, e.semi_minor_metre


def parse(c, ctx):
    a, b = c["a"], c["b"]
    s = a["s"] + (" " + c["extra"] if c["extra"] else "")
    e = K_.parse_ellipsoid(s)
    ea = ellipsoid_of(a["s"])
    check(abs(e.a - ea[0]) < 2e-3 and abs(e.b - ea[1]) < 2e-3 and abs(e.f - (1 - ea[1] / ea[0])) < 1e-9, "ellipsoid of %s is %r, expected %r", s, (e.a, e.b, e.f), ea)
    A = ProjectedCRS(s, name="one")
    check(abs(A.ellipsoid.a - ea[0]) < 2e-3 and abs(A.ellipsoid.b - ea[1]) < 2e-3, "ellipsoid of %s is %r, expected %r", s, (A.ellipsoid.a, A.ellipsoid.b), ea)
    A2 = ProjectedCRS(s, name="two")
    check(A == A2 and not (A != A2) and hash(A) == hash(A2), "the same system twice is not equal: %s", s)
    check(A.get_proj4() == s and A.proj4 == s and A.name == "one", "definition %r of %s", A.get_proj4(), s)
    check({A: 1}.get(A2) == 1, "the same system is not found by its hash")
    t = None
    if c["mut"] == "lon_0" and "+lon_0=" in s:
        t = re.sub(r"\+lon_0=(\S+)", lambda m: "+lon_0=%s" % (float(m.group(1)) + 0.5), s)
    elif c["mut"] == "x_0" and "+x_0=" in s:
        t = re.sub(r"\+x_0=(\S+)", lambda m: "+x_0=%s" % (float(m.group(1)) + 1), s)
    elif c["mut"] == "ell" and "+ellps=" in s:
        t = re.sub(r"\+ellps=(\S+)", lambda m: "+ellps=" + ("bessel" if m.group(1) != "bessel" else "intl"), s)
    elif c["mut"] == "proj" and b is not None:
        t = b["s"] if b["s"].split()[0] != s.split()[0] else None
    if t is not None:
        T = ProjectedCRS(t, name="one")
        check(A != T and not (A == T), "different systems are equal: %s and %s", s, t)
        check(K_.LonLatWGS84 != T and K_.Cartesian != T and not (T == K_.Cartesian) and not (T == K_.LonLatWGS84), "%s equals a predefined system", t)
    for bad in ("+proj=longlat +no_defs", "+proj=utm +zone=12"):
        raises(errors.CRSError, lambda: ProjectedCRS(bad))
    ctx.nontrivial("WGS84" not in a["ell"]); ctx.label("different", t is not None); ctx.label(a["ell"].split("=")[0])


def wkt(c, ctx):
    s = c["s"]
    srs = osgeo.osr.SpatialReference()
    ref = None
    if isinstance(s, int):
        d = "EPSG:%d" % s
        srs.ImportFromEPSG(s)
        srs.SetAxisMappingStrategy(osgeo.osr.OAMS_TRADITIONAL_GIS_ORDER)
        ar = pc(d).area_of_use
        fx = [(o[0] + 8) / 16 for o in c["off"]]; fy = [(o[1] + 8) / 16 for o in c["off"]]
        w, e_ = ar.west, ar.east if ar.east > ar.west else ar.east + 360
        pts = [((w + u * (e_ - w) + 180) % 360 - 180, max(-84.0, min(84.0, ar.south + v * (ar.north - ar.south)))) for u, v in zip(fx, fy)]
        ctx.label("epsg")
    else:
        ref = build(s)
        d = PREDEF[s] if isinstance(s, str) else s["s"]
        w_ = ref.get_wkt()
        check(w_ == ref.wkt and len(w_) > 0, "definition in WKT %r", w_)
        srs.ImportFromWkt(w_)
        pts = place(s, c["off"])
        ctx.label("own")
    geo = pc(d).is_geographic
    if c["esri"] and "towgs84" in d:
        raise Skip("not known to ESRI")
    if c["esri"]:
        try:
            srs.MorphToESRI()
        except RuntimeError:
            raise Skip("not known to ESRI")
    text = srs.ExportToWkt()
    K = crs_from_wkt(text)
    check(isinstance(K, GeographicalCRS) == geo, "%s is %r", d, K)
    e = ellipsoid_of(d)
    if d == "EPSG:3857":
        e = (6378137.0, 6378137.0)            # of the projection; PROJ's definition names WGS84
    if not (c["esri"] and d == "EPSG:3857"):
        check(abs(K.ellipsoid.a - e[0]) < 2e-3 and abs(K.ellipsoid.b - e[1]) < 2e-3, "ellipsoid of %s is %r, expected %r", d, (K.ellipsoid.a, K.ellipsoid.b), e)
    P = None if geo else pyproj.Proj(pc(d))
    for p in pts:
        g = K.project(*p)
        x = p if geo else P(*p)
        if not geo and "towgs84" in K.get_proj4() and "+towgs84=0,0,0" not in K.get_proj4():
            continue
        if not all(math.isfinite(v) for v in x):
            continue
        check(dist(g, x) <= (1e-9 if geo else 2e-3), "%s from WKT: position %r projected to %r, expected %r (%s)", d, p, g, x, K.get_proj4())
        if not isinstance(s, int) and not c["esri"] and any(t in d for t in ("towgs84", "datum=WGS84", "datum=NAD", "EPSG")):
            # the datum survives
            u, v = proj(d, "EPSG:4326").transform(*x), K.transform(K_.LonLatWGS84, *x)
            if all(math.isfinite(t) for t in u) and not d == "EPSG:3857":
                check(dlon(u, v) < 3e-8, "%s from WKT: %r is %r in WGS84, expected %r (%s)", d, x, v, u, K.get_proj4())
    # exporting again leads to the same system
    K2 = crs_from_wkt(K.get_wkt())
    for p in pts:
        g = K.project(*p)
        if all(math.isfinite(v) for v in g):
            check(dist(g, K2.project(*p)) <= (1e-9 if geo else 2e-3), "%s exported and read again: %r at %r, was %r", d, p, K2.project(*p), g)
    check(abs(K2.ellipsoid.a - K.ellipsoid.a) < 2e-3 and abs(K2.ellipsoid.b - K.ellipsoid.b) < 2e-3, "%s exported and read again: ellipsoid %r", d, (K2.ellipsoid.a, K2.ellipsoid.b))
    ctx.nontrivial(not geo or abs(e[0] - 6378137.0) > 0.01); ctx.label("esri", bool(c["esri"])); ctx.label("geographic", geo)


CHECKS = {"project": project, "transform": transform, "parse": parse, "wkt": wkt}
