from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is one or two coordinate systems (projection kind and parameters, with the ellipsoid given by name, by datum, by axes, by flattening or as a sphere; or an EPSG code through WKT or ESRI WKT; or a predefined system) and positions in their domain. "
        "Non-trivial: at least one projected system with a non-default parameter, or an ellipsoid other than WGS84.")
ASSUMPTIONS = ["positions within 8 degrees of the centre of a projection, and latitudes below 80 degrees where it is singular",
               "systems on other celestial bodies, with other prime meridians than Greenwich or in other angular units than degrees are not generated",
               "SphericalEarth is not exported (its definition names the WGS84 datum)", "where a system has +towgs84, PROJ itself projects from WGS84 or from its own datum depending on how it is called: only transforms are compared", "datums other than WGS84, NAD83, NAD27 and those with +towgs84 are not exported by GDAL: only their ellipsoid is compared after WKT", "grid-based datum shifts are compared with what PROJ does with the grids installed"]
ELLPS = ["WGS84", "GRS80", "clrk66", "bessel", "intl", "krass", "airy", "sphere", "clrk80", "aust_SA", "evrst30", "mod_airy", "helmert", "GRS67", "WGS72", "hough", "andrae", "mprts", "delmbr", "plessis", "SEasia", "walbeck", "new_intl", "fschr68", "kaula", "bess_nam", "CPM", "engelis", "IAU76", "MERIT"]
DATUMS = ["WGS84", "NAD83", "NAD27", "potsdam", "OSGB36", "GGRS87", "carthage", "hermannskogel", "ire65", "nzgd49"]
E1 = st.one_of(samp(ELLPS).map(lambda e: "+ellps=" + e), samp(ELLPS).map(lambda e: "+ellps=" + e), samp(DATUMS).map(lambda d: "+datum=" + d), samp(["WGS84", "NAD83"]).map(lambda d: "+datum=" + d),
               tuples(samp([6378137, 6378206.4, 6371000, 6378388.0]), samp([6356752.3, 6356583.8, 6355000])).map(lambda t: "+a=%s +b=%s" % tuple(t)),
               tuples(samp([6378137, 6377397.155]), samp([298.25, 300, 299.1528128])).map(lambda t: "+a=%s +rf=%s" % tuple(t)),
               tuples(samp([6378137, 6377397.155]), samp([0.0033, 0, 0.00335])).map(lambda t: "+a=%s +f=%s" % tuple(t)),
               samp([6371000, 6371007.181, 6370997]).map(lambda r: "+R=%s" % r), samp([6371000, 6378137.0]).map(lambda r: "+a=%s +b=%s" % (r, r)),
               samp(["+ellps=bessel +towgs84=598.1,73.7,418.2,0.202,0.045,-2.455,6.7", "+ellps=intl +towgs84=-87,-98,-121", "+ellps=GRS80 +towgs84=0,0,0"]))


@st.composite
def system(draw, geo=True, at=None):
    k = draw(samp((["lonlat", "lonlat"] if geo else []) + ["utm", "utm", "merc", "laea", "stere", "polar", "aea", "lcc", "cea", "tmerc", "eqc", "sinu", "aeqd"]))
    e = draw(E1)
    lon0 = draw(samp([0, -96, 10, 150, -45, 3] if at is None else [at[0], at[0] + 4, at[0] - 9]))
    lat0 = draw(samp([0, 45, -30, 23, 52.5] if at is None else [at[1], at[1] / 2, at[1] - 7]))
    x0, y0 = draw(samp([0, 0, 500000, 2000000, -1000.5])), draw(samp([0, 0, 10000, -5000000]))
    c = [lon0, lat0]
    p = []
    if k == "lonlat":
        return {"s": "+proj=longlat " + e, "geo": 1, "c": [lon0, lat0], "k": k, "ell": e}
    if k == "utm":
        if e in ("+ellps=sphere",) or e.startswith("+R=") or e.endswith("+f=0") or e in ("+a=6371000 +b=6371000", "+a=6378137.0 +b=6378137.0"):
            e = "+ellps=clrk66"         # not defined on a sphere
        z = draw(samp([1, 12, 33, 31, 60, 19])) if at is None else int((at[0] + 180) // 6) % 60 + 1
        c = [z * 6 - 183, draw(samp([10, 45, 70]))]
        p = ["+zone=%d" % z]
        if draw(st.booleans()):
            p.append("+south"); c[1] = -c[1]
        if at is not None:
            c[1] = at[1]
    elif k == "polar":
        s = draw(samp([1, -1]))
        c = [lon0, 80 * s]
        p = ["+lat_0=%d" % (90 * s), "+lat_ts=%s" % (draw(samp([70, 71, 90])) * s), "+lon_0=%s" % lon0, "+x_0=%s" % x0, "+y_0=%s" % y0]
    elif k in ("aea", "lcc"):
        l1, l2 = draw(samp([(49, 77), (29.5, 45.5), (20, 60), (-18, -36)]))
        c[1] = (l1 + l2) / 2
        p = ["+lat_1=%s" % l1, "+lat_2=%s" % l2, "+lat_0=%s" % draw(samp([0, 23, 40] if l1 > 0 else [0, -30])), "+lon_0=%s" % lon0, "+x_0=%s" % x0, "+y_0=%s" % y0]
    else:
        p = ["+lon_0=%s" % lon0, "+x_0=%s" % x0, "+y_0=%s" % y0]
        if k in ("laea", "stere", "tmerc", "aeqd"):
            p.append("+lat_0=%s" % lat0)
        if k in ("tmerc", "stere") and draw(st.booleans()):
            # (not 0.9996: PROJ turns that into a UTM zone, and refuses it on a sphere)
            p.append("+k=%s" % draw(samp([0.9993, 0.994, 1])))
        if k in ("merc", "cea", "eqc") and draw(st.booleans()):
            p.append("+lat_ts=%s" % draw(samp([30, 45, 0])))
    p += e.split()
    if draw(st.booleans()):
        p.append("+units=m")
    if draw(st.booleans()):
        p.append("+no_defs")
    order = draw(sint(0, 5))
    if order:
        p = p[order % len(p):] + p[:order % len(p)]
    kk = "stere" if k == "polar" else k
    return {"s": " ".join(["+proj=" + kk] + p), "geo": 0, "c": c, "k": k, "ell": e}


PREDEF = ["SphericalEarth", "LonLatWGS84", "LonLatNAD27", "LonLatNAD83", "UPSNorth", "UPSSouth", "NSIDCNorth", "NSIDCSouth", "LambertEqualArea", "GallPetersEqualArea", "WebMercator"]
OFF = st.lists(tuples(rnd(-8, 8, 3), rnd(-8, 8, 3)), min_size=1, max_size=4)


@st.composite
def project(draw):
    s = draw(st.one_of(system(), system(), samp(PREDEF)))
    return {"s": s, "off": draw(OFF), "form": draw(samp(["scalar", "list", "array"]))}


@st.composite
def transform(draw):
    a = draw(system())
    b = draw(system(at=[int(a["c"][0]), a["c"][1]]))
    return {"a": a, "b": b, "off": draw(OFF), "form": draw(samp(["scalar", "list", "array"])), "which": draw(sint(0, 1))}


@st.composite
def parse(draw):
    return {"a": draw(system()), "b": draw(st.one_of(system(geo=False), st.none())), "mut": draw(samp(["none", "lon_0", "ell", "x_0", "name", "proj"])), "extra": draw(samp(["", "+no_defs", "+units=m +no_defs", "+wktext"])), "case": draw(sint(0, 3))}


CODES = [4326, 4269, 4267, 4258, 4314, 4277, 4230, 4674, 4283, 4612, 32612, 32733, 32601, 32760, 27700, 31467, 3035, 3413, 3031, 2154, 5070, 3857, 3395, 26712, 26912, 2193, 28992, 21781, 3978, 32161, 3995, 3577, 6933, 2180, 3067, 5514, 3765, 25833, 23031, 20137]


@st.composite
def wkt(draw):
    s = draw(st.one_of(samp(CODES), samp(CODES), system(), samp([p for p in PREDEF if p != "SphericalEarth"])))
    return {"s": s, "esri": draw(samp([0, 0, 1])), "off": draw(OFF)}


ASPECTS = {
    "project": {"strategy": project(), "quick": 4000, "shards": 2},
    "transform": {"strategy": transform(), "quick": 1200, "shards": 3},
    "parse": {"strategy": parse(), "quick": 4000, "shards": 1},
    "wkt": {"strategy": wkt(), "quick": 2500, "shards": 2},
}
