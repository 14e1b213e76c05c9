import math
import numpy as np
import pyproj
import karta
from karta.crs import ProjectedCRS, LonLatWGS84, LonLatNAD83, WebMercator
from karta.vector.geometry import Point, Multipoint, Line
from harness.rt import *
from harness.grids import *


def xy(T, i, j):
    return T[0] + j * T[2] + i * T[4], T[1] + i * T[3] + j * T[5]


def exact(T):
    return all(float(t) * 4 == int(float(t) * 4) for t in T) and T[4] == T[5] == 0 and all(abs(t) in (0.25, 0.5, 1, 2) for t in T[2:4])


def isnd(v, nd):
    v = np.asarray(v)
    return bool(np.all(v != v)) if nd != nd else bool(np.all(v == nd))


def query(g, c, x, y, method, fn):
    """-> (values shaped (p, npts))"""
    f = c["form"]
    n = len(x)
    nb = g.nbands
    if f == "scalar":
        v = fn(x[0], y[0])
        shp = None
    elif f == "vector":
        v = fn(np.array(x), np.array(y)); shp = (nb, n)
    elif f == "list":
        v = fn(list(x), list(y)); shp = (nb, n)
    elif f == "array":
        k = c["cols"]
        v = fn(np.array(x).reshape(-1, k), np.array(y).reshape(-1, k)); shp = (nb, n // k, k)
    elif f == "point":
        v = g.sample(Point((x[0], y[0]), crs=karta.crs.Cartesian), method=method); shp = None
    elif f == "multipoint":
        v = g.sample(Multipoint(list(zip(x, y)), crs=karta.crs.Cartesian), method=method); shp = (nb, n)
    elif f == "samecrs":
        v = g.sample(np.array(x), np.array(y), crs=karta.crs.Cartesian, method=method); shp = (nb, n)
    elif f == "multipoint3":
        v = g.sample(Multipoint([(a, b, 1.0) for a, b in zip(x, y)], crs=karta.crs.Cartesian), method=method); shp = (nb, n)
    else:
        v = g.sample(list(x), list(y), method=method); shp = (nb, n)
    v = np.asarray(v)
    if shp is not None:
        check(v.shape == shp, "%s: result of a %s query has shape %r, expected bands first: %r", method, f, v.shape, shp)
        return v.reshape(nb, n)
    check(v.shape in ((nb,), (), (1,)), "%s: result of a %s query has shape %r", method, f, v.shape)
    if v.shape == (nb,):
        return v.reshape(nb, 1)
    return np.full((nb, 1), v.reshape(-1)[0])   # out of bounds: a bare nodata value


def setup(c):
    g = make(c["g"])
    if c.get("copied"):
        g = g.copy()
    v = values(c["g"])
    T = c["g"]["T"]
    check(np.dtype(g.values.dtype) == v.dtype, "data type of the values of bands %r is %r", c["g"].get("types") or c["g"]["dtype"], g.values.dtype)
    x = [float(xy(T, p[0], p[1])[0]) for p in c["pts"]]
    y = [float(xy(T, p[0], p[1])[1]) for p in c["pts"]]
    return g, v, T, x, y


def nearest(c, ctx):
    g, v, T, x, y = setup(c)
    ny, nx, nb = v.shape
    before = full(g).copy()
    r = query(g, c, x, y, "nearest", g.sample_nearest)
    nout = 0
    for k, (i, j) in enumerate(c["pts"]):
        if min(i % 1, 1 - i % 1) < 1e-6 or min(j % 1, 1 - j % 1) < 1e-6:
            ctx.label("tie"); continue
        if 0 < i < ny and 0 < j < nx:
            e = v[int(i), int(j)]
            check(same(r[:, k], e), "nearest sample at %r (index position %r) is %r, the cell holds %r", (x[k], y[k]), (i, j), r[:, k].tolist(), e.tolist())
        else:
            nout += 1
            check(isnd(r[:, k], g.nodata), "nearest sample outside the grid at %r is %r, nodata is %r", (x[k], y[k]), r[:, k].tolist(), g.nodata)
    check(same(full(g), before), "sampling changed the grid")
    ctx.label("outside", nout); ctx.label("all-outside", nout == len(x)); ctx.label("bands=%d" % nb); ctx.label(c["form"])
    ctx.nontrivial(nb > 1 or T[4] or T[5] or T[2] < 0 or T[3] < 0 or 0 < nout < len(x))


def bilinear(c, ctx):
    g, v, T, x, y = setup(c)
    ny, nx, nb = v.shape
    r = query(g, c, x, y, "bilinear", g.sample_bilinear)
    isint = v.dtype.kind in "iu"
    ex = exact(T)
    nout = 0
    vf = v.astype(float)
    for k, (pi, pj) in enumerate(c["pts"]):
        i, j = pi - 0.5, pj - 0.5
        margin = min(i, ny - 1 - i, j, nx - 1 - j)
        if abs(margin) < 1e-6 and not (ex and margin >= 0):
            ctx.label("boundary-unjudged"); continue
        if margin < 0:
            nout += 1
            check(isnd(r[:, k], g.nodata), "bilinear sample outside the outermost cell centres at %r is %r, nodata is %r", (x[k], y[k]), r[:, k].tolist(), g.nodata)
            continue
        i0 = min(int(i), ny - 2); j0 = min(int(j), nx - 2)
        a, b = i - i0, j - j0
        e = vf[i0, j0] * (1-a)*(1-b) + vf[i0+1, j0] * a*(1-b) + vf[i0, j0+1] * (1-a)*b + vf[i0+1, j0+1] * a*b
        tol = 1e-8 * (1 + np.abs(vf).max()) * (1 + max(abs(T[0]), abs(T[1])) / min(abs(T[2]), abs(T[3])))
        tol = tol + (1.0 if isint else 0.0)
        for q in range(nb):
            check(abs(float(r[q, k]) - e[q]) <= tol, "bilinear sample band %d at %r (index position %r) is %r, expected %r", q, (x[k], y[k]), (i, j), r[q, k], e[q])
        ctx.label("cell-centre", i == int(i) and j == int(j))
    ctx.label("outside", nout); ctx.label("bands=%d" % nb); ctx.label(c["form"]); ctx.label("int" if isint else "float")
    ctx.nontrivial(nb > 1 or T[4] or T[5] or T[2] < 0 or T[3] < 0 or 0 < nout < len(x))


def profile(c, ctx):
    g, v, T, x, y = setup(c)
    nb = v.shape[2]
    if any((x[k], y[k]) == (x[k+1], y[k+1]) for k in range(len(x) - 1)):
        raise Skip("repeated vertex")
    line = Line(list(zip(x, y)), crs=karta.crs.Cartesian)
    kw = {}
    if c["res"] is not None:
        kw["resolution"] = c["res"] * max(abs(T[2]), abs(T[3]))
    elif max(abs(T[2]), abs(T[3])) > 4 * min(abs(T[2]), abs(T[3])):
        kw["resolution"] = max(abs(T[2]), abs(T[3]))
    else:
        ctx.label("default-resolution")
    pts, z = g.profile(line, method=c["method"], **kw)
    z = np.asarray(z)
    n = len(pts)
    step = kw.get("resolution", min(abs(T[2]), abs(T[3])))
    first = math.hypot(x[1] - x[0], y[1] - y[0])
    if first > step * (1 + 1e-6):
        check(n > 1, "the profile along a line of length > %r has one point", first)
        p0, p1 = pts[0].vertex(), pts[1].vertex()
        d = math.hypot(p1[0] - p0[0], p1[1] - p0[1])
        check(close(d, step, 1e-9, 1e-9 * (1 + max(map(abs, T[:2])))), "profile points are %r apart, resolution is %r", d, step)
    check(z.shape == (nb, n), "profile values have shape %r for %d points and %d bands", z.shape, n, nb)
    f = g.sample_nearest if c["method"] == "nearest" else g.sample_bilinear
    for k in list(range(min(n, 25))) + [n - 1]:
        p = pts[k]
        xk, yk = p.vertex()[:2]
        e = np.atleast_1d(f(float(xk), float(yk)))
        check(near(z[:, k], e if len(e) == nb else np.full(nb, e[0]), 1e-9, 1e-9), "profile value %d is %r, sampling the returned point gives %r", k, z[:, k].tolist(), e.tolist())
        for q in range(nb):
            d = p.properties.get("band_%d" % q)
            check(d is not None and near([d], [z[q, k]]), "profile point %d carries band_%d=%r, value is %r", k, q, d, z[q, k])
    ctx.nontrivial(n > 2)
    ctx.label("negative", T[2] < 0 or T[3] < 0)


SYS = {"UTM16": ProjectedCRS("+proj=utm +zone=16 +datum=WGS84", "UTM 16"), "UTM17": ProjectedCRS("+proj=utm +zone=17 +datum=WGS84", "UTM 17"),
       "LonLat": LonLatWGS84, "Web": WebMercator, "LonLatNAD": LonLatNAD83}


def othercrs(c, ctx):
    """positions given in another system are sampled where they lie on the grid"""
    gc, oc = SYS[c["sys"]], SYS[c["from"]]
    g = make(c["g"], crs=gc)
    v = values(c["g"])
    ny, nx, nb = v.shape
    T = c["g"]["T"]
    gx, gy = np.array([xy(T, p[0], p[1]) for p in c["pts"]]).T
    same_ = gc is oc
    if same_:
        x, y = gx, gy
    else:
        x, y = tr(DEF[c["sys"]], DEF[c["from"]]).transform(gx, gy)
    x, y = [float(t) for t in x], [float(t) for t in y]
    kw = {} if c["method"] == "default" else {"method": c["method"]}
    f = c["form"]
    n = 1 if f == "point" else len(x)
    if f == "point":
        r = g.sample(Point((x[0], y[0]), crs=oc), **kw)
    elif f == "multipoint":
        r = g.sample(Multipoint(list(zip(x, y)), crs=oc), **kw)
    elif f == "samecrs":
        v = g.sample(np.array(x), np.array(y), crs=karta.crs.Cartesian, method=method); shp = (nb, n)
    elif f == "multipoint3":
        r = g.sample(Multipoint([(a, b, 7.0) for a, b in zip(x, y)], crs=oc), **kw)
    else:
        r = g.sample(np.array(x), np.array(y), crs=oc, **kw)
    r = np.asarray(r)
    if r.size == 1:
        r = np.full((nb, 1), r.reshape(-1)[0])
    check(r.shape == (nb, n) or (n == 1 and r.shape == (nb,)), "sampling %d positions in another system gives shape %r", n, r.shape)
    r = r.reshape(nb, n).astype(float)
    vf = v.astype(float)
    slack = 1e-4       # of a cell: the two transforms differ by micrometres
    inside = 0
    for k in range(n):
        pi, pj = c["pts"][k]
        if c["method"] == "nearest":
            if min(pi % 1, 1 - pi % 1) < slack or min(pj % 1, 1 - pj % 1) < slack:
                continue
            e = vf[int(pi), int(pj)] if 0 < pi < ny and 0 < pj < nx else None
            tol = np.zeros(nb)
        else:
            i, j = pi - 0.5, pj - 0.5
            m = min(i, ny - 1 - i, j, nx - 1 - j)
            if abs(m) < slack:
                continue
            e = None
            if m > 0:
                i0, j0 = min(int(i), ny - 2), min(int(j), nx - 2)
                a, b = i - i0, j - j0
                e = vf[i0, j0]*(1-a)*(1-b) + vf[i0+1, j0]*a*(1-b) + vf[i0, j0+1]*(1-a)*b + vf[i0+1, j0+1]*a*b
                tol = 4 * slack * (np.abs(vf).max() + 1) + (1.0 if v.dtype.kind in "iu" else 0.0)
                tol = np.full(nb, tol)
        if e is None:
            check(isnd(np.asarray(g[:, :]).dtype.type(r[0, k]) if v.dtype.kind in "iu" else r[:, k], g.nodata), "%s sample outside the grid at %r (%s) is %r, nodata is %r", c["method"], (x[k], y[k]), c["from"], r[:, k].tolist(), g.nodata)
        else:
            inside += 1
            check(bool(np.all(np.abs(r[:, k] - e) <= tol)), "%s sample of %r in %s on a grid in %s (index position %r) is %r, expected %r", c["method"], (x[k], y[k]), c["from"], c["sys"], (pi, pj), r[:, k].tolist(), e.tolist())
    ctx.label(f); ctx.label("%s on %s" % (c["from"], c["sys"]))
    ctx.nontrivial(inside and not same_)


DEF = {"UTM16": "+proj=utm +zone=16 +datum=WGS84", "UTM17": "+proj=utm +zone=17 +datum=WGS84", "LonLat": "+proj=lonlat +datum=WGS84",
       "Web": "EPSG:3857", "LonLatNAD": "+proj=lonlat +datum=NAD83"}
_tr = {}


def tr(a, b):
    if (a, b) not in _tr:
        _tr[a, b] = pyproj.Transformer.from_crs(a, b, always_xy=True)
    return _tr[a, b]


CHECKS = {"nearest": nearest, "bilinear": bilinear, "profile": profile, "othercrs": othercrs}
