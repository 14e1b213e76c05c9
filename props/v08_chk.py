from fractions import Fraction
from harness.geo import *
import pyproj
G = {"lonlat": pyproj.Geod(ellps="WGS84"), "sph": pyproj.Geod(a=6370997.0, f=0)}
G["merc"] = pyproj.Geod(a=6378137.0, f=0)     # the ellipsoid of web mercator
for _k in ("utm", "laea"):
    G[_k] = G["lonlat"]
T = {"Multipoint": Multipoint, "Line": Line, "Polygon": Polygon}


def segd2(p, a, b):
    """exact squared distance and parameter of the nearest position"""
    vx, vy = b[0] - a[0], b[1] - a[1]
    vv = vx * vx + vy * vy
    t = Fraction(0) if vv == 0 else max(Fraction(0), min(Fraction(1), ((p[0] - a[0]) * vx + (p[1] - a[1]) * vy) / vv))
    dx, dy = a[0] + t * vx - p[0], a[1] + t * vy - p[1]
    return dx * dx + dy * dy, t


def planar(c, ctx):
    s, o = c["scale"], c["off"]
    kind, V = c["g"]
    V = [(v[0] * s + o[0], v[1] * s + o[1]) for v in V]
    p = (c["p"][0] * s + o[0], c["p"][1] * s + o[1])
    K = crs(c["crs"])
    z = (lambda v, i: v + (i * 7.0,)) if c["z"] else (lambda v, i: v)
    g = (Line if kind == "line" else Polygon)([z(v, i) for i, v in enumerate(V)], crs=K)
    pt = Point(z(p, 3), crs=K)
    F = lambda q: (Fraction(q[0]), Fraction(q[1]))
    W = [F(v) for v in V]
    segs = list(zip(W[:-1], W[1:])) + ([(W[-1], W[0])] if kind == "poly" else [])
    P = F(p)
    ds = [segd2(P, a, b) for a, b in segs]
    m, t = min(ds)
    d = math.sqrt(m)
    eps = 1e-9 * (abs(s) * 10 + abs(o[0]) + abs(o[1]))
    got = g.shortest_distance_to(pt)
    check(abs(got - d) <= eps, "shortest distance %r, expected %r", got, d)
    near = g.nearest_on_boundary(pt)
    check(type(near) is Point and near.crs is K, "nearest position is %r", near)
    N = F(near.vertex())
    check(abs(math.sqrt((N[0] - P[0]) ** 2 + (N[1] - P[1]) ** 2) - d) <= eps, "nearest position %r is not at the shortest distance %r", near.vertex(), d)
    on = math.sqrt(min(segd2(N, a, b)[0] for a, b in segs))
    check(on <= eps, "nearest position %r is %r off the boundary", near.vertex(), on)
    for r in (c["r"] * s, d * 1.01 + eps * 3, d * 0.99 - eps * 3):
        if abs(r - d) > 2 * eps:
            check(bool(g.within_distance(pt, r)) == (r > d), "within_distance %r is %r, the distance is %r", r, g.within_distance(pt, r), d)
    ctx.nontrivial(0 < t < 1 and m > 0)
    ctx.label("on", m == 0); ctx.label("vertex", t in (0, 1)); ctx.label("closing", kind == "poly" and ds[-1][0] == m)


def geodmin(geod, p, a, b):
    az, _, L = geod.inv(a[0], a[1], b[0], b[1])
    f = lambda s: geod.inv(*(geod.fwd(a[0], a[1], az, s)[:2] + tuple(p)))[2]
    n = 24
    ss = [L * k / n for k in range(n + 1)]
    ds = [f(s) for s in ss]
    i = ds.index(min(ds))
    lo, hi = ss[max(0, i - 1)], ss[min(n, i + 1)]
    # golden section; the distance to a geodesic is unimodal on such a short stretch
    g = (math.sqrt(5) - 1) / 2
    x1, x2 = hi - g * (hi - lo), lo + g * (hi - lo)
    f1, f2 = f(x1), f(x2)
    for _ in range(200):
        if hi - lo < 1e-3:
            break
        if f1 < f2:
            hi, x2, f2 = x2, x1, f1
            x1 = hi - g * (hi - lo); f1 = f(x1)
        else:
            lo, x1, f1 = x1, x2, f2
            x2 = lo + g * (hi - lo); f2 = f(x2)
    s = 0.5 * (lo + hi)
    d = min(ds + [f(s)])
    return d, 0 < i < n


def norm(lon):
    return (lon + 180) % 360 - 180


def geodetic(c, ctx):
    K = crs(c["crs"]); geod = G[c["crs"]]
    lon0, lat0 = c["c"]
    at = lambda az, r: (lambda q: (norm(round(q[0], 7)), round(q[1], 7)))(geod.fwd(lon0, lat0, az, c["w"] * r * 111000.0))
    V = [at(*v) for v in c["v"]]
    p = at(*c["p"])
    if c["wrap"]:
        V = [(lon % 360, lat) for lon, lat in V]
    segs = list(zip(V[:-1], V[1:])) + ([(V[-1], V[0])] if c["kind"] == "poly" else [])
    L = [geod.inv(*(a + b))[2] for a, b in segs]
    if min(L) < 100:
        raise Skip("short segment")
    if c["on"]:
        az = geod.inv(*(segs[0][0] + segs[0][1]))[0]
        q = geod.fwd(segs[0][0][0], segs[0][0][1], az, L[0] * 0.4)
        p = (norm(q[0]), q[1])
    r = [geodmin(geod, p, a, b) for a, b in segs]
    d, inner = min(r)
    g = (Line if c["kind"] == "line" else Polygon)(V, crs=K)
    pt = Point(p, crs=K)
    tol = 0.05 + 1e-7 * max(L)
    got = g.shortest_distance_to(pt)
    check(abs(got - d) <= tol, "shortest distance %r, expected %r", got, d)
    near = g.nearest_on_boundary(pt)
    check(type(near) is Point and near.crs is K, "nearest position is %r", near)
    n = tuple(float(q) for q in near.vertex()[:2])
    check(abs(geod.inv(*(n + p))[2] - d) <= tol, "nearest position %r is at distance %r, not %r", n, geod.inv(*(n + p))[2], d)
    on = min(geodmin(geod, n, a, b)[0] for a, b in segs)
    check(on <= tol, "nearest position %r is %r m off the boundary", n, on)
    for x in (d * c["r"], d * 1.1 + 1, d * 0.9 - 1):
        if abs(x - d) > 0.01 * d + 2 * tol:
            check(bool(g.within_distance(pt, x)) == (x > d), "within_distance %r is %r, the distance is %r", x, g.within_distance(pt, x), d)
    ctx.nontrivial(inner)
    ctx.label("closing", c["kind"] == "poly" and r[-1][0] == d); ctx.label("on", d < 0.1)


def points(c, ctx):
    a, b = c["a"], c["b"]
    A, B = crs(a), crs(b)
    geo = lambda k: k in ("lonlat", "sph")
    ll = lambda k, q: q if k in ("cart", "sph") else to("lonlat", k, [q])[0]
    P = tuple(ll(a, c["p"])); V = [tuple(ll(b, v)) for v in c["v"]]
    z = c["zs"] if c["z"] else None
    pt = Point(P + ((z[-1],) if z else ()), crs=A)
    VV = [v + ((z[i],) if z else ()) for i, v in enumerate(V)]
    pts = [Point(v, crs=B) for v in VV]
    exp = []
    for i, v in enumerate(V):
        if geo(a) or not c["proj"] and a != "cart":
            d = G[a].inv(c["p"][0], c["p"][1], c["v"][i][0], c["v"][i][1])[2]
        else:
            w = v if a == b else to(b, a, [v])[0]
            d = math.hypot(P[0] - w[0], P[1] - w[1])
        exp.append(math.hypot(d, z[-1] - z[i]) if z else d)
    got = [pt.distance(q, **unless(True, projected=bool(c["proj"]))) for q in pts] if a != "cart" else [pt.distance(q) for q in pts]
    check(allclose(got, exp, 1e-8, 2e-3 if a != "cart" else 1e-9), "distances %r, expected %r", got, exp)
    if a == b:
        back = [q.distance(pt, **unless(True, projected=bool(c["proj"]))) for q in pts] if a != "cart" else [q.distance(pt) for q in pts]
        check(allclose(back, got, 1e-9, 1e-5), "distances are not symmetric: %r and %r", got, back)
    if c["type"] == "Polygon" and len(VV) < 3:
        raise Skip("few vertices")
    if c["proj"] or geo(a):
        g = T[c["type"]](VV, crs=B)
        ds = g.distances_to(pt)
        check(allclose(ds, exp, 1e-8, 2e-3 if a != "cart" else 1e-9), "distances_to %r, expected %r", list(ds), exp)
        k = int(g.nearest_vertex_to(pt))
        check(0 <= k < len(exp) and exp[k] <= min(exp) * (1 + 1e-8) + 2e-3, "nearest vertex %d of %r", k, exp)
        if a == b:
            fd = g.flat_distances_to(pt)
            ef = [math.sqrt(sum((x - y) ** 2 for x, y in zip(v, pt.vertex()))) for v in VV]
            check(allclose(fd, ef, 1e-9, 1e-9), "flat distances %r, expected %r", list(fd), ef)
    ctx.nontrivial(any(v[0] != P[0] and v[1] != P[1] for v in V))
    ctx.label("cross", a != b); ctx.label("z", bool(z)); ctx.label("geodetic", geo(a) or not c["proj"])


CHECKS = {"planar": planar, "geodetic": geodetic, "points": points}
