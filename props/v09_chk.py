from fractions import Fraction
from harness.geo import *
from props.v08_chk import G, norm


def shoelace(R):
    """exact signed area (positive counterclockwise) and first moments"""
    A = cx = cy = Fraction(0)
    for i in range(len(R)):
        (x0, y0), (x1, y1) = R[i - 1], R[i]
        c = x0 * y1 - x1 * y0
        A += c; cx += (x0 + x1) * c; cy += (y0 + y1) * c
    A /= 2
    return (A, cx / (6 * A), cy / (6 * A)) if A else (A, None, None)


def planar(c, ctx):
    s, o = c["scale"], c["off"]
    P = lambda R: [(v[0] * s + o[0], v[1] * s + o[1]) for v in R]
    F = lambda R: [(Fraction(x), Fraction(y)) for x, y in R]
    K = crs(c["crs"])
    Z = lambda R: [v + (i * 11.0,) for i, v in enumerate(R)] if c["z"] else R
    V = P(c["v"])
    seglen = lambda R: [math.hypot(float(Fraction(b[0]) - Fraction(a[0])), float(Fraction(b[1]) - Fraction(a[1]))) for a, b in zip(R[:-1], R[1:])]
    big = abs(s) * 20 + abs(o[0]) + abs(o[1])
    if c["kind"] == "line":
        g = Line(Z(V), crs=K)
        L = seglen(V)
        check(close(g.length, sum(L), 1e-9, 1e-9 * s), "length %r, expected %r", g.length, sum(L))
        if not c["z"]:
            check(allclose(g.cumulength(), [sum(L[:i]) for i in range(len(V))], 1e-9, 1e-9 * s), "cumulative length %r of segments %r", g.cumulength(), L)
            e = math.hypot(V[-1][0] - V[0][0], V[-1][1] - V[0][1])
            check(close(g.displacement(), e, 1e-9, 1e-9 * s), "displacement %r, expected %r", g.displacement(), e)
        check(close(Line(Z(V[::-1]), crs=K).length, sum(L), 1e-9, 1e-9 * s), "length of the reversed line differs")
        ctx.nontrivial(len(set(V)) >= 3)
        return
    H = [P(h) for h in c["holes"]]
    g = Polygon(Z(V), crs=K, subs=[Polygon(Z(h), crs=K) for h in H])
    A, cx, cy = shoelace(F(V))
    AH = sum(abs(shoelace(F(h))[0]) for h in H)
    tol = 1e-9 * (float(abs(A)) + s * s) + 1e-15 * big * s * 40
    check(abs(g.area - float(abs(A) - AH)) <= tol, "area %r, expected %r", g.area, float(abs(A) - AH))
    p = sum(sum(seglen(R + R[:1])) for R in [V] + H)
    check(close(g.perimeter, p, 1e-9, 1e-9 * s), "perimeter %r, expected %r", g.perimeter, p)
    W = V[::-1] if c["rev"] else V
    k = c["k"] % len(W)
    W = W[k:] + W[:k]
    h = Polygon(W, crs=K)
    check(abs(h.area - float(abs(A))) <= tol, "area %r of the ring from another vertex, expected %r", h.area, float(abs(A)))
    if abs(A) > 1e-12 * big * big + 0.4 * s * s:
        check(bool(g.isclockwise()) == (A < 0), "isclockwise is %r, signed area %r", g.isclockwise(), float(A))
        check(bool(h.isclockwise()) == ((A < 0) != c["rev"]), "isclockwise of the %s ring is %r", "reversed" if c["rev"] else "rotated", h.isclockwise())
        for q in (g.centroid, h.centroid):
            check(type(q) is Point and q.crs is K, "centroid is %r", q)
            t = 1e-7 * s * max(1, 400 * s * s / float(abs(A))) + 1e-13 * big
            check(abs(q.x - float(cx)) <= t and abs(q.y - float(cy)) <= t, "centroid %r, expected %r", q.vertex(), (float(cx), float(cy)))
    ctx.nontrivial(len(set(V)) >= 4 or bool(H))
    ctx.label("holes", bool(H)); ctx.label("zero", A == 0); ctx.label("clockwise", A < 0)


def geodetic(c, ctx):
    K = crs(c["crs"]); geod = G[c["crs"]]
    lon0, lat0 = c["c"]
    at = lambda az, r: (lambda q: (norm(round(q[0], 9)), round(q[1], 9)))(geod.fwd(lon0, lat0, az, c["w"] * r * 111000.0))
    az = c["az"]
    R = [at(a, r) for a, r in zip(az, c["r"])]
    lon = (lambda x: x % 360) if c["wrap"] else (lambda x: x)
    Z = lambda ring: [(lon(x), y) + ((500.0 * i,) if c["z"] else ()) for i, (x, y) in enumerate(ring)]
    if c["rev"]:
        R = R[::-1]
    R = R[c["k"]:] + R[:c["k"]]
    per = lambda ring: sum(geod.inv(*(ring[i - 1] + ring[i]))[2] for i in range(len(ring)))
    if c["kind"] == "line":
        g = Line(Z(R), crs=K)
        D = [geod.inv(*(a + b))[2] for a, b in zip(R[:-1], R[1:])]
        check(close(g.length, sum(D), 1e-8, 1e-3), "length %r, expected %r", g.length, sum(D))
        if not c["z"]:
            check(allclose(g.cumulength(), [sum(D[:i]) for i in range(len(R))], 1e-8, 1e-3), "cumulative length %r of segments %r", g.cumulength(), D)
            e = geod.inv(*(R[0] + R[-1]))[2]
            check(close(g.displacement(), e, 1e-8, 1e-3), "displacement %r, expected %r", g.displacement(), e)
        ctx.nontrivial(len(R) >= 3)
        return
    gaps = [(az[i] - az[i - 1]) % 360 for i in range(len(az))]
    if max(gaps) > 170:
        # the centre is not inside: still a simple polygon, unless it is a sliver
        ctx.label("off-centre")
    if any(abs(abs(norm(R[i][0] - R[i - 1][0])) - 180) < 1e-6 for i in range(len(R))):
        raise Skip("edge over the pole")
    A, P = geod.polygon_area_perimeter([v[0] for v in R], [v[1] for v in R])
    A = abs(A)
    tot = 4 * math.pi * 6371000.0 ** 2
    A = min(A, tot - A)
    if A < 1e6:
        raise Skip("sliver")
    subs, AH, PH = [], 0.0, 0.0
    if c["hole"]:
        h = [at(a, r * c["hole"]) for a, r in zip(az, c["r"])]
        subs = [Polygon(Z(h), crs=K)]
        AH, PH = geod.polygon_area_perimeter([v[0] for v in h], [v[1] for v in h])
        AH = abs(AH)
        if AH < 1e6:
            raise Skip("sliver")
    g = Polygon(Z(R), crs=K, subs=subs)
    tol = 1e-6 * A + (300.0 if c["crs"] == "lonlat" else 1.0)
    polar = abs(lat0) + c["w"] * 0.5 > 88
    check(abs(g.area - (A - AH)) <= tol, "area %r, expected %r", g.area, A - AH)
    check(close(g.perimeter, P + PH, 1e-8, 1e-2), "perimeter %r, expected %r", g.perimeter, P + PH)
    ctx.nontrivial(len(R) >= 4 or bool(subs))
    ctx.label("polar", polar); ctx.label("dateline", abs(lon0) > 175); ctx.label("hole", bool(subs))


def box(c, ctx):
    """between meridians, reaching to the poles or the equator"""
    K = crs(c["crs"]); geod = G[c["crs"]]
    s, n = c["lat"]
    x = [c["lon"]]
    for d in c["steps"]:
        if x[-1] + d - x[0] <= 300:
            x.append(x[-1] + d)
    if (math.sin(math.radians(n)) - math.sin(math.radians(s))) / 2 * (x[-1] - x[0]) / 360 > 0.45:
        raise Skip("hemisphere")
    R = [(v, s) for v in x] + ([(x[-1], 0.5 * (s + n))] if c["mid"] else []) + [(v, n) for v in x[::-1]]
    if c["rev"]:
        R = R[::-1]
    k = c["k"] % len(R)
    R = R[k:] + R[:k]
    V = [(v % 360 if c["wrap"] else norm(v), y) for v, y in R]
    A, P = geod.polygon_area_perimeter([v[0] for v in R], [v[1] for v in R])
    A = abs(A)
    g = Polygon(V, crs=K)
    check(abs(g.area - A) <= 1e-9 * A + 1000, "area %r of %r, expected %r", g.area, V, A)
    check(close(g.perimeter, P, 1e-8, 1e-2), "perimeter %r, expected %r", g.perimeter, P)
    ctx.nontrivial(True); ctx.label("pole", 90 in (n, -s)); ctx.label("equator", 0 in (n, s)); ctx.label("wide", x[-1] - x[0] > 180)


def pair(c, ctx):
    k = c["crs"]; K = crs(k)
    ll = k in ("lonlat", "sph")
    raw = ll or k == "cart"
    z = ((5.0,) if c["z"] else ())
    a = c["a"] if raw else to("lonlat", k, [c["a"]])[0]
    b = c["b"] if raw else to("lonlat", k, [c["b"]])[0]
    other = not raw and c["b_crs"] == "lonlat"
    A = Point(tuple(a) + z, properties={"n": 1}, crs=K)
    B = Point(tuple(c["b"]), crs=crs("lonlat")) if other else Point(tuple(b) + z, crs=K)
    pr = c["proj"] or k == "cart"
    geo = ll or not pr
    if geo:
        geod = G[k]
        e, back, d = geod.inv(c["a"][0], c["a"][1], c["b"][0], c["b"][1])
        ok = d > 1 and d < 1.9e7 and max(abs(c["a"][1]), abs(c["b"][1])) < 89.5
        got = A.azimuth(B, **unless(True, projected=pr))
        if ok:
            check(ang_close(got, e, 1e-4 + 0.001 / d * 57), "azimuth %r, expected %r", got, e)
    else:
        dx, dy = b[0] - a[0], b[1] - a[1]
        d = math.hypot(dx, dy)
        got = A.azimuth(B, **unless(True, projected=pr))
        if d > (0.01 if other else 0):
            e = math.degrees(math.atan2(dx, dy))
            check(ang_close(got, e, 1e-9 + (1e-5 / d * 57 if other else 0)), "azimuth %r, expected %r", got, e)
            check(-180 <= got <= 180, "azimuth %r", got)
    if d == 0 and not other:
        check(math.isnan(got), "azimuth of coincident points is %r", got)
    W = A.walk(c["d"], c["az"], **unless(True, projected=pr))
    check(type(W) is Point and W.crs is K and W.properties == {"n": 1}, "walk returned %r", W)
    w = W.vertex()
    if geo:
        x, y, _ = G[k].fwd(c["a"][0], c["a"][1], c["az"], c["d"])
        u = (w[0], w[1]) if ll else to(k, "lonlat", [w[:2]])[0]
        off = G[k].inv(x, y, u[0], u[1])[2]
        check(off < 0.02, "walk ends %r m from %r, at %r", off, (x, y), u)
    else:
        e = (a[0] + c["d"] * math.sin(math.radians(c["az"])), a[1] + c["d"] * math.cos(math.radians(c["az"])))
        t = 1e-9 * (c["d"] + abs(a[0]) + abs(a[1]) + 1)
        check(abs(w[0] - e[0]) <= t and abs(w[1] - e[1]) <= t, "walk ends at %r, expected %r", w, e)
    ctx.nontrivial(c["a"][0] != c["b"][0] and c["a"][1] != c["b"][1])
    ctx.label("geodetic", geo); ctx.label("other crs", other)


CHECKS = {"box": box, "planar": planar, "geodetic": geodetic, "pair": pair}
