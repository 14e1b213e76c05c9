from harness.geo import *
from props.v08_chk import G, norm


def counts(L, dx, tol):
    """possible numbers of points"""
    return range(int(math.floor((L - tol) / dx)) + 1, int(math.floor((L + tol) / dx)) + 2)


def judge(g, K, V, seg, at, dist, c, tol, ctx, drift=0.0):
    """at(i, d): position at distance d on segment i"""
    cum = [0.0]
    for d in seg:
        cum.append(cum[-1] + d)
    L = cum[-1]
    def pos(s):
        i = 0
        while i < len(seg) - 1 and (s > cum[i + 1] or seg[i] == 0):
            i += 1
        return at(i, min(max(s - cum[i], 0.0), seg[i]))
    n = c["n"]
    q = g.to_npoints(n)
    check(type(q) is Multipoint and q.crs is K, "to_npoints returned %r", q)
    P = verts(q)
    check(len(P) == n, "%r points, expected %r", len(P), n)
    for k, p in enumerate(P):
        e = pos(k * L / (n - 1))
        check(dist(p, e) <= tol, "point %r of %r is %r, expected %r on the line %r", k, n, p, e, V)
    check(P[0] == V[0] and P[-1] == V[-1], "ends %r, %r of the line %r", P[0], P[-1], V)
    m = 0
    if L > 0:
        dx = c["f"] * L
        q = g.to_points(dx)
        check(type(q) is Multipoint and q.crs is K, "to_points returned %r", q)
        P = verts(q)
        m = len(P)
        check(P[0] == V[0], "first of the points %r on the line %r", P[0], V)
        for a, b in zip(P[:-1], P[1:]):
            d = dist(a, b)
            check(d <= dx * (1 + 1e-6) + tol + drift, "points %r and %r are %r apart, spacing %r on the line %r", a, b, d, dx, V)
            check(len(V) > 2 or abs(d - dx) <= 1e-6 * dx + tol, "points %r and %r are %r apart, spacing %r on the line %r", a, b, d, dx, V)
        if drift > 0.1 * dx:
            # known finding: points leave long geodesics
            ctx.label("long")
            check(abs(m - 1 - L / dx) <= 1 + 2 * drift / dx, "%r points at spacing %r on a line of length %r: %r", m, dx, L, V)
            P = []
        check(m in counts(L, dx, tol + drift) or not P, "%r points at spacing %r on a line of length %r: %r", m, dx, L, V)
        for k, p in enumerate(P):
            e = pos(k * dx)
            check(dist(p, e) <= tol + drift, "point %r at spacing %r is %r, expected %r on the line %r", k, dx, p, e, V)
    check(verts(g) == V, "the line was changed")
    ctx.nontrivial(len([d for d in seg if d > 0]) >= 2 and max(n, m) >= 3)


def planar(c, ctx):
    s, o = c["scale"], c["off"]
    V = [(v[0] * s + o[0], v[1] * s + o[1]) for v in c["v"]]
    K = crs(c["crs"])
    g = Line(V, crs=K)
    seg = [math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(V[:-1], V[1:])]
    def at(i, d):
        a, b = V[i], V[i + 1]
        t = d / seg[i] if seg[i] else 0.0
        return (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
    big = abs(s) * 20 + abs(o[0]) + abs(o[1])
    judge(g, K, V, seg, at, lambda p, e: math.hypot(p[0] - e[0], p[1] - e[1]), c, 1e-8 * s + 1e-12 * big, ctx)
    ctx.label("repeated", 0.0 in seg)


def geodetic(c, ctx):
    K = crs(c["crs"]); geod = G[c["crs"]]
    V = [(float(c["c"][0]), float(c["c"][1]))]
    for az, r in c["hops"]:
        x, y, _ = geod.fwd(V[-1][0], V[-1][1], az, c["s"] * r * 111000.0)
        V.append((norm(round(x, 9)), round(y, 9)))
        if c["dup"]:
            V.append(V[-1])
    if any(abs(v[1]) > 89.5 for v in V):
        raise Skip("near a pole")
    g = Line(V, crs=K)
    inv = [geod.inv(*(a + b)) for a, b in zip(V[:-1], V[1:])]
    seg = [d if a != b else 0.0 for (_, _, d), a, b in zip(inv, V[:-1], V[1:])]
    if max(seg) > 1.5e7:
        raise Skip("long")
    # to_points keeps the azimuth of the first vertex of a segment
    drift = sum(d * d * math.tan(math.radians(min(89.9, max(abs(a[1]), abs(b[1])) + d / 111000.0))) / 6.3e6 for d, a, b in zip(seg, V[:-1], V[1:]))
    def at(i, d):
        x, y, _ = geod.fwd(V[i][0], V[i][1], inv[i][0], d)
        return (x, y)
    judge(g, K, V, seg, at, lambda p, e: geod.inv(p[0], p[1], e[0], e[1])[2], c, 1e-3 + 1e-7 * sum(seg), ctx, 0.0 if c.get("strict") else drift)
    ctx.label("hop %g" % c["s"]); ctx.label("dateline", any(abs(a[0] - b[0]) > 180 for a, b in zip(V[:-1], V[1:])))


CHECKS = {"planar": planar, "geodetic": geodetic}
