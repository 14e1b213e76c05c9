from fractions import Fraction
from harness.geo import *
from harness.oracles import *


def verdict(p, ring, holes):
    """True, False or None (not judged)"""
    on, w = winding(p, ring)
    eo = w % 2 == 1
    if on:
        r = True
    elif (w != 0) != eo:
        return None
    else:
        r = w != 0
    for h in holes:
        hon, hw = winding(p, h)
        if hon:
            return None
        if hw != 0:
            r = False
    return r


def wrap(lon, how):
    if how == "[0,360)":
        return lon % 360.0
    v = (lon + 180.0) % 360.0 - 180.0
    return 180.0 if v == -180.0 and how == "(-180,180]" else v


def judge(c, ctx, P, mk, pts, verd):
    inside = outside = 0
    for p, q in zip(pts, verd):
        if q is None:
            continue
        got = P.contains(mk(p))
        check(bool(got) == q, "contains(%r) is %r, expected %r", p, got, q)
        if q:
            inside += 1
        else:
            outside += 1
    return inside, outside


def boxed(ring, pts, verd):
    x = [v[0] for v in ring]; y = [v[1] for v in ring]
    return any(q is False and min(x) <= p[0] <= max(x) and min(y) <= p[1] <= max(y) for p, q in zip(pts, verd))


def planar(c, ctx):
    s, o = c["scale"], c["off"]
    f = lambda p: [float(p[0] * s + o[0]), float(p[1] * s + o[1])]
    F = lambda p: [Fraction(v) for v in f(p)]
    if c["crs"] != "cart" and (s > 1024 or s < 1):
        s = 1024
    K = crs(c["crs"])
    ring, holes, pts = [f(p) for p in c["ring"]], [[f(p) for p in h] for h in c["holes"]], [f(p) for p in c["pts"]]
    verd = [verdict(F(p), [F(v) for v in c["ring"]], [[F(v) for v in h] for h in c["holes"]]) for p in c["pts"]]
    z = (lambda v: v + [3.0]) if c["z"] else (lambda v: v)
    P = Polygon([z(v) for v in ring], subs=[Polygon([z(v) for v in h], crs=K) for h in holes], crs=K)
    a, b = judge(c, ctx, P, lambda p: Point(z(p), crs=K), pts, verd)
    for p, q in zip(pts, verd):
        if q is not None:
            check(Multipoint([tuple(p)], crs=K).any_within_poly(P) == q, "any_within_poly(%r) is not %r", p, q)
    sel = Multipoint([tuple(p) for p in pts], crs=K).within_polygon(P)
    got = sorted(verts(sel)) if len(sel) else []
    amb = set(tuple(p) for p, q in zip(pts, verd) if q is None)
    exp = sorted(tuple(p) for p, q in zip(pts, verd) if q)
    check([g for g in got if g not in amb] == [e for e in exp if e not in amb], "within_polygon selects %r, expected %r", got, exp)
    if c["pcrs"] and c["crs"] != "cart":
        # points in geographic coordinates; only those away from every edge
        e = Fraction(1, 16)
        for p, l, q in zip(pts, c["pts"], verd):
            if q is None or any(verdict([Fraction(l[0]) + u, Fraction(l[1]) + v], [[Fraction(t) for t in w] for w in c["ring"]], [[[Fraction(t) for t in w] for w in h] for h in c["holes"]]) is not q
                                for u, v in ((e, e), (-e, e), (e, -e), (-e, -e))):
                continue
            g = to(c["crs"], "lonlat", [p])[0]
            if not coords_close(to("lonlat", c["crs"], [g]), [p], s / 100.0) or abs(g[1]) > 85:
                continue
            check(P.contains(Point(tuple(g) + ((3.0,) if c["z"] else ()), crs=crs("lonlat"))) == q, "contains(%r), given as longitude %r and latitude %r, is not %r", p, g[0], g[1], q)
            ctx.label("other system", q)
    ctx.nontrivial(a and boxed(ring, pts, verd))
    ctx.label("holes", bool(holes)); ctx.label(c["crs"])


def dateline(c, ctx):
    k = c["k"]
    cap = lambda y: max(-88, min(88, y))
    F = lambda p: [Fraction(p[0]) * k + c["lon0"], Fraction(cap(p[1] + c["lat0"]))]
    K = crs(c["crs"])
    ring = [F(p) for p in c["ring"]]
    holes = [[F(p) for p in h] for h in c["holes"]]
    pts = [F(p) for p in c["pts"]]
    if any(abs(a[0] - b[0]) >= 180 for r in [ring] + holes for a, b in ring_segs(r)):
        raise Skip("edge longer than half a turn")
    verd = [verdict(p, ring, holes) for p in pts]
    o = lambda v, how: (wrap(float(v[0]), how), float(v[1]))
    P = Polygon([o(v, c["wrap"]) for v in ring], subs=[Polygon([o(v, c["wrap"]) for v in h], crs=K) for h in holes], crs=K)
    check(not P.ispolar(), "polygon %r is not polar", verts(P))
    a, b = judge(c, ctx, P, lambda p: Point(o(p, c["pwrap"]), crs=K), pts, verd)
    x = [v[0] for v in ring]
    ctx.nontrivial(a and boxed(ring, pts, verd))
    ctx.label("dateline", min(x) < 180 <= max(x) or min(x) < -180 <= max(x))


def polar(c, ctx):
    K = crs(c["crs"])
    if max(b - a for a, b in zip(c["lon"], c["lon"][1:] + [c["lon"][0] + 360])) > 150:
        raise Skip("long edge")
    s = -1.0 if c["south"] else 1.0
    gn = lambda lon, lat: (math.sin(math.radians(lon)) / math.tan(math.radians(lat)), math.cos(math.radians(lon)) / math.tan(math.radians(lat)))
    vs = [(wrap(a, "[-180,180)"), s * b) for a, b in zip(c["lon"], c["lat"])]
    if c["rev"]:
        vs = vs[::-1]
    ring = [gn(a, abs(b)) for a, b in vs]
    subs, hring = [], None
    if c["hole"]:
        hv = [(a, s * (90 - (90 - abs(b)) * c["hole"])) for a, b in vs]
        hring = [gn(a, abs(b)) for a, b in hv]
        subs = [Polygon(hv, crs=K)]
    P = Polygon(vs, subs=subs, crs=K)
    check(P.ispolar(), "a polygon around the pole is not polar: %r", vs)

    def dist(p, r):
        d = 1e9
        for a, b in ring_segs(r):
            L2 = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
            t = 0 if L2 == 0 else max(0, min(1, ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / L2))
            d = min(d, math.hypot(a[0] + t * (b[0] - a[0]) - p[0], a[1] + t * (b[1] - a[1]) - p[1]))
        return d
    ins = out = 0
    for lon, lat in c["pts"]:
        if lat * s <= 0.5:
            q = False
        else:
            p = gn(lon, abs(lat))
            tol = 0.02 * (1 + p[0] ** 2 + p[1] ** 2)
            if dist(p, ring) < tol or (hring and dist(p, hring) < tol):
                continue
            q = contains_exact(p, ring) and not (hring and contains_exact(p, hring))
        if c["pcrs"] and abs(lat) < 80:
            pt = Point(to("lonlat", "merc", [(lon, lat)])[0], crs=crs("merc"))
            if c["crs"] == "sph":
                pt = Point((lon, lat), crs=K)
        else:
            pt = Point((lon, lat), crs=K)
        got = P.contains(pt)
        check(bool(got) == bool(q), "contains(%r) is %r, expected %r (polygon %r)", (lon, lat), got, q, vs)
        ins += bool(q)
        out += (not q) and lat * s > 0
    ctx.nontrivial(ins and out)
    ctx.label("hole", bool(subs))


CHECKS = {"planar": planar, "dateline": dateline, "polar": polar}
