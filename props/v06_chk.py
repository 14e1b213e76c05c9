from fractions import Fraction
from harness.geo import *
from harness.oracles import *
from karta import geodesy
from karta.errors import NoIntersection


def segs(g):
    return ring_segs(g[1]) if g[0] == "poly" else line_segs(g[1])


def mk(g, K, z=False):
    v = [list(p) + [1.0 * i] for i, p in enumerate(g[1])] if z else g[1]
    return (Polygon if g[0] == "poly" else Line)(v, crs=K)


def meet(a, b, c, d):
    """exact meeting point of segments that are not parallel, or None"""
    rx, ry, sx, sy = b[0] - a[0], b[1] - a[1], d[0] - c[0], d[1] - c[1]
    den = rx * sy - ry * sx
    if den == 0:
        return None
    t = Fraction((c[0] - a[0]) * sy - (c[1] - a[1]) * sx, den)
    u = Fraction((c[0] - a[0]) * ry - (c[1] - a[1]) * rx, den)
    return (a[0] + t * rx, a[1] + t * ry) if 0 <= t <= 1 and 0 <= u <= 1 else None


def near(p, q, tol):
    return abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol


def planar(c, ctx):
    s, o = c["scale"], c["off"]
    K = crs(c["crs"])
    f = lambda p: [float(p[0] * s + o[0]), float(p[1] * s + o[1])]
    A, B = mk([c["a"][0], [f(p) for p in c["a"][1]]], K, c["z"]), mk([c["b"][0], [f(p) for p in c["b"][1]]], K, c["z"])
    sa, sb = segs(c["a"]), segs(c["b"])
    touch = any(seg_touch(p, q, u, v) for p, q in sa for u, v in sb)
    for X, Y, w in ((A, B, "a.intersects(b)"), (B, A, "b.intersects(a)")):
        check(bool(X.intersects(Y)) == touch, "%s is %r, expected %r", w, X.intersects(Y), touch)
    # points
    exp, overlap = set(), False
    for p, q in sa:
        for u, v in sb:
            m = meet(p, q, u, v)
            if m is not None:
                exp.add(m)
            elif seg_touch(p, q, u, v):
                overlap = True
    exp = [(float(x * Fraction(s) + o[0]), float(y * Fraction(s) + o[1])) for x, y in exp]
    tol = 1e-8 * (1 + max(abs(o[0]), abs(o[1]), s * 20))
    for X, Y in ((A, B), (B, A)):
        r1, r2 = X.intersections(Y), X.intersections(Y, keep_duplicates=True)
        check(type(r1) is Multipoint and r1.crs is K, "intersections are a %s", type(r1).__name__)
        g1, g2 = verts(r1) if len(r1) else [], verts(r2) if len(r2) else []
        check(len(set(g1)) == len(g1) and set(g1) == set(g2), "intersections without duplicates %r, with %r", g1, g2)
        for g in g1:
            check(any(near(g, e, tol) for e in exp), "%r is not an intersection (expected %r)", g, exp)
        if not overlap:
            for e in exp:
                check(any(near(g, e, tol) for g in g1), "intersection %r is missing from %r", e, g1)
    bb = lambda v: (min(p[0] for p in v), min(p[1] for p in v), max(p[0] for p in v), max(p[1] for p in v))
    x, y = bb(c["a"][1]), bb(c["b"][1])
    ctx.nontrivial(x[0] <= y[2] and y[0] <= x[2] and x[1] <= y[3] and y[1] <= x[3])
    ctx.label("touch", touch); ctx.label("overlap", overlap)


def cross(c, ctx):
    a, b = (c["a"][0], to("lonlat", c["ca"], c["a"][1])), (c["b"][0], to("lonlat", c["cb"], c["b"][1]))
    A, B = mk(a, crs(c["ca"])), mk(b, crs(c["cb"]))
    b2 = (b[0], to(c["cb"], c["ca"], b[1]))
    fr = lambda g: (g[0], [(Fraction(p[0]), Fraction(p[1])) for p in g[1]])
    sa, sb = segs(fr(a)), segs(fr(b2))
    exp, tol = [], 0.01
    for p, q in sa:
        for u, v in sb:
            for e, (w, z) in ((u, (p, q)), (v, (p, q)), (p, (u, v)), (q, (u, v))):
                L = math.hypot(z[0] - w[0], z[1] - w[1])
                if L == 0 or abs((z[0] - w[0]) * (e[1] - w[1]) - (z[1] - w[1]) * (e[0] - w[0])) / Fraction(L) < 1:
                    raise Skip("close to touching")
            m = meet(p, q, u, v)
            if m:
                exp.append((float(m[0]), float(m[1])))
    check(bool(A.intersects(B)) == bool(exp), "intersects is %r, expected %r", A.intersects(B), bool(exp))
    r = A.intersections(B)
    g = verts(r) if len(r) else []
    check(r.crs is A.crs, "intersections are not in the coordinate system of the first geometry")
    twin = any(near(exp[i], exp[j], 2 * tol) for i in range(len(exp)) for j in range(i))     # retraced segments: duplicates up to rounding
    check((twin or len(g) == len(exp)) and all(any(near(x, e, tol) for x in g) for e in exp) and all(any(near(x, e, tol) for e in exp) for x in g), "intersections %r, expected %r", g, exp)
    ctx.nontrivial(len(exp) > 0 and c["ca"] != c["cb"])


def vec(p):
    a, b = math.radians(p[0]), math.radians(p[1])
    return np.array([math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b)])


def gc(p, q, u, v):
    """(kind, point) of two great circle segments given as vectors: none, cross, share, skip"""
    n1, n2 = np.cross(p, q), np.cross(u, v)
    l1, l2 = np.linalg.norm(n1), np.linalg.norm(n2)
    if l1 < 1e-9 or l2 < 1e-9:
        return "skip", None
    n1, n2 = n1 / l1, n2 / l2
    sh = [w for w in (p, q) for z in (u, v) if np.array_equal(w, z)]
    x = np.cross(n1, n2)
    lx = np.linalg.norm(x)
    if lx < 1e-5:
        # nearly the same great circle
        return ("skip", None) if max(abs(n1.dot(u)), abs(n1.dot(v))) < 1e-5 else ("none", None)
    x = x / lx
    if len(sh):
        return "share", sh[0]
    for w in (x, -x):
        m = [np.cross(p, w).dot(n1), np.cross(w, q).dot(n1), np.cross(u, w).dot(n2), np.cross(w, v).dot(n2)]
        if min(m) > 1e-6:
            return "cross", w
        if min(m) > -1e-6:
            return "skip", None
    return "none", None


def sphere(c, ctx):
    K = crs(c["crs"])
    ga, gb = c["a"], [c["b"][0], [[(p[0] + c["disp"] + 180) % 360 - 180, p[1]] for p in c["b"][1]]]
    A, B = mk(ga, K), mk(gb, K)
    va, vb = [ga[0], [vec(p) for p in ga[1]]], [gb[0], [vec(p) for p in gb[1]]]
    # vertices that coincide are given by the same numbers
    res = []
    for (p, q), (lp, lq) in zip(segs(va), segs(ga)):
        for (u, v), (lu, lv) in zip(segs(vb), segs(gb)):
            if (lp == lu or lp == lv or lq == lu or lq == lv) != any(np.array_equal(w, z) for w in (p, q) for z in (u, v)):
                raise Skip("poles")
            k, x = gc(p, q, u, v)
            res.append((k, x, (lp, lq), (lu, lv)))
    if any(k == "skip" for k, _, _, _ in res):
        raise Skip("close to touching")
    exp = [x for k, x, _, _ in res if k != "none"]
    for X, Y in ((A, B), (B, A)):
        check(bool(X.intersects(Y)) == bool(exp), "intersects is %r, expected %r", X.intersects(Y), bool(exp))
        r = X.intersections(Y, keep_duplicates=True)
        g = [vec(p) for p in verts(r)] if len(r) else []
        for y in g:
            check(any(np.abs(y - e).max() < 1e-6 for e in exp), "%r is not an intersection", y)
        for e in exp:
            check(any(np.abs(y - e).max() < 1e-6 for y in g), "an intersection at %r is missing", e)
        check(len(X.intersections(Y)) <= len(r), "more intersections without duplicates than with")
    for k, x, s1, s2 in res:
        if k == "share":
            continue
        d1, d2 = [abs((s[1][0] - s[0][0] + 180) % 360 - 180) for s in (s1, s2)]
        if min(d1, d2) < 0.1 or max(d1, d2) > 170:
            continue     # meridians and half turns
        try:
            got = geodesy.intersection_spherical((tuple(s1[0]), tuple(s1[1])), (tuple(s2[0]), tuple(s2[1])))
        except NoIntersection:
            got = None
        check((got is not None) == (k == "cross"), "intersection_spherical(%r, %r) is %r, expected %s", s1, s2, got, k)
        if got is not None:
            check(np.abs(vec(got) - x).max() < 1e-6, "intersection_spherical(%r, %r) is %r", s1, s2, got)
    ctx.nontrivial(bool(exp))
    ctx.label("shared", any(k == "share" for k, _, _, _ in res)); ctx.label("crossing", bool(exp))


CHECKS = {"planar": planar, "cross": cross, "sphere": sphere}
