from fractions import Fraction
from harness.geo import *
from harness.oracles import orient, on_seg
import pyproj
T = {"Multipoint": Multipoint, "Line": Line, "Polygon": Polygon}


def exact_hull(pts):
    P = sorted(set(pts))
    if len(P) < 3:
        return P
    def half(Q):
        h = []
        for p in Q:
            while len(h) > 1 and orient(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h
    a, b = half(P), half(P[::-1])
    return a[:-1] + b[:-1]


def planar(c, ctx):
    s, o = c["scale"], c["off"]
    pts = [(p[0] * s + o[0], p[1] * s + o[1]) for p in c["pts"]]
    K = crs(c["crs"])
    z = {p: float(i) for i, p in enumerate(pts)}
    g = T[c["type"]]([p + (z[p],) if c["z"] else p for p in pts], crs=K)
    before = verts(g)
    h = g.convex_hull()
    check(type(h) is Polygon and h.crs is K, "hull is a %s", type(h).__name__)
    check(verts(g) == before, "convex_hull changed the geometry")
    hv = verts(h)
    if c["z"]:
        check(all(v[:2] in z and v[2] == float(z[v[:2]]) for v in hv), "hull vertices %r are not vertices of the geometry", hv)
    hv = [v[:2] for v in hv]
    F = lambda p: (Fraction(p[0]), Fraction(p[1]))
    exp = exact_hull([F(p) for p in pts])
    fh = [F(p) for p in hv]
    check(set(hv) <= set((float(a), float(b)) for a, b in pts), "hull vertices %r are not vertices of the geometry", hv)
    check(len(set(hv)) == len(hv), "hull repeats a vertex: %r", hv)
    check(set(exp) <= set(fh), "hull %r lacks corners %r", hv, [(float(a), float(b)) for a, b in set(exp) - set(fh)])
    n = len(exp)
    if n >= 3:
        # the other vertices are on the hull's edges, and all are in order
        for p in set(fh) - set(exp):
            check(any(on_seg(p, exp[i - 1], exp[i]) for i in range(n)), "hull vertex %r is inside", (float(p[0]), float(p[1])))
        ts = [orient(fh[i - 2], fh[i - 1], fh[i]) for i in range(len(fh))]
        check(min(ts) >= 0 or max(ts) <= 0, "hull %r is not convex", hv)
        core = [p for p in fh if p in set(exp)]
        k = core.index(exp[0])
        core = core[k:] + core[:k]
        check(core == exp or core == [exp[0]] + exp[:0:-1], "hull %r is out of order", hv)
    ctx.nontrivial(n >= 3 and len(set(pts)) > n)
    ctx.label("degenerate", n < 3); ctx.label("dup", len(set(pts)) < len(pts))


def sphere(c, ctx):
    lon0, lat0 = c["c"]
    K = crs(c["crs"])
    geod = pyproj.Geod(a=6370997.0, f=0)
    pts = []
    for az, r in c["pts"]:
        lon, lat, _ = geod.fwd(lon0, lat0, az, math.radians(c["w"] * r) * 6370997.0)
        pts.append(((round(lon, 7) + 180) % 360 - 180, round(lat, 7)))
    if c["dup"]:
        pts.append(pts[0])
    V = []
    for lon, lat in pts:
        a, b = math.radians(lon), math.radians(lat)
        V.append(np.array([math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b)]))
    V = np.array(V)
    flat = np.linalg.svd(V)[1][-1] < 1e-5 * math.radians(c["w"]) + 1e-8     # nearly on one great circle
    g = T[c["type"]](pts, crs=K)
    h = g.convex_hull()
    check(type(h) is Polygon and h.crs is K, "hull is a %s", type(h).__name__)
    hv = verts(h)
    check(set(hv) <= set(pts), "hull vertices %r are not vertices of the geometry", hv)
    check(len(set(hv)) == len(hv), "hull repeats a vertex")
    scale = math.radians(c["w"])
    if flat:
        ctx.label("flat")
    elif len(hv) >= 3:
        W = [V[pts.index(v)] for v in hv]
        N = []
        tol = 1e-7 * scale + 1e-14
        for i in range(len(W)):
            n = np.cross(W[i - 1], W[i])
            if np.linalg.norm(n) < 1e-9 * scale:
                raise Skip("vertices too close")
            N.append(n / np.linalg.norm(n))
            tol = max(tol, 1e-15 / np.linalg.norm(n))      # rounding of the cross product
        D = np.array([V.dot(n) for n in N])
        sgn = 1 if D.sum() > 0 else -1
        check((D * sgn).min() > -tol, "a vertex is outside of the hull %r of %r", hv, pts)
        # a convex ring that goes around once: every pair of edges' vertices seen in angular order from the centre
        cen = sum(W) / np.linalg.norm(sum(W))
        e = np.cross([0, 0, 1.0], cen)
        e = np.array([0, 1.0, 0]) if np.linalg.norm(e) < 1e-9 else e / np.linalg.norm(e)
        nn = np.cross(cen, e)
        ang = [math.atan2(w.dot(nn), w.dot(e)) for w in W]
        turn = sum((ang[i] - ang[i - 1] + math.pi) % (2 * math.pi) - math.pi for i in range(len(ang)))
        check(abs(abs(turn) - 2 * math.pi) < 1e-3, "hull goes around %.2f times", turn / 2 / math.pi)
    else:
        fail("hull of %r has only %d vertices", pts, len(hv))
    ctx.nontrivial(not flat and len(hv) >= 3 and len(set(pts)) > len(hv))
    ctx.label("pole", abs(lat0) + c["w"] > 90); ctx.label("dateline", abs(lon0) == 180)


CHECKS = {"planar": planar, "sphere": sphere}
