import itertools
from harness.geo import *
from karta.vector.geometry import affine_matrix
from karta.errors import CRSError

PLACE = {"cart": (1.0, 0.0, 0.0), "utm": (1000.0, 500000.0, 4500000.0), "lonlat": (0.125, -110.0, 45.0), "sph": (0.125, 20.0, -30.0), "merc": (1000.0, -12300000.0, 5600000.0)}
T = {"Line": Line, "Polygon": Polygon, "Multipoint": Multipoint, "Multiline": Multiline, "Multipolygon": Multipolygon}


def vlist(v, k, z, n=0):
    s, x, y = PLACE[k]
    return [(p[0] * s + x, p[1] * s + y) + ((float((n + i) * 7 % 50),) if z else ()) for i, p in enumerate(v)]


def vv(a):
    return [tuple(float(x) for x in p) for p in a]


def close_to(a, b, tol):
    return len(a) == len(b) and all(len(p) == len(q) and all(abs(x - y) <= tol for x, y in zip(p, q)) for p, q in zip(a, b))


def rotations(pairs):
    return [pairs[i:] + pairs[:i] for i in range(len(pairs))]


def make(kind, V, inp, **kw):
    if inp == "tuple":
        V = tuple(V)
    elif inp == "array":
        V = np.array(V)
    elif inp == "iter" and kind != "Multipoint":
        V = iter(V)
    elif inp == "points":
        V = [Point(v, crs=kw["crs"]) for v in V]
    return T[kind](V, **kw)


def views(c, ctx):
    kind, k = c["kind"], c["crs"]
    K = crs(k)
    V = vlist(c["v"], k, c["z"])
    if c["close"]:
        V.append(V[0])
    holes = [vlist(h, k, c["z"] and c["hole_z"], 50) for h in c["holes"]]
    kw = {"properties": dict(c["props"]), "crs": K}
    rows = None
    if kind == "Polygon":
        kw["subs"] = [Polygon(h, crs=K) for h in holes]
    if kind == "Multipoint" and c["data"]:
        rows = list(range(10, 10 + len(V)))
        kw["data"] = {"id": list(rows)}
    g = make(kind, V, c["input"], **kw)
    n = len(V)
    rank = 3 if c["z"] else 2

    def whole(g, V, what):
        n = len(V)
        check(len(g) == n, "%s: length %r, expected %d", what, len(g), n)
        check(vv(g.vertices()) == V, "%s: vertices %r, expected %r", what, g.vertices(), V)
        check(vv(g.vertices(drop_z=True)) == [v[:2] for v in V], "%s: vertices without z %r", what, g.vertices(drop_z=True))
        x, y = g.coords()
        check(list(x) == [v[0] for v in V] and list(y) == [v[1] for v in V], "%s: coordinates %r", what, (x, y))
        for i in range(-n, n):
            p = g[i]
            check(type(p) is Point and tuple(p.vertex()) == V[i], "%s: vertex %d is %r, expected %r", what, i, p.vertex(), V[i])
            check(p.crs is K, "%s: coordinate system of vertex %d", what, i)
        its = [tuple(p.vertex()) for p in g]
        check(its == V, "%s: iteration gives %r, expected %r", what, its, V)
        check([tuple(p.vertex()) for p in g] == its, "%s: second iteration differs", what)
        if kind != "Multipoint":
            exp = list(zip(V[:-1], V[1:])) + ([(V[-1], V[0])] if kind == "Polygon" else [])
            for nm, got in (("segments", [(vv(s.vertices()), s) for s in g.segments]), ("segment tuples", [([tuple(a), tuple(b)], None) for a, b in g.segment_tuples])):
                pairs = [(a[0], a[1]) for a, s in got]
                check(pairs == exp if kind == "Line" else pairs in rotations(exp), "%s: %s are %r, expected %r", what, nm, pairs, exp)
                check(all(type(s) is Line and len(a) == 2 and s.crs is K and s.properties == g.properties for a, s in got if s is not None), "%s: segments are %r", what, got)

    whole(g, V, "new " + kind)
    if kind == "Multipoint":
        for i in range(-n, n):
            p = dict(c["props"])
            if rows:
                p["id"] = rows[i]
            check(g[i].properties == p, "attributes of point %d are %r, expected %r", i, g[i].properties, p)
    else:
        check(g[0].properties == c["props"] and g.properties == c["props"], "properties are %r, expected %r", g.properties, c["props"])
    for a, b, s in c["slices"]:
        sl = slice(a, b, s)
        W = V[sl]
        if not W:
            continue
        h = g[sl]
        want = "Line" if kind == "Polygon" and len(W) != n else kind
        check(type(h).__name__ == want, "%s[%r] is a %s, expected a %s", kind, sl, type(h).__name__, want)
        check(vv(h.vertices()) == W, "%s[%r] has vertices %r, expected %r", kind, sl, h.vertices(), W)
        check(h.crs is K and h.properties == c["props"], "%s[%r] has properties %r", kind, sl, h.properties)
        if rows:
            check(list(h.d["id"]) == rows[sl], "%s[%r] has data %r, expected %r", kind, sl, list(h.d["id"]), rows[sl])
    check(vv(g.vertices()) == V, "slicing changed the geometry")
    if kind == "Polygon":
        ring = vv(g.vertices_ring)
        exp = V if V[0] == V[-1] else V + V[:1]
        check(ring == exp, "ring is %r, expected %r", ring, exp)
        l = g.to_line()
        check(type(l) is Line and vv(l.vertices()) == exp and l.crs is K and l.properties == c["props"], "as a line: %r, expected %r", l.vertices(), exp)
        check(l[0].vertex() == l[-1].vertex(), "as a line it is not closed")
        check([vv(s.vertices()) for s in g.subs] == holes, "holes %r, expected %r", [vv(s.vertices()) for s in g.subs], holes)
    if kind == "Line" and n > 2:
        p = g.to_polygon()
        check(type(p) is Polygon and vv(p.vertices()) == V and p.crs is K and p.properties == c["props"], "as a polygon: %r, expected %r", p.vertices(), V)
        segs = [tuple(vv(s.vertices())) for s in p.segments]
        check(segs in rotations(list(zip(V, V[1:] + V[:1]))), "segments of the line as a polygon: %r", segs)
        check(len(list(g.segments)) == n - 1, "the line became a ring")
    # joining
    for j, m in enumerate(c["more"]):
        k2 = k if m["crs"] == "same" or k in ("cart", "sph") else m["crs"]
        W = vlist(m["v"], k2, c["z"], 20 + j)
        H = [vlist(h, k2, c["z"], 70) for h in m["holes"]]
        okw = {"crs": crs(k2), "properties": {"other": 1}}
        if kind == "Polygon":
            okw["subs"] = [Polygon(h, crs=crs(k2)) for h in H]
        o = T[kind](W, **okw)
        E = to(k2, k, W) if k2 != k else W
        tol = 0 if k2 == k else 1e-6
        if kind in ("Line", "Polygon"):
            if kind == "Polygon" and c["z"] and holes and not c["hole_z"]:
                continue
            s = g + o
            check(type(s) is (Multiline if kind == "Line" else Multipolygon) and s.crs is K and len(s) == 2, "sum is %r", s)
            check(close_to(vv(s[0].vertices()), V, 0) and close_to(vv(s[1].vertices()), E, tol), "parts of the sum are %r, expected %r", [vv(p.vertices()) for p in s], [V, E])
            if kind == "Polygon":
                EH = [to(k2, k, h) if k2 != k else h for h in H]
                got = [[vv(q.vertices()) for q in p.subs] for p in s]
                check(len(got[0]) == len(holes) and all(close_to(a, b, 0) for a, b in zip(got[0], holes)) and len(got[1]) == len(EH) and all(close_to(a, b, tol) for a, b in zip(got[1], EH)),
                      "holes of the sum are %r, expected %r", got, [holes, EH])
            check(vv(g.vertices()) == V and vv(o.vertices()) == W, "adding changed a geometry")
        elif len(g) and len(o):
            s = g[0] + o[0]
            check(type(s) is Multipoint and s.crs is K and close_to(vv(s.vertices()), [V[0], E[0]], tol), "sum of points is %r, expected %r", s.vertices(), [V[0], E[0]])
        if kind == "Line":
            if c["ask"]:
                g.bbox(), g.length, g.extent()
            r = g.extend(o)
            check(r is g, "extend did not return the line")
            V = V + [tuple(p) for p in E]
            check(close_to(vv(g.vertices()), V, tol), "extended line %r, expected %r", g.vertices(), V)
            V = vv(g.vertices())
            whole(g, V, "extended line")
            f = Line(V, crs=K)
            check(g.bbox() == f.bbox() and g.length == f.length and g.extent() == f.extent() and g.cumulength() == f.cumulength(), "bbox, length or extent after extend: %r, expected %r", (g.bbox(), g.length), (f.bbox(), f.length))
            check(vv(o.vertices()) == W, "extend changed the other line")
            check(g.properties == c["props"], "extend changed the properties to %r", g.properties)
            other = Line([v[:2] if c["z"] else v + (1.0,) for v in V], crs=K)
            if not raises((ValueError, TypeError), lambda: g.extend(other)):
                fail("extending by a line of other rank succeeded")
            if not raises((ValueError, TypeError, AttributeError), lambda: g.extend(Multipoint(W, crs=crs(k2)))):
                fail("extending by points succeeded")
            whole(g, V, "line after refused extensions")
    ctx.nontrivial(len(set(V)) >= 3)
    ctx.label(kind); ctx.label("z", c["z"]); ctx.label(c["input"])


def multi(c, ctx):
    kind, k = c["kind"], c["crs"]
    K = crs(k)
    V = [[vlist(r, k, c["z"], 9 * i) for r in part] for i, part in enumerate(c["v"])]
    if c["close"] and kind == "Multipolygon":
        V[0][0].append(V[0][0][0])
    n = len(V)
    ids = list(range(5, 5 + n))
    g = T[kind]([p[0] for p in V] if kind == "Multiline" else V, data={"id": list(ids)} if c["data"] else None, properties=dict(c["props"]), crs=K)

    def look(h, V, ids, what):
        check(type(h) is T[kind] and len(h) == len(V) and h.crs is K and h.properties == c["props"], "%s: %r parts, expected %d", what, len(h), len(V))
        ve = h.vertices()
        got = [[vv(p)] for p in ve] if kind == "Multiline" else [[vv(r) for r in p] for p in ve]
        check(got == V, "%s: vertices %r, expected %r", what, got, V)
        co = h.coords()
        got = [[vv(np.asarray(p).T)] for p in co] if kind == "Multiline" else [[vv(np.asarray(r).T) for r in p] for p in co]
        check(got == V, "%s: coordinates %r, expected %r", what, co, V)
        for i in range(-len(V), len(V)):
            p = h[i]
            w = dict(c["props"])
            if c["data"]:
                w["id"] = ids[i]
            check(type(p) is (Line if kind == "Multiline" else Polygon) and p.crs is K and p.properties == w, "%s: part %d has properties %r, expected %r", what, i, p.properties, w)
            got = [vv(p.vertices())] + [vv(s.vertices()) for s in getattr(p, "subs", [])]
            check(got == V[i], "%s: part %d is %r, expected %r", what, i, got, V[i])
            e = V[i][0]
            segs = [tuple(vv(s.vertices())) for s in p.segments]
            exp = list(zip(e[:-1], e[1:])) + ([(e[-1], e[0])] if kind == "Multipolygon" else [])
            check(segs == exp if kind == "Multiline" else segs in rotations(exp), "%s: segments of part %d are %r, expected %r", what, i, segs, exp)
        check([vv(p.vertices()) for p in h] == [p[0] for p in V], "%s: iteration gives other parts", what)
        if kind == "Multipolygon":
            rings = [[vv(r) for r in p] for p in h.vertices_ring]
            exp = [[r if r[0] == r[-1] else r + r[:1] for r in p] for p in V]
            check(rings == exp, "%s: rings %r, expected %r", what, rings, exp)
        if c["data"]:
            check(list(h.d["id"]) == ids, "%s: data %r, expected %r", what, list(h.d["id"]), ids)
    look(g, V, ids, "new " + kind)
    for a, b, s in c["slices"]:
        sl = slice(a, b, s)
        if V[sl]:
            look(g[sl], V[sl], ids[sl], "%s[%r]" % (kind, sl))
    look(g, V, ids, kind + " after slicing")
    ctx.nontrivial(n > 1)
    ctx.label(kind); ctx.label("holes", any(len(p) > 1 for p in V))


def affine(c, ctx):
    s = c["scale"]
    P = [(x * s + c["off"][0], y * s + c["off"][1]) for x, y in c["v"]]
    A = np.array([[x, y, 1.0] for x, y in P])
    sv = np.linalg.svd(A - [A[:, 0].mean(), A[:, 1].mean(), 0], compute_uv=False)
    cen = A[:, :2] - A[:, :2].mean(0)
    s2 = np.linalg.svd(cen, compute_uv=False)
    if s2[1] < 1e-9 * max(1, s2[0]):
        raise Skip("points on a line")
    M = np.array(c["m"], dtype=float).reshape(2, 3)
    Q = [tuple(M.dot([x, y, 1])) for x, y in P]
    if c["noise"]:
        Q = [(q[0] + c["noise"][2 * i] * s / 4.0, q[1] + c["noise"][2 * i + 1] * s / 4.0) for i, q in enumerate(Q)]
    a, b = Multipoint(P), Multipoint(Q)
    if c.get("crs"):
        ka, kb = c["crs"]
        if max(abs(v) for q in P + Q for v in q) > (80 if ka == "lonlat" else 1e6):
            raise Skip("far away")
        a = Multipoint(P, crs=crs(ka))
        b = Multipoint([tuple(q) for q in to(ka, kb, Q)], crs=crs(kb))
        if not coords_close([tuple(q) for q in to(kb, ka, verts(b))], Q, 1e-7 if ka == "lonlat" else 1e-4):
            raise Skip("no way back")
        ctx.label("two-systems")
    N = affine_matrix(a, b)
    check(N.shape == (2, 3), "matrix of shape %r", N.shape)
    scale = max(1.0, max(abs(v) for q in Q for v in q))
    if not c["noise"]:
        back = vv(a.apply_transform(N).vertices())
        check(close_to(back, Q, 1e-8 * scale if not c.get("crs") else 1e-5 * scale), "fitted transform takes %r to %r, expected %r", P, back, Q)
    # residuals of a least squares fit are orthogonal to the regressors
    r = np.array(Q) - A.dot(N.T)
    g = A.T.dot(r)
    check(np.all(np.abs(g) <= (1e-7 if not c.get("crs") else 1e-5) * scale * max(1.0, np.abs(A).max()) * len(P)), "not a least squares fit: %r for %r to %r", N, P, Q)
    ctx.nontrivial(len(P) >= 3)
    ctx.label("noise", bool(c["noise"]))


def dateline(c, ctx):
    K = crs(c["crs"])
    V = [tuple(p) + ((i,) if c["z"] else ()) for i, p in enumerate(c["v"])]
    poly = c["poly"] and len(V) > 2
    g = (Polygon if poly else Line)(V, crs=K)
    pairs = list(zip(V[:-1], V[1:])) + ([(V[-1], V[0])] if poly else [])
    d = [abs(a[0] - b[0]) for a, b in pairs]
    if any(x == 180 for x in d):
        raise Skip("half a turn")
    exp = any(x > 180 for x in d)
    check(bool(g.crosses_dateline()) == exp, "crosses_dateline of %r is %r", V, g.crosses_dateline())
    if not raises(CRSError, lambda: Line(V).crosses_dateline()):
        fail("planar line has a dateline")
    ctx.nontrivial(max(d) > 90)
    ctx.label("crossing", exp); ctx.label("polygon", poly)


def frompoints(c, ctx):
    """a geometry made from points lies where its points lie"""
    kind = c["kind"]
    V = [[(-111.0 + x / 16.0, 45.0 + y / 16.0) + ((float(i),) if c["z"] else ()) for i, (x, y) in enumerate(p)] for p in c["v"]]
    P = [[Point(to("lonlat", k, [v])[0], crs=crs(k), properties={"n": i} if c["props"] else {}) for i, (v, k) in enumerate(zip(p, ks))] for p, ks in zip(V, c["k"])]
    kw = {} if c["crs"] is None else {"crs": crs(c["crs"])}
    single = kind in ("Line", "Polygon", "Multipoint")
    if single:
        arg = {"list": list, "tuple": tuple, "iter": iter}[c["input"]](P[0])
    else:
        arg = [(Line if kind == "Multiline" else Polygon)(p) for p in P]
    g = T[kind](arg, **kw)
    want = c["crs"] or c["k"][0][0]
    check(g.crs is crs(want), "a %s of points in %r asked in %r is in %r", kind, c["k"], c["crs"], g.crs)
    ve = g.vertices()
    got = [vv(ve)] if single else [vv(p) for p in ve] if kind == "Multiline" else [vv(p[0]) for p in ve]
    exp = [to("lonlat", want, p) for p in V]
    tol = 1e-7 if want == "lonlat" else 1e-2
    check(len(got) == len(exp) and all(close_to(a, b, tol) for a, b in zip(got, exp)), "a %s of points in %r asked in %r has vertices %r, expected %r", kind, c["k"], c["crs"], got, exp)
    if kind == "Multipoint" and c["props"]:
        check([p.properties.get("n") for p in g] == list(range(len(V[0]))), "attributes of the points %r", [p.properties for p in g])
    for p, ks, vs in zip(P, c["k"], V):
        for q, k, v in zip(p, ks, vs):
            check(q.crs is crs(k) and tuple(q.vertex()) == tuple(to("lonlat", k, [v])[0]), "the points changed")
    ks = set(k for p in c["k"] for k in p)
    ctx.nontrivial(len(set(v[:2] for p in V for v in p)) >= 3)
    ctx.label(kind); ctx.label("mixed", len(ks) > 1); ctx.label("asked", c["crs"])


CHECKS = {"points": frompoints, "views": views, "multi": multi, "affine": affine, "dateline": dateline}
