from harness.geo import *

T = {"Line": Line, "Multipoint": Multipoint, "Multiline": Multiline, "Multipolygon": Multipolygon}
BASE = {"cart": (1, 0, 0), "utm": (1, 500000, 4500000), "merc": (1, -12200000, 5600000), "laea": (1, 0, 0), "lonlat": (0.0078125, -111, 45)}


def outer(kind, V):
    return [V] if kind in ("Line", "Multipoint") else [V[0]] if kind == "Polygon" else V if kind == "Multiline" else [p[0] for p in V]


def make(kind, V, K):
    if kind == "Polygon":
        return Polygon(V[0], subs=[Polygon(h, crs=K) for h in V[1:]], crs=K)
    return T[kind](V, crs=K)


def ext(g, bb, K, what):
    e = g.extent() if K is None else g.extent(crs=K)
    check(tuple(e) == (bb[0], bb[2], bb[1], bb[3]), "extent of %s is %r, its box is %r", what, e, bb)


def planar(c, ctx):
    kind = c["kind"]; K = crs(c["crs"]); s0, x0, y0 = BASE[c["crs"]]
    if c["crs"] == "laea":
        x0, y0 = to("lonlat", "laea", [(-111, 45)])[0][:2]
        x0, y0 = round(x0), round(y0)
    s = s0 * c["scale"]
    if c["crs"] == "lonlat":
        s = s0 * min(c["scale"], 1)
        c = dict(c, off=(0, 0))
    n = [0]
    def put(p):
        n[0] += 1
        return (x0 + c["off"][0] + s * p[0], y0 + c["off"][1] + s * p[1]) + ((float(n[0] * 37 % 500000),) if c["z"] else ())
    def deep(v):
        return put(v) if not isinstance(v[0], (list, tuple)) else [deep(q) for q in v]
    V = deep(c["v"])
    g = make(kind, V, K)
    pts = [p for r in outer(kind, V) for p in r]
    geo = c["crs"] == "lonlat"
    if not geo:
        bb = tuple(float(q) for q in g.bbox())
        exp = (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))
        check(bb == exp, "box of %s %r is %r, expected %r", kind, V, bb, exp)
        ext(g, bb, None, V)
        same = g.bbox(crs=K)
        check(tuple(same) == bb, "box in its own system is %r, expected %r", same, bb)
    if c["to"] and c["to"] != c["crs"]:
        o = c["to"]; C = crs(o)
        q = to(c["crs"], o, pts)
        bb = tuple(float(v) for v in g.bbox(crs=C))
        mag = max(1.0, max(abs(v) for p in q for v in p[:2]))
        if o == "lonlat":
            if kind == "Multipoint":
                exp = (min(p[0] for p in q), min(p[1] for p in q), max(p[0] for p in q), max(p[1] for p in q))
                check(bb[0] <= exp[0] + 1e-9 and bb[1] <= exp[1] + 1e-9 and bb[2] >= exp[2] - 1e-9 and bb[3] >= exp[3] - 1e-9, "box of %r is %r, expected at least %r", V, bb, exp)
            else:
                rs = []
                k = 0
                for r in outer(kind, V):
                    rs.append([tuple(p[:2]) for p in q[k:k + len(r)]]); k += len(r)
                judge(kind, rs, bb, 1e-5)
        else:
            exp = (min(p[0] for p in q), min(p[1] for p in q), max(p[0] for p in q), max(p[1] for p in q))
            check(all(abs(a - b) <= 1e-8 * mag + 1e-6 for a, b in zip(bb, exp)), "box of %s %r in %s is %r, expected %r", kind, V, o, bb, exp)
        ext(g, bb, C, V)
        again = make(kind, V, K)
        again.bbox(); e2 = again.bbox(crs=C)
        check(tuple(e2) == bb, "box in %s is %r after a box in its own system, %r without", o, e2, bb)
    ctx.nontrivial(len(set(pts)) >= 3); ctx.label(kind)


def vec(p):
    a, b = math.radians(p[0]), math.radians(p[1])
    return np.array([math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b)])


def arc_lats(p, q):
    """smallest and largest latitude along the great circle arc"""
    lo, hi = min(p[1], q[1]), max(p[1], q[1])
    a, b = vec(p), vec(q)
    n = np.cross(a, b)
    m = math.sqrt(float(np.dot(n, n)))
    if m < 1e-9:
        return lo, hi
    n = n / m
    top = np.array([0, 0, 1.0]) - n[2] * n
    t = math.sqrt(float(np.dot(top, top)))
    if t < 1e-12:
        return lo, hi
    top = top / t
    for sg in (1, -1):
        v = sg * top
        if np.dot(np.cross(a, v), n) > 0 and np.dot(np.cross(v, b), n) > 0:
            L = math.degrees(math.asin(max(-1.0, min(1.0, v[2]))))
            lo, hi = min(lo, L), max(hi, L)
    return lo, hi


def wrap(x):
    return (x + 180.0) % 360.0 - 180.0


def ring_box(r, closed):
    """(west longitude, width, ymin, ymax, crosses, bulges)"""
    es = list(zip(r, r[1:])) + ([(r[-1], r[0])] if closed else [])
    u = r[0][0]
    us = [u]
    ymin, ymax = min(p[1] for p in r), max(p[1] for p in r)
    y0, y1 = ymin, ymax
    for p, q in es:
        d = wrap(q[0] - p[0])
        if abs(d) > 179:
            raise Skip("half turn")
        u += d
        us.append(u)
        a, b = arc_lats(p, q)
        ymin, ymax = min(ymin, a), max(ymax, b)
    turn = us[-1] - us[0] if closed else 0.0
    if closed and abs(turn) > 1:
        if min(p[1] for p in r) > 0:
            ymax = 90.0
        elif max(p[1] for p in r) < 0:
            ymin = -90.0
        else:
            raise Skip("polar polygon in both hemispheres")
    w = max(us) - min(us)
    return min(us), min(w, 360.0), ymin, ymax, us, (y0 != ymin or y1 != ymax)


def judge(kind, rings, bb, tol):
    closed = kind in ("Polygon", "Multipolygon")
    boxes = [ring_box(r, closed) for r in rings]
    ymin, ymax = min(b[2] for b in boxes), max(b[3] for b in boxes)
    check(abs(bb[1] - ymin) <= tol and abs(bb[3] - ymax) <= tol, "latitudes of the box of %s %r are %r, expected %r", kind, rings, (bb[1], bb[3]), (ymin, ymax))
    check(-180 - tol <= bb[0] <= 180 + tol and -180 - tol <= bb[2] <= 180 + tol, "box of %r is %r", rings, bb)
    width = (bb[2] - bb[0]) if bb[2] >= bb[0] else bb[2] - bb[0] + 360
    def inside(x):
        return (x - bb[0]) % 360 <= width + tol or (bb[0] - x) % 360 <= tol or abs(width - 360) <= tol
    for b in boxes:
        for x in b[4]:
            check(inside(x), "longitude %r is outside of the box %r of %s %r", x, bb, kind, rings)
        for k in range(9):
            x = b[0] + b[1] * k / 8
            check(inside(x), "longitude %r is outside of the box %r of %s %r", wrap(x), bb, kind, rings)
    # no larger than needed
    crossing = [b for b in boxes if b[1] < 360 and wrap(b[0]) + b[1] > 180 + tol]
    edge = [b for b in boxes if abs(abs(wrap(b[0])) - 180) <= tol or abs(abs(wrap(b[0] + b[1])) - 180) <= tol]
    if len(boxes) == 1:
        exp = boxes[0][1]
    elif any(b[1] >= 360 - tol for b in boxes):
        exp = 360.0
    elif edge:
        return boxes
    elif not crossing:
        exp = max(wrap(b[0]) + b[1] for b in boxes) - min(wrap(b[0]) for b in boxes)
    else:
        # complement of the widest gap
        iv = sorted((b[0] % 360, b[1]) for b in boxes)
        reach = max(a + w for a, w in iv) - 360
        gap = 0.0
        for a, w in iv:
            gap = max(gap, a - reach)
            reach = max(reach, a + w)
        exp = 360 - gap
    check(abs(width - exp) <= tol or (width <= tol and exp >= 360 - tol), "box of %s %r is %r: width %r, expected %r", kind, rings, bb, width, exp)
    return boxes


def geographic(c, ctx):
    kind = c["kind"]; K = crs(c["crs"])
    rings = []
    for r in c["parts"]:
        r = [(p[0] if -180 <= p[0] <= 180 else wrap(p[0]), p[1]) for p in r]
        if kind in ("Polygon", "Multipolygon"):
            if len(set(r)) < 3:
                raise Skip("few vertices")
            k = c["k"] % len(r); r = r[k:] + r[:k]
        rings.append(r[::-1] if c["rev"] else r)
    Z = lambda r: [p + (float(100 + i),) for i, p in enumerate(r)] if c["z"] else r
    V = Z(rings[0]) if kind in ("Line", "Multipoint") else [Z(rings[0])] if kind == "Polygon" else [Z(r) for r in rings] if kind == "Multiline" else [[Z(r)] for r in rings]
    g = make(kind, V, K)
    if kind == "Multipoint":
        bb = tuple(float(v) for v in g.bbox())
        w = bb[2] - bb[0] if bb[2] >= bb[0] else bb[2] - bb[0] + 360
        for p in rings[0]:
            check(((p[0] - bb[0]) % 360 <= w + 1e-9 or (bb[0] - p[0]) % 360 <= 1e-9) and bb[1] - 1e-5 <= p[1] <= bb[3] + 1e-5, "point %r is outside of the box %r of %r", p, bb, rings[0])
        ext(g, bb, None, V); ctx.nontrivial(len(set(rings[0])) >= 3); ctx.label(kind)
        return
    bb = tuple(float(v) for v in g.bbox())
    boxes = judge(kind, rings, bb, 1e-5)
    ext(g, bb, None, V)
    if kind == "Polygon" and boxes[0][1] < 360 or kind == "Line":
        # translation along the parallels
        h = make(kind, [Z([(wrap(p[0] + 90), p[1]) for p in rings[0]])] if kind == "Polygon" else Z([(wrap(p[0] + 90), p[1]) for p in rings[0]]), K)
        judge(kind, [[(wrap(p[0] + 90), p[1]) for p in rings[0]]], tuple(float(v) for v in h.bbox()), 1e-5)
    cr = any(wrap(b[0]) + b[1] > 180 for b in boxes)
    ctx.nontrivial(cr or any(b[5] for b in boxes)); ctx.label(kind + (" dateline" if cr else ""))


CHECKS = {"planar": planar, "geographic": geographic}
