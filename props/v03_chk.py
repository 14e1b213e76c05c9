from fractions import Fraction
from coordstring import CoordString
from karta.vector.quadtree import QuadTree
from harness.geo import *
from harness.oracles import contains_exact
import pyproj


def tree(c, ctx):
    pts = [p + [i * 0.5] if c["z"] else p for i, p in enumerate(c["pts"])]
    t = QuadTree(CoordString(pts), leaf_capacity=c["cap"])
    check(len(t) == len(pts), "tree of %d points has length %d", len(pts), len(t))
    part = False
    for q in c["q"]:
        exp = [i for i, p in enumerate(pts) if q[0] < p[0] < q[2] and q[1] < p[1] < q[3]]
        got = sorted(t.search_within(*q))
        check(got == exp, "points inside %r: %r, expected %r (capacity %d)", q, got, exp, c["cap"])
        part |= 0 < len(exp) < len(pts)
    b = t.bbox
    check(all(b[0] <= p[0] <= b[2] and b[1] <= p[1] <= b[3] for p in pts), "bbox of the tree %r does not hold its points", b)
    allp = t.search_within(b[0] - 1, b[1] - 1, b[2] + 1, b[3] + 1)
    check(sorted(allp) == list(range(len(pts))), "a search of everything found %d of %d points", len(allp), len(pts))
    ctx.nontrivial(len(set(map(tuple, c["pts"]))) > c["cap"] and part)
    ctx.label("dup", len(set(map(tuple, c["pts"]))) < len(pts))


def points(c, ctx):
    pts = []
    for k in range(c["copies"]):
        pts += [[p[0] + 25.0 * k, p[1]] for p in c["pts"]]
    if c["z"]:
        pts = [p + [float(i % 3)] for i, p in enumerate(pts)]
    n = len(pts)
    ids = list(range(n))
    m = Multipoint([tuple(p) for p in pts], data={"id": list(ids), "sq": [i * i for i in ids]}, properties={"name": "cloud"}, build_index=c["index"])
    pts = [list(p) for p in pts]
    for i, xy in c["edits"]:
        if i < n:
            m[i] = Point(xy + pts[i][2:], properties={"id": i, "sq": i * i})
            pts[i][:2] = xy
    part = False
    for q in c["q"]:
        skip = set()
        if q[0] == "bbox":
            b = q[1]
            exp = [i for i, p in enumerate(pts) if b[0] < p[0] < b[2] and b[1] < p[1] < b[3]]
            r = m.within_bbox(tuple(b))
        elif q[0] == "radius":
            ctr, rad = q[1], q[2]
            if isinstance(rad, list):
                rad = math.hypot(rad[0] - ctr[0], rad[1] - ctr[1])
            d = [math.sqrt((p[0] - ctr[0]) ** 2 + (p[1] - ctr[1]) ** 2) for p in pts]
            exp = [i for i in ids if d[i] < rad]
            # ties are judged when everything is a small integer
            skip = set(i for i in ids if abs(d[i] - rad) <= 1e-9 * (1 + rad) and not (d[i] == rad and all(float(v).is_integer() and abs(v) < 1e6 for v in pts[i][:2] + ctr + [rad])))
            r = m.within_radius(Point(ctr), rad)
        else:
            ring = [[Fraction(v) for v in p] for p in q[1]]
            exp = [i for i, p in enumerate(pts) if contains_exact([Fraction(p[0]), Fraction(p[1])], ring)]
            # float rounding only matters next to the edges; integers are exact
            if not all(float(v).is_integer() for p in q[1] + pts for v in p[:2]):
                for i, p in enumerate(pts):
                    for k in range(len(q[1])):
                        a, b = q[1][k - 1], q[1][k]
                        L2 = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
                        t = 0 if L2 == 0 else max(0, min(1, ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / L2))
                        if math.hypot(a[0] + t * (b[0] - a[0]) - p[0], a[1] + t * (b[1] - a[1]) - p[1]) < 1e-9 * (1 + abs(p[0])):
                            skip.add(i)
            r = m.within_polygon(Polygon(q[1]))
        check(type(r) is Multipoint and r.properties == {"name": "cloud"} and r.crs is m.crs, "%s: result is %r %r", q[0], type(r), r.properties)
        got = list(r.d["id"])
        check(set(got) - skip == set(exp) - skip and len(set(got)) == len(got), "%s query %r: points %r, expected %r (of %d)", q[0], q[1:], sorted(got), exp, n)
        check(len(r) == len(got) and list(r.d["sq"]) == [i * i for i in got], "%s: attributes do not match the points", q[0])
        if len(r):
            check([list(v) for v in r.vertices()] == [[float(u) for u in pts[i]] for i in got], "%s: vertices do not match the attributes", q[0])
        part |= 0 < len(exp) < n
    check(list(m.d["id"]) == ids and [list(v) for v in m.vertices()] == [[float(u) for u in p] for p in pts], "queries changed the multipoint")
    ctx.nontrivial(n > 50 and part)
    ctx.label("edited", bool(c["edits"])); ctx.label("noindex", not c["index"])


def geo(c, ctx):
    pts, ctr = c["pts"], c["c"]
    K = crs(c["crs"])
    m = Multipoint([tuple(p) for p in pts], data={"id": list(range(len(pts)))}, crs=K)
    pc = c["crs"] if c["pcrs"] == "same" else c["pcrs"]
    if pc == "merc":
        if abs(ctr[1]) > 84:
            raise Skip("outside web mercator")
        p = Point(to("lonlat", "merc", [ctr])[0], crs=crs("merc"))
    else:
        p = Point(ctr, crs=crs(pc))
    g = pyproj.Geod(ellps="WGS84") if c["crs"] == "lonlat" else pyproj.Geod(a=K.ellipsoid.a, f=0)
    if pc != c["crs"]:
        # distances are those of the point's coordinate system, in flat coordinates if that is projected
        if pc == "merc":
            x, y = p.vertex()
            mx = to("lonlat", "merc", [q for q in pts]) if all(abs(q[1]) < 89 for q in pts) else None
            if mx is None:
                raise Skip("outside web mercator")
            d = [math.hypot(a - x, b - y) for a, b in mx]
        else:
            g = pyproj.Geod(ellps="WGS84") if pc == "lonlat" else g
            d = [g.inv(ctr[0], ctr[1], q[0], q[1])[2] for q in pts]
    else:
        d = [g.inv(ctr[0], ctr[1], q[0], q[1])[2] for q in pts]
    got = list(m.within_radius(p, c["r"]).d["id"])
    for i, v in enumerate(d):
        if abs(v - c["r"]) > 0.05:
            check((i in got) == (v < c["r"]), "point %d at distance %r %s within %r of %r", i, v, "found" if i in got else "not found", c["r"], ctr)
    ctx.nontrivial(0 < len(got) < len(pts))
    ctx.label(pc)


CHECKS = {"tree": tree, "points": points, "geo": geo}
