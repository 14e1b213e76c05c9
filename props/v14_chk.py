import io
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape
from harness.geo import *
from karta.vector._gpx import GPX
from karta.vector.read import read_gpx_waypts, read_gpx_tracks

NS = "{http://www.topografix.com/GPX/1/1}"
VALID = ("ele", "time", "magvar", "geoidheight", "name", "cmt", "desc", "src", "link", "sym", "type", "fix", "sat", "hdop", "vdop", "pdop", "ageofdgpsdata", "dgpsid")
K = crs("lonlat")


def s(v):
    return None if v is None or v == "" else str(v)


def obj(p):
    v = [tuple(float(x) for x in q) for q in p["v"]]
    if p["kind"] == "Line":
        return Line(v, properties=dict(p["props"]), crs=K)
    return Multipoint(v, properties=dict(p["props"]), data={k: list(c) for k, c in p["cols"].items()} or None, crs=K)


def mpoint(v, props):
    """(lon, lat, z or None, properties, extensions)"""
    pr = {k: s(x) for k, x in props.items() if k in VALID}; ex = {k: s(x) for k, x in props.items() if k not in VALID}
    return (float(v[0]), float(v[1]), float(v[2]) if len(v) == 3 else None, pr, ex)


def mpath(p, merge=False):
    pts = [mpoint(v, {k: c[i] for k, c in p["cols"].items()}) for i, v in enumerate(p["v"])]
    pr = {k: s(x) for k, x in p["props"].items() if k in VALID}; ex = {k: s(x) for k, x in p["props"].items() if k not in VALID}
    return pts, pr, ex


def point_same(lonlat, props, exts, m, what, merge=False):
    check(abs(float(lonlat[0]) - m[0]) <= 6e-7 and abs(float(lonlat[1]) - m[1]) <= 6e-7, "%s: at %r, expected %r", what, lonlat, m[:2])
    pr = {k: s(v) for k, v in props.items()}; ex = {k: s(v) for k, v in exts.items()}
    if m[2] is not None:
        e = pr.pop("ele", None)
        check(e is not None and float(e) == m[2], "%s: elevation %r, expected %r", what, e, m[2])
    if merge:
        pr.update(ex); check(pr == dict(m[3], **m[4]), "%s: properties %r, expected %r, %r", what, pr, m[3], m[4])
    else:
        check(pr == m[3], "%s: properties %r, expected %r", what, pr, m[3])
        check(ex == m[4], "%s: extensions %r, expected %r", what, ex, m[4])


def norm(d):
    return {k: s(v) for k, v in d.items()}


def same(g, W, Tk, R, what):
    check(len(g.waypts) == len(W), "%s: %r waypoints, expected %r", what, len(g.waypts), len(W))
    for i, (a, m) in enumerate(zip(g.waypts, W)):
        point_same(a.lonlat, a.properties, a.extensions, m, "%s waypoint %d" % (what, i))
    check(len(g.tracks) == len(Tk), "%s: %r tracks, expected %r", what, len(g.tracks), len(Tk))
    for i, (a, (segs, pr, ex)) in enumerate(zip(g.tracks, Tk)):
        check(norm(a.properties) == pr and norm(a.extensions) == ex, "%s track %d: properties %r, %r, expected %r, %r", what, i, a.properties, a.extensions, pr, ex)
        check(len(a.trksegs) == len(segs), "%s track %d: %r segments, expected %r", what, i, len(a.trksegs), len(segs))
        for b, (pts, p2, e2) in zip(a.trksegs, segs):
            check(norm(b.properties) == p2 and norm(b.extensions) == e2, "%s segment: properties %r, %r, expected %r, %r", what, b.properties, b.extensions, p2, e2)
            check(len(b.trkpts) == len(pts), "%s segment: %r points, expected %r", what, len(b.trkpts), len(pts))
            for q, m in zip(b.trkpts, pts):
                point_same(q.lonlat, q.properties, q.extensions, m, what + " track point")
    check(len(g.routes) == len(R), "%s: %r routes, expected %r", what, len(g.routes), len(R))
    for i, (a, (pts, pr, ex)) in enumerate(zip(g.routes, R)):
        got = norm(a.properties); got.update(norm(a.extensions))
        check(got == dict(pr, **ex), "%s route %d: properties %r, expected %r, %r", what, i, got, pr, ex)
        check(len(a.rtepts) == len(pts), "%s route: %r points, expected %r", what, len(a.rtepts), len(pts))
        for q, m in zip(a.rtepts, pts):
            point_same(q.lonlat, q.properties, q.extensions, m, what + " route point", merge=True)


def xml_same(text, W, Tk, R):
    """the document parsed without karta"""
    root = ET.fromstring(text)
    check(root.tag == NS + "gpx" and root.attrib.get("version") == "1.1", "root %r, %r", root.tag, root.attrib)
    kids = [k.tag for k in root]
    check(kids == [NS + "wpt"] * len(W) + [NS + "trk"] * len(Tk) + [NS + "rte"] * len(R), "members %r", kids)
    def pts(nodes, ms, what):
        check(len(nodes) == len(ms), "%s: %r points in the file, expected %r", what, len(nodes), len(ms))
        for n, m in zip(nodes, ms):
            check(float(n.attrib["lon"]) == m[0] and float(n.attrib["lat"]) == m[1], "%s: position %r, expected %r", what, n.attrib, m)
            if m[2] is not None:
                check(len(n.findall(NS + "ele")) == 1 and float(n.find(NS + "ele").text) == m[2], "%s: elevation of %r", what, m)
            for k, v in m[3].items():
                if k == "ele" and m[2] is not None:
                    continue
                e = n.find(NS + k)
                check(e is not None and s(e.text) == v, "%s: %s is %r, expected %r", what, k, None if e is None else e.text, v)
    pts(root.findall(NS + "wpt"), W, "waypoints")
    for t, (segs, pr, ex) in zip(root.findall(NS + "trk"), Tk):
        sg = t.findall(NS + "trkseg")
        check(len(sg) == len(segs), "%r segments in the file, expected %r", len(sg), len(segs))
        for a, b in zip(sg, segs):
            pts(a.findall(NS + "trkpt"), b[0], "track")
    for r, (ps, pr, ex) in zip(root.findall(NS + "rte"), R):
        pts(r.findall(NS + "rtept"), ps, "route")


def scratch(f):
    d = tempfile.mkdtemp(prefix="kv14")
    try:
        return f(os.path.join(d, "a.gpx"))
    finally:
        shutil.rmtree(d)


def merge_ext(m):
    return m


def history(c, ctx):
    W, Tk, R = [], [], []
    g = GPX()
    ops = c["ops"]
    if c["ctor"]:
        pts, lines, rts = [], [], []
        while ops and ops[0]["op"] in ("wpt", "trk", "rte"):
            o = ops[0]
            if o["op"] == "wpt":
                pts.append(Point(tuple(float(x) for x in o["v"]), properties=dict(o["props"]), crs=K)); W.append(mpoint(o["v"], o["props"]))
            elif o["op"] == "trk":
                if len(o["segs"]) != 1 or o["attr"] is not None:
                    break
                lines.append(obj(o["segs"][0])); Tk.append(([mpath(o["segs"][0])], {}, {}))
            else:
                rts.append(obj(o["path"])); R.append(mpath(o["path"]))
            ops = ops[1:]
        g = GPX(waypoints=pts, tracks=lines, routes=rts)
        same(g, W, Tk, R, "constructed")
    for o in ops:
        if o["op"] == "wpt":
            p = Point(tuple(float(x) for x in o["v"]), properties=dict(o["props"]), crs=K)
            g.add_waypoint(p); W.append(mpoint(o["v"], o["props"]))
            check(dict(p.properties) == o["props"], "add_waypoint changed the properties to %r", p.properties)
        elif o["op"] == "trk":
            src = [obj(q) for q in o["segs"]]
            if o["attr"] is None:
                g.add_track(*src)
            else:
                g.add_track(*src, attributes=dict(o["attr"]))
            a = o["attr"] or {}
            Tk.append(([mpath(q) for q in o["segs"]], {k: s(v) for k, v in a.items() if k in VALID}, {k: s(v) for k, v in a.items() if k not in VALID}))
            check(all(dict(x.properties) == q["props"] for x, q in zip(src, o["segs"])), "add_track changed the properties")
        elif o["op"] == "rte":
            g.add_route(obj(o["path"])); R.append(mpath(o["path"]))
        else:
            g = scratch(lambda p: (g.writefile(p), GPX(p))[1])
            # positions are now rounded
        same(g, W, Tk, R, "after %s" % o["op"])
    text = g.as_string()
    if not any(o["op"] == "rewrite" for o in c["ops"]):
        xml_same(text, W, Tk, R)
    else:
        ET.fromstring(text)
    check(g.as_string() == text, "the document changes when written")
    if c["part"]:
        kw = {k: k == c["part"] for k in ("waypts", "tracks", "routes")}
        h = GPX(io.StringIO(g.as_string(**kw)))
        same(h, W if c["part"] == "waypts" else [], Tk if c["part"] == "tracks" else [], R if c["part"] == "routes" else [], "written in part")
    def back(p):
        g.writefile(p)
        if c["how"] == "object":
            with open(p) as f:
                h = GPX(f)
        else:
            h = GPX(p)
        return h, read_gpx_waypts(p), read_gpx_tracks(p)
    h, wp, tr = scratch(back)
    same(h, W, Tk, R, "read")
    readers(wp, tr, W, Tk)
    ctx.nontrivial(bool(W) + bool(Tk) + bool(R) >= 2 or any(len(t[0]) > 1 for t in Tk)); ctx.label("%d%d%d" % (min(len(W), 2), min(len(Tk), 2), min(len(R), 2)))


def readers(wp, tr, W, Tk):
    check(len(wp) == len(W), "%r waypoints read, expected %r", len(wp), len(W))
    for a, m in zip(wp, W):
        check(type(a) is Point and a.crs is K, "waypoint %r", a)
        point_same(a.vertex(), a.properties, m[4], m, "read_gpx_waypts")
    check(len(tr) == len(Tk), "%r tracks read, expected %r", len(tr), len(Tk))
    for a, (segs, _, _) in zip(tr, Tk):
        check(len(a) == len(segs), "%r lines read, expected %r", len(a), len(segs))
        for l, (pts, pr, _) in zip(a, segs):
            check(type(l) is Line and l.crs is K, "segment %r", l)
            v = verts(l) if len(pts) else []
            check(len(v) == len(pts) and all(abs(x[0] - m[0]) <= 6e-7 and abs(x[1] - m[1]) <= 6e-7 for x, m in zip(v, pts)), "line %r, expected %r", v, pts)
            check(norm(l.properties) == pr, "properties %r, expected %r", l.properties, pr)


def foreign(c, ctx):
    P = c["prefix"]
    def kv(d, pre):
        return "".join("<%s%s>%s</%s%s>" % (pre, k, escape(v), pre, k) for k, v in d.items())
    def ext(e):
        return "" if e is None else "<%sextensions>%s</%sextensions>" % (P, kv(e, "k:"), P)
    def pt(p, tag):
        return '<%s%s lat="%s" lon="%s">%s%s</%s%s>\n' % (P, tag, p["c"][1], p["c"][0], kv(p["props"], P), ext(p["ext"]), P, tag)
    out = []
    for w in c["wpts"]:
        out.append((0, pt(w, "wpt")))
    for t in c["trks"]:
        out.append((1, "<%strk>%s%s%s</%strk>\n" % (P, kv(t["props"], P), ext(t["ext"]), "".join("<%strkseg>%s</%strkseg>" % (P, "".join(pt(p, "trkpt") for p in sg), P) for sg in t["segs"]), P)))
    for r in c["rtes"]:
        out.append((2, "<%srte>%s%s</%srte>\n" % (P, kv(r["props"], P), "".join(pt(p, "rtept") for p in r["pts"]), P)))
    order = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)][c["order"]]
    out = [x for k in order for i, x in out if i == k]
    text = '<?xml version="1.0" encoding="UTF-8"?>\n<%sgpx version="1.1" creator="x" xmlns%s="http://www.topografix.com/GPX/1/1" xmlns:k="http://x.y/z">%s%s</%sgpx>' % (P, ":" + P[:-1] if P else "", "<%smetadata><%sname>m</%sname></%smetadata>" % (P, P, P, P) if c["meta"] else "", "".join(out), P)
    def m(p):
        return (float(p["c"][0]), float(p["c"][1]), None, norm(p["props"]), norm(p["ext"] or {}))
    W = [m(p) for p in c["wpts"]]
    Tk = [([([m(p) for p in sg], {}, {}) for sg in t["segs"]], norm(t["props"]), norm(t["ext"] or {})) for t in c["trks"]]
    R = [([m(p) for p in r["pts"]], norm(r["props"]), {}) for r in c["rtes"]]
    def run(p):
        with open(p, "wb") as f:
            f.write(text.encode("utf-8"))
        one = GPX(p)
        same(one, W, Tk, R, "read")
        if all(sg for t in c["trks"] for sg in t["segs"]):
            readers(read_gpx_waypts(p), read_gpx_tracks(p), W, Tk)
        one.writefile(p)
        same(GPX(p), W, Tk, R, "rewritten")
    scratch(run)
    ctx.nontrivial(bool(W) + bool(Tk) + bool(R) >= 2); ctx.label("prefix" if P else "default")


CHECKS = {"history": history, "foreign": foreign}
