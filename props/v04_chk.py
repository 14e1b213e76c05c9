from coordstring import CoordString
from karta.vector.rtree import RTree
from harness.geo import *
from harness.oracles import *


def box(p):
    return min(v[0] for v in p), min(v[1] for v in p), max(v[0] for v in p), max(v[1] for v in p)


def judge(b, q):
    """(strictly inside, not inside, overlaps)"""
    ins = b[0] > q[0] and b[1] > q[1] and b[2] < q[2] and b[3] < q[3]
    out = b[0] < q[0] or b[1] < q[1] or b[2] > q[2] or b[3] > q[3]
    return ins, out, b[0] <= q[2] and b[2] >= q[0] and b[1] <= q[3] and b[3] >= q[1]


def tree(c, ctx):
    sc, off = c["scale"], c["off"]
    its = [[[v[0] * sc + off, v[1] * sc + off] for v in p] 
           for k in range(c["rep"]) for p in [[[v[0] + 37 * k % 41 - 20 * (k > 0), v[1] + 29 * k % 43 - 20 * (k > 0)] for v in p] for p in c["items"]]]
    t = RTree([CoordString([v + [1.0 * i] for v in p] if c["z"] else p) for i, p in enumerate(its)], maxchildren=c["mc"])
    bs = [box(p) for p in its]
    h = 0.5 if c["half"] else 0.0
    part = False
    for q in c["q"]:
        q = ((q[0] - h) * sc + off, (q[1] - h) * sc + off, (q[2] + h) * sc + off, (q[3] + h) * sc + off)
        w, o = t.search_within(q), t.search_overlapping(q)
        check(len(set(w)) == len(w) and len(set(o)) == len(o), "a search found a member twice: %r %r", w, o)
        for i, b in enumerate(bs):
            ins, out, ov = judge(b, q)
            if ins or out:
                check((i in w) == ins, "search_within(%r): member %d with box %r %s", q, i, b, "missing" if ins else "found")
            check((i in o) == ov, "search_overlapping(%r): member %d with box %r %s", q, i, b, "missing" if ov else "found")
        part |= 0 < len(o) < len(bs)
        if c["max"] is not None:
            for all_, some in ((w, t.search_within(q, max_results=c["max"])), (o, t.search_overlapping(q, max_results=c["max"]))):
                check(len(some) == min(len(all_), c["max"]) and set(some) <= set(all_) and len(set(some)) == len(some), "at most %d of %r: %r", c["max"], all_, some)
    tb = t.bbox
    check(all(tb[0] <= b[0] and tb[1] <= b[1] and tb[2] >= b[2] and tb[3] >= b[3] for b in bs), "bbox of the tree %r does not hold its members", tb)
    ctx.nontrivial(len(its) > c["mc"] and part)
    ctx.label("rank 3", c["z"])


def touch(sa, sb):
    return any(seg_touch(a, b, c, d) for a, b in sa for c, d in sb)


def multi(c, ctx):
    its = []
    for k in range(c["copies"]):
        its += [[[v[0] + 7 * k, v[1] - 3 * k] for v in p] for p in c["items"]]
    n = len(its)
    poly = c["kind"] == "poly"
    M = Multipolygon if poly else Multiline
    m = M([[p] for p in its] if poly else its, data={"id": list(range(n)), "nv": [len(p) for p in its]}, build_index=c["index"] or any("bbox" in q[0] for q in c["q"]))
    bs = [box(p) for p in its]
    segs = [ring_segs(p) if poly else line_segs(p) for p in its]
    part = False
    for k, g in c["q"]:
        must, may = set(), set()
        if "bbox" in k:
            for i, b in enumerate(bs):
                ins, out, ov = judge(b, g)
                if k == "within_bbox":
                    if ins:
                        must.add(i)
                    if not out:
                        may.add(i)
                elif ov:
                    must.add(i); may.add(i)
            r = getattr(m, k)(tuple(g))
        else:
            qs = line_segs(g) if k == "touching_line" else ring_segs(g)
            for i, p in enumerate(its):
                t = touch(segs[i], qs)
                if k == "touching_line":
                    x = t
                elif k == "touching_poly":
                    x = t or contains_exact(p[0], g)
                else:
                    x = not t and contains_exact(p[0], g)
                if x:
                    must.add(i); may.add(i)
            geom = Line(g) if k == "touching_line" else Polygon(g)
            r = m.within(geom) if k == "within_poly" else m.touching(geom)
            if k == "touching_line":
                check(raises(TypeError, m.within, geom), "within() a line did not raise TypeError")
        check(type(r) is M and r.crs is m.crs, "%s: result is a %s", k, type(r).__name__)
        got = list(r.d["id"]) if len(r) else []
        check(len(set(got)) == len(got) and must <= set(got) <= may, "%s %r: members %r, expected %r", k, g, sorted(got), sorted(must))
        if len(r):
            check(list(r.d["nv"]) == [len(its[i]) for i in got], "%s: attributes do not match the members", k)
            vs = [v[0] for v in r.vertices()] if poly else r.vertices()
            check([[list(map(float, u)) for u in v] for v in vs] == [[list(map(float, u)) for u in its[i]] for i in got], "%s: vertices do not match the attributes", k)
        part |= 0 < len(must) < n
    ctx.nontrivial(n > 1 and part)
    ctx.label("indexed", c["index"]); ctx.label("more than 50", n > 50)


CHECKS = {"tree": tree, "multi": multi}
