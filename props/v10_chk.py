from harness.geo import *

T = {"Point": Point, "Line": Line, "Polygon": Polygon, "Multipoint": Multipoint, "Multiline": Multiline, "Multipolygon": Multipolygon}
PLACE = {"cart": (1.0, 0.0, 0.0), "utm": (1000.0, 500000.0, 4500000.0), "lonlat": (0.125, -110.0, 45.0), "sph": (0.125, 20.0, -30.0)}
OTHERS = {"cart": [], "utm": ["lonlat", "merc", "laea", "utm11", "utm2"], "lonlat": ["utm", "merc", "laea"], "sph": []}


def deep(f, v, d):
    return [deep(f, x, d - 1) for x in v] if d else f(v)


DEPTH = {"Point": 0, "Line": 1, "Multipoint": 1, "Polygon": 2, "Multiline": 2, "Multipolygon": 3}


def place(c):
    s, x, y = PLACE[c["crs"]]
    n = [0]
    def f(v):
        n[0] += 1
        return (v[0] * s + x, v[1] * s + y) + ((float(n[0] * 7 % 50),) if c["z"] else ())
    return deep(f, c["v"], DEPTH[c["kind"]])


def build(kind, V, cols, props, K):
    cols = {k: list(v) for k, v in cols.items()}
    props = dict(props)
    if kind == "Point":
        return Point(V, properties=props, crs=K)
    if kind == "Line":
        return Line(V, properties=props, crs=K)
    if kind == "Polygon":
        return Polygon(V[0], subs=[Polygon(h, crs=K) for h in V[1:]], properties=props, crs=K)
    return T[kind](V, data=cols or None, properties=props, crs=K)


def snap(g):
    """everything that is observable of a geometry"""
    k = type(g).__name__
    if k == "Point":
        v = tuple(float(q) for q in g.vertex())
    elif k in ("Line", "Multipoint"):
        v = verts(g)
    elif k == "Polygon":
        v = [verts(g)] + [verts(s) for s in g.subs]
    elif k == "Multiline":
        v = [verts(p) for p in g]
    else:
        v = [[verts(p)] + [verts(s) for s in p.subs] for p in g]
    cols = {f: list(g.d[f]) for f in g.data.fields} if hasattr(g, "data") else {}
    return k, v, cols, dict(g.properties), g.crs


def flat(v):
    if isinstance(v, tuple):
        return [v]
    return [q for x in v for q in flat(x)]


def same(s, kind, V, cols, props, K, tol, what):
    check(s[0] == kind, "%s: type %s, expected %s", what, s[0], kind)
    check(shape(s[1]) == shape(V), "%s: structure %r, expected %r", what, s[1], V)
    a, b = flat(s[1]), flat(V)
    check(all(len(p) == len(q) and all(abs(x - y) <= tol for x, y in zip(p, q)) for p, q in zip(a, b)), "%s: vertices %r, expected %r", what, a, b)
    check(all(k in s[2] and s[2][k] == list(v) for k, v in cols.items()), "%s: data %r, expected %r", what, s[2], cols)
    check(s[3] == props, "%s: properties %r, expected %r", what, s[3], props)
    check(s[4] is K, "%s: coordinate system changed", what)


def shape(v):
    return 0 if isinstance(v, tuple) else [shape(x) for x in v]


QUERIES = ["bbox", "extent", "length", "perimeter", "area", "centroid", "hash", "coords", "vertices", "hull", "nearest", "iter", "geojson", "eq", "cumulength"]


def query(g, kind, q, others):
    c = crs(others[0]) if others and others[0] else None
    if q in ("bbox", "extent"):
        if kind == "Point":
            return None
        f = getattr(g, q)
        return tuple(float(x) for x in (f() if c is None else f(crs=c)))
    if q == "length":
        return float(g.length) if kind == "Line" else None
    if q in ("perimeter", "area"):
        return float(getattr(g, q)) if kind == "Polygon" else None
    if q == "centroid":
        return g.centroid.vertex() if kind == "Polygon" and g.area > 0 else None
    if q == "hash":
        return hash(g)
    if q == "coords":
        if kind == "Point":
            return [float(x) for x in g.vertex(c)]
        if kind in ("Multiline", "Multipolygon"):
            return repr(g.coords(c))
        return [[float(x) for x in a] for a in g.coords(c)]
    if q == "vertices":
        if kind == "Point":
            return None
        return [[repr(x)] for x in g.vertices(c)] if kind in ("Multiline", "Multipolygon") else np.asarray(g.vertices(c)).tolist()
    if q == "hull":
        return verts(g.convex_hull()) if kind in ("Line", "Polygon", "Multipoint") else None
    if q == "nearest":
        if kind in ("Line", "Polygon", "Multipoint"):
            p = g[0]
            return int(g.nearest_vertex_to(p)) if len(set(verts(g))) == len(g) else None
        return None
    if q == "iter":
        return None if kind == "Point" else len([p for p in g])
    if q == "geojson":
        return g.as_geojson(force_wgs84=False) if "z" not in others[1:] else None
    if q == "eq":
        return g == g
    if q == "cumulength":
        return list(g.cumulength()) if kind == "Line" else None


def history(c, ctx):
    c0 = c["g"]; kind = c0["kind"]; K = crs(c0["crs"])
    V, cols, props = place(c0), c0["cols"], c0["props"]
    g = build(kind, V, cols, props, K)
    same(snap(g), kind, V, cols, props, K, 0.0, "construction")
    past = []      # (geometry, snapshot when it was left)
    nq = nt = 0
    for s in c["steps"]:
        op = s["op"]
        if op == "query":
            q = QUERIES[(s["i"] // 16) % len(QUERIES)]
            oth = [None] + OTHERS[c0["crs"]]
            far = any(abs(p[0] - PLACE[c0["crs"]][1]) > PLACE[c0["crs"]][0] * 60 or abs(p[1] - PLACE[c0["crs"]][2]) > PLACE[c0["crs"]][0] * 60 for p in flat(V))
            if far:
                oth = [None]
            if c0["crs"] in ("lonlat", "sph") and any(abs(p[1]) > 80 or abs(p[0]) > 170 for p in flat(V)):
                continue
            before = snap(g)
            # the same query in two coordinate systems in turn, and again
            seq = [oth[s["i"] % len(oth)], oth[(s["i"] // 4) % len(oth)]]
            for o in [seq[0], seq[0], seq[1], seq[0]] if oth != [None] else [None, None]:
                a = query(g, kind, q, [o])
                fresh = build(kind, before[1], before[2], before[3], K)
                e = query(fresh, kind, q, [o])
                check(repr(a) == repr(e), "%s of %s %r in %s is %r, that of a new geometry with the same vertices is %r (queried before in %r)", q, kind, before[1], o, a, e, seq)
            if q in ("bbox", "extent", "coords", "vertices"):
                # asking for the coordinates in its own system changes nothing
                own = [repr(query(g, kind, q, [o])) for o in (c0["crs"], None)]
                check(own[0] == own[1], "%s of %s %r in its own coordinate system %s is %s, without a coordinate system %s", q, kind, before[1], c0["crs"], own[0], own[1])
            check(snap(g) == before, "%s changed the geometry from %r to %r", q, before, snap(g))
            ctx.label("two-systems", seq[0] != seq[1])
            nq += 1
            continue
        if op == "reproject":
            for o in OTHERS[c0["crs"]]:
                if any(abs(p[0] - PLACE[c0["crs"]][1]) > PLACE[c0["crs"]][0] * 60 or abs(p[1] - PLACE[c0["crs"]][2]) > PLACE[c0["crs"]][0] * 60 for p in flat(V)):
                    continue
                t = (lambda p: to(c0["crs"], o, [p])[0])
                C = crs(o)
                if kind == "Point":
                    got = [tuple(g.vertex(C))]; exp = [t(V)]
                elif kind in ("Line", "Multipoint", "Polygon"):
                    got = [tuple(v) for v in g.vertices(C)]; exp = [t(p) for p in (V[0] if kind == "Polygon" else V)]
                    xy = g.coords(C)
                    check(coords_close(np.array(xy).T, [e[:2] for e in exp], 1e-6), "coords in %s are %r, expected %r", o, xy, exp)
                    d2 = g.vertices(C, drop_z=True)
                    check(coords_close(d2, [e[:2] for e in exp], 1e-6), "vertices without z in %s are %r, expected %r", o, d2, exp)
                elif kind == "Multiline":
                    got = [tuple(v) for p in g.vertices(C) for v in p]; exp = [t(p) for q in V for p in q]
                else:
                    got = [tuple(v) for p in g.vertices(C) for r in p for v in r]; exp = [t(p) for q in V for r in q for p in r]
                check(coords_close(got, exp, 1e-6), "vertices in %s are %r, expected %r", o, got, exp)
            nq += 1
            continue
        before = snap(g)
        if op == "back":
            if past:
                k = s["i"] % len(past)
                g, V = past[k][0], past[k][1][1]
            continue
        sc = PLACE[c0["crs"]][0]
        if op == "mutate":
            new = [(v[0] * sc + PLACE[c0["crs"]][1], v[1] * sc + PLACE[c0["crs"]][2]) + ((3.0,) if c0["z"] else ()) for v in s["v"]]
            if kind == "Line":
                o = Line(new, crs=K)
                g.extend(o)
                V = list(V) + new
                past = [p for p in past if p[0] is not g]
            elif kind == "Multipoint" and len(g):
                k = s["i"] % len(g)
                g[k] = new[0]
                V = list(V); V[k] = new[0]
                cols = before[2]; cols = {f: [None if i == k else x for i, x in enumerate(col)] for f, col in cols.items()}
                past = [p for p in past if p[0] is not g]
                same(snap(g), kind, V, cols, props, K, 1e-9, op)
                # other geometries keep their own data
                for h, sn in past:
                    check(snap(h) == sn, "assignment changed another geometry from %r to %r", sn, snap(h))
                for f in list(cols):
                    cols = snap(g)[2]
                break
            else:
                continue
            same(snap(g), kind, V, cols, props, K, 1e-9, op)
            V = snap(g)[1]
            for h, sn in past:
                check(snap(h) == sn, "%s changed another geometry from %r to %r", op, sn, snap(h))
            continue
        if op == "shift":
            if kind in ("Multiline", "Multipolygon"):
                continue
            d = (s["d"][0] * sc, s["d"][1] * sc)
            h = g.shift(d)
            m = np.array([[1, 0, 0, d[0]], [0, 1, 0, d[1]], [0, 0, 1, 0.0]])
        elif op == "rotate":
            if kind in ("Multiline", "Multipolygon"):
                continue
            o = (0, 0) if s["o"] is None else (PLACE[c0["crs"]][1] + s["o"][0] * sc, PLACE[c0["crs"]][2] + s["o"][1] * sc)
            h = g.rotate(s["t"]) if s["o"] is None else g.rotate(s["t"], origin=o)
            a = math.radians(s["t"]); ct, stt = math.cos(a), math.sin(a)
            m = np.array([[ct, -stt, 0, o[0] - ct * o[0] + stt * o[1]], [stt, ct, 0, o[1] - stt * o[0] - ct * o[1]], [0, 0, 1, 0]])
        else:
            k = np.array(s["m"], dtype=float)
            if op == "affine":
                m2 = k.reshape(2, 3)
                h = g.apply_transform(m2.copy())
                m = np.array([[m2[0, 0], m2[0, 1], 0, m2[0, 2]], [m2[1, 0], m2[1, 1], 0, m2[1, 2]], [0, 0, 1, 0]])
            else:
                m = k.reshape(3, 4)
                h = g.apply_transform(m.copy())
        nt += 1
        def f(p):
            x, y, z = (p + (0.0,))[:3]
            return tuple(float(m[i, 0] * x + m[i, 1] * y + m[i, 2] * z + m[i, 3]) for i in range(len(p)))
        mag = max([1.0] + [abs(x) for p in flat(before[1]) for x in p]) * max(1.0, np.abs(m[:, :3]).max()) + np.abs(m[:, 3]).max()
        W = f(before[1]) if kind == "Point" else deep2(f, before[1])
        check(snap(g) == before, "%s changed the source from %r to %r", op, before, snap(g))
        sh = snap(h)
        same(sh, kind, W, cols, props, K, 1e-12 * mag * 10, op)
        check(h is not g, "%s returned the source", op)
        past.append((g, before))
        g, V = h, sh[1]
        if max(abs(x) for p in flat(V) for x in p) > 1e9:
            break
    for h, sn in past:
        check(snap(h) == sn, "an earlier geometry changed from %r to %r", sn, snap(h))
    ctx.nontrivial(nt >= 2 and nq >= 2)
    ctx.label(kind)


def deep2(f, v):
    return f(v) if isinstance(v, tuple) else [deep2(f, x) for x in v]


def change(v, i, f, z):
    """copy of v with the i-th vertex changed"""
    n = [0]
    tot = len(flat(v))
    def g(p):
        n[0] += 1
        return f(p) if n[0] - 1 == i % tot else p
    return deep2(g, v)


def pair(c, ctx):
    c0 = c["g"]; kind = c0["kind"]; K = crs(c0["crs"])
    V, cols, props = place(c0), c0["cols"], c0["props"]
    a = build(kind, V, cols, props, K)
    d = c["diff"]
    W, cols2, props2, K2, kind2 = V, {k: list(v) for k, v in cols.items()}, dict(props), K, kind
    if d == "vertex":
        W = change(V, c["i"], lambda p: (p[0], p[1] + c["d"] * PLACE[c0["crs"]][0]) + p[2:], None)
    elif d == "z":
        if not c0["z"]:
            raise Skip("no z")
        W = change(V, c["i"], lambda p: p[:2] + (p[2] + 1,), None)
    elif d == "prop":
        props2["q"] = "other"
    elif d == "crs":
        if c0["crs"] in ("cart", "utm"):
            K2 = crs("merc")
        else:
            raise Skip("equality of geographic systems is not defined")
    elif d == "drop":
        if kind == "Point" or len(V) < 3 or kind == "Polygon":
            raise Skip("few vertices")
        W = V[:-1]; cols2 = {k: v[:-1] for k, v in cols2.items()}
    elif d == "data":
        if not cols:
            raise Skip("no data")
        k = sorted(cols)[0]
        cols2[k] = list(cols2[k]); cols2[k][c["i"] % len(cols2[k])] = "other"
    elif d == "type":
        if kind == "Line":
            kind2, W = "Multipoint", V
        elif kind == "Multipoint" and len(V) > 1:
            kind2, cols2 = "Line", {}
        else:
            raise Skip("no other type")
    elif d == "sub":
        if kind != "Polygon" or len(V) < 2:
            raise Skip("no holes")
        W = V[:-1] if c["i"] % 2 else [V[0]] + [change(h, c["i"], lambda p: (p[0] + 0.125 * PLACE[c0["crs"]][0],) + p[1:], None) for h in V[1:]]
    b = build(kind2, W, cols2, props2, K2)
    if d == "none":
        check(bool(a == b) is True and bool(a != b) is False, "equal geometries compare as %r, %r", a == b, a != b)
        check(hash(a) == hash(b), "equal geometries have different hashes")
        if kind[:5] == "Multi":
            check(all(p in a for p in b), "a part of the geometry is not in it")
    else:
        check(bool(a == b) is False and bool(a != b) is True, "geometries that differ in %s compare as %r, %r", d, a == b, a != b)
    check(bool(a == a) is True, "a geometry is not equal to itself")
    for x in (None, 3, "x", (0, 0)):
        check(bool(a == x) is False, "geometry equals %r", x)
    ctx.nontrivial(); ctx.label(d)


CHECKS = {"history": history, "pair": pair}
