from harness.geo import *
SINGLE = {"point": Point, "line": Line, "poly": Polygon}
MULTI = {"point": Multipoint, "line": Multiline, "poly": Multipolygon}


def tup(kind, p):
    if kind == "point":
        return tuple(float(q) for q in p)
    if kind == "line":
        return [tuple(float(q) for q in v) for v in p]
    return [[tuple(float(q) for q in v) for v in r] for r in p]


def single(kind, p, props):
    if kind == "poly":
        return Polygon(p[0], subs=[Polygon(r) for r in p[1:]], properties=props)
    return SINGLE[kind](tuple(p) if kind == "point" else p, properties=props)


def got(kind, g):
    """vertices of a single-part geometry"""
    if kind == "point":
        return tuple(float(q) for q in g.vertex())
    if kind == "line":
        return verts(g)
    return [verts(g)] + [verts(s) for s in g.subs]


def build(kind, m):
    n = len(m["parts"])
    rows = [{f: m["cols"][f][i] for f in m["cols"]} for i in range(n)]
    parts = [tup(kind, p) for p in m["parts"]]
    if m["asparts"]:
        g = MULTI[kind]([single(kind, p, dict(r)) for p, r in zip(m["parts"], rows)], properties=dict(m["props"]))
    else:
        g = MULTI[kind](m["parts"], data={f: list(v) for f, v in m["cols"].items()}, properties=dict(m["props"]))
    return g, parts, rows, dict(m["props"])


def agree(kind, g, parts, rows, props, fields, what):
    n = len(parts)
    check(type(g) is MULTI[kind], "%s: is a %s", what, type(g).__name__)
    check(len(g) == n, "%s: %d parts, expected %d", what, len(g), n)
    check(len(g.data) == n, "%s: %d parts but %d rows of data", what, n, len(g.data))
    if kind == "point":
        check([tuple(map(float, v)) for v in g.vertices()] == parts if n else True, "%s: vertices %r, expected %r", what, g.vertices().tolist() if n else None, parts)
    elif kind == "line":
        check([[tuple(map(float, v)) for v in l] for l in g.vertices()] == parts, "%s: vertices differ from %r", what, parts)
    else:
        check([[[tuple(map(float, v)) for v in r] for r in l] for l in g.vertices()] == parts, "%s: vertices differ from %r", what, parts)
    have = set(g.data.fields)
    check(fields <= have and have <= fields | set(props), "%s: data fields %r, expected %r (properties %r)", what, sorted(have), sorted(fields), sorted(props))
    check(g.properties == props, "%s: properties %r, expected %r", what, g.properties, props)
    for f in fields:
        if f not in props:
            check(list(g.d[f]) == [r[f] for r in rows], "%s: field %r is %r, expected %r", what, f, g.d[f], [r[f] for r in rows])
    k = 0
    for i, s in enumerate(g):
        exp = dict(rows[i]); exp.update(props)
        check(type(s) is SINGLE[kind], "%s: part %d is a %s", what, i, type(s).__name__)
        check(got(kind, s) == parts[i], "%s: part %d has vertices %r, expected %r", what, i, got(kind, s), parts[i])
        check(s.properties == exp, "%s: part %d has properties %r, expected %r", what, i, s.properties, exp)
        k += 1
    check(k == n, "%s: iteration gave %d parts of %d", what, k, n)


def bb(kind, p):
    q = p if kind == "line" else p[0]
    return min(v[0] for v in q), min(v[1] for v in q), max(v[0] for v in q), max(v[1] for v in q)


def history(c, ctx):
    kind = c["kind"]
    g, parts, rows, props = build(kind, c["m"])
    fields = set(c["m"]["cols"])
    agree(kind, g, parts, rows, props, fields, "new geometry")
    made, maxn = 0, len(parts)
    old = []
    for op in c["ops"]:
        k, n = op[0], len(parts)
        if n == 0:
            break
        prev = (g, parts, rows, props, fields)
        if k == "index":
            i = op[1] if -n <= op[1] < n else 0
            exp = dict(rows[i]); exp.update(props)
            s = g[i]
            check(type(s) is SINGLE[kind] and got(kind, s) == parts[i] and s.properties == exp and s.crs is g.crs,
                  "part %d is %r %r, expected %r %r", i, got(kind, s), s.properties, parts[i], exp)
            check(s in g, "part %d is not found in its geometry", i)
            s.properties["new"] = 1
            t = single(kind, [99] * 2 if kind == "point" else [[99, 0], [99, 9], [98, 9]] if kind == "line" else [[[99, 0], [99, 9], [98, 9]]], {})
            check(t not in g, "a geometry that is not a part was found")
            check(raises(IndexError, lambda: g[n]), "index past the end did not raise IndexError")
        elif k == "slice":
            s = slice(*op[1:])
            g, parts, rows = g[s], parts[s], rows[s]; made += 1
        elif k == "rebuild":
            if kind == "poly" and not (fields or props):
                continue
            g = MULTI[kind](list(g))
            fields = fields | set(props)
            rows = [dict(r, **props) for r in rows]; props = {}; made += 1
        elif k in ("shift", "rotate"):
            if k == "shift":
                f = lambda v: (v[0] + op[1], v[1] + op[2]) + tuple(v[2:])
                M = np.array([[1, 0, op[1]], [0, 1, op[2]]], float)
            else:
                f = lambda v: (-v[1], v[0]) + tuple(v[2:])
                M = np.array([[0, -1, 0], [1, 0, 0]], float)
            g = g.apply_transform(M)
            mp = (lambda v: f(v)) if kind == "point" else (lambda p: [f(v) for v in p]) if kind == "line" else (lambda p: [[f(v) for v in r] for r in p])
            parts = [mp(p) for p in parts]; made += 1
        elif k == "bbox":
            b = op[1]
            if kind == "point":
                idx = [i for i, p in enumerate(parts) if b[0] < p[0] < b[2] and b[1] < p[1] < b[3]]
            else:
                bs = [bb(kind, p) for p in parts]
                idx = [i for i, q in enumerate(bs) if b[0] < q[0] and q[2] < b[2] and b[1] < q[1] and q[3] < b[3]]
                if kind == "poly" and not (fields or props):
                    continue
            g = g.within_bbox(tuple(b))
            parts, rows = [parts[i] for i in idx], [rows[i] for i in idx]; made += 1
            if kind != "point":
                fields = fields | set(props)
                rows = [dict(r, **props) for r in rows]; props = {}
                if not idx:
                    fields = set()
        elif k == "merge":
            items, at = [], op[2]
            for how, m in op[1]:
                og, op_, or_, pr = build(kind, m)
                if how == "single":
                    items.append((single(kind, m["parts"][0], dict(or_[0])), op_[:1], or_[:1], set(or_[0])))
                else:
                    items.append((og, op_, or_, set(m["cols"])))
            allp = props
            dataf = set(g.data.fields)
            items.insert(at, (g, parts, [dict(r, **{q: props[q] for q in dataf & set(props) if q not in r}) for r in rows], dataf))
            its = [i[0] for i in items]
            ng = MULTI[kind].merge(*its)
            for x, p, r, f in items:
                if type(x) is MULTI[kind] and x is not g:
                    check(len(x) == len(p) and len(x.data) == len(p), "an item changed when it was merged")
            fields = set.intersection(*[i[3] for i in items])
            parts = sum([i[1] for i in items], [])
            rows = [{f: r[f] for f in fields} for i in items for r in i[2]]
            rk = [len(v) for p in parts for v in ([p] if kind == "point" else p if kind == "line" else sum(p, []))]
            if min(rk) != max(rk):
                q = min(rk)
                parts = [p[:q] if kind == "point" else [v[:q] for v in p] if kind == "line" else [[v[:q] for v in r] for r in p] for p in parts]
            agree(kind, g, prev[1], prev[2], prev[3], prev[4], "a geometry, after it was merged")
            g, props = ng, {}; made += 1
        elif k == "setitem":
            i = op[1] if -n <= op[1] < n else 0
            v, p = op[2], dict(op[3])
            if len(v) != len(parts[0]):
                continue
            parts, rows = list(parts), list(rows)
            parts[i] = tup(kind, v)
            have = list(g.data.fields)
            if op[4]:
                g[i] = Point(v, properties=p)
                rows[i] = {f: p.get(f) for f in fields}
            else:
                g[i] = tuple(v)
                rows[i] = {f: None for f in fields}
            x = g.within_bbox((v[0] - 0.5, v[1] - 0.5, v[0] + 0.5, v[1] + 0.5))
            check(len(x) == sum(q[:2] == tuple(map(float, v[:2])) for q in parts), "search after an assignment found %d points at %r", len(x), v)
            old = []
            prev = (g, parts, rows, props, fields)
        elif k == "iter":
            check(len(list(g)) == n, "list() gave %d parts", len(list(g)))
        agree(kind, g, parts, rows, props, fields, "after %s" % (op[0],))
        if k != "setitem" and prev[0] is not g:
            old.append(prev)
        maxn = max(maxn, len(parts))
    for o in old:
        agree(kind, *(o + ("an earlier geometry",)))
    ctx.nontrivial(maxn >= 2 and made >= 2 and len(c["m"]["cols"]) > 0)
    ctx.label(kind)


def mixed(c, ctx):
    kind = c["kind"]
    gs, coords = [], []
    for it in c["items"]:
        xy = to("lonlat", it["crs"], it["xy"])
        rings = [xy]
        if it["sub"]:
            rings.append([(0.5 * a[0] + 0.5 * xy[0][0], 0.5 * a[1] + 0.5 * xy[0][1]) for a in xy])
        if it["z"] is not None:
            rings = [[p + (it["z"],) for p in r] for r in rings]
        K = crs(it["crs"])
        if kind == "point":
            g = Point(rings[0][0], crs=K, properties=dict(it["props"]))
        elif kind == "line":
            g = Line(rings[0], crs=K, properties=dict(it["props"]))
        else:
            g = Polygon(rings[0], subs=[Polygon(r, crs=K) for r in rings[1:]], crs=K, properties=dict(it["props"]))
        gs.append(g); coords.append(rings)
    out = c["crs"] or c["items"][0]["crs"]
    kw = {"crs": crs(out)} if c["crs"] else {}
    how = c["how"]
    if how == "add" and len(gs) < 2:
        how = "merge"
    zs = [it["z"] is not None for it in c["items"]]
    if how == "merge":
        if any(zs) and not all(zs):
            coords = [[[p[:2] for p in r] for r in rs] for rs in coords]
        m = MULTI[kind].merge(*gs, **kw)
    elif how == "new":
        if any(zs) and not all(zs):
            raise Skip("mixed rank")
        m = MULTI[kind](gs, **kw)
    else:
        # geometry + geometry
        if zs[0] != zs[1]:
            raise Skip("mixed rank")
        out = c["items"][0]["crs"]
        m = gs[0] + gs[1]
        coords = coords[:2]
    check(type(m) is MULTI[kind] and len(m) == len(coords), "%s of %d geometries gave %d parts", how, len(coords), len(m))
    check(m.crs is crs(out), "%s: result has crs %r", how, m.crs)
    tol = 1e-8 if out == "lonlat" else 1e-3
    for i, rs in enumerate(coords):
        exp = [to(c["items"][i]["crs"], out, r) for r in rs]
        s = m[i] if (how != "add") else None
        gv = m.vertices()[i]
        if kind == "point":
            ok = coords_close(gv, exp[0][0], tol)
        elif kind == "line":
            ok = coords_close(gv, exp[0], tol)
        else:
            ok = len(gv) == len(exp) and all(coords_close(a, b, tol) for a, b in zip(gv, exp))
        check(ok, "%s: part %d has vertices %r, expected %r", how, i, gv, exp)
        if how != "add":
            common = set.intersection(*[set(q["props"]) for q in c["items"]])
            check(s.properties == {k: c["items"][i]["props"][k] for k in common}, "%s: part %d has properties %r", how, i, s.properties)
    for g, rs, it in zip(gs, coords, c["items"]):
        check(g.properties == it["props"] and g.crs is crs(it["crs"]), "%s changed the properties or crs of an input", how)
    ctx.nontrivial(len(coords) >= 2 and len(set(it["crs"] for it in c["items"])) > 1)
    ctx.label(kind)


CHECKS = {"history": history, "mixed": mixed}
