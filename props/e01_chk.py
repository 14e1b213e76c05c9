"""E01: impossible requests are refused and leave their objects as they were"""
import os, shutil, tempfile
import numpy as np
import karta
from karta.raster.grid import RegularGrid, merge
from karta.raster.misc import slope, aspect, gradient, divergence, normed_potential_vectors
from karta.raster.band import SimpleBand, CompressedBand
from karta.raster.read import from_geotiffs
from karta.vector.geometry import Point, Line, Polygon, Multipoint, Multiline, Multipolygon, affine_matrix
from karta.vector.table import Table
from karta.crs import Cartesian, LonLatWGS84, WebMercator, LonLatNAD83
from harness.rt import *
from harness.grids import *


def refused(what, fn, *a, **k):
    """call must raise; -> the exception"""
    try:
        r = fn(*a, **k)
    except Exception as e:
        return e
    fail("%s was accepted and gave %r", what, r)


def index(c, ctx):
    g = make(c["g"])
    v = full(g).copy()
    key = tuple(slice(None) if k == "slice" else k for k in c["key"])
    if c["set"]:
        e = refused("setting index %r of a grid of %r" % (key, v.shape), g.__setitem__, key, v.dtype.type(1))
    else:
        e = refused("index %r of a grid of %r" % (key, v.shape), lambda: g[key])
    check(isinstance(e, IndexError), "index %r of a grid of %r raised %r", key, v.shape, e)
    check(same(full(g), v), "a refused index changed the grid")
    ctx.nontrivial(v.size > 1)


def gridreq(c, ctx):
    spec = c["g"]; T = spec["T"]; req = c["req"]; a, b = c["a"], c["b"]
    g = make(spec)
    v = full(g).copy()
    ny, nx, nb = v.shape
    other = lambda size=(ny, nx), T=T, nb=nb, **kw: RegularGrid(T, values=np.ones(size + (nb,), v.dtype), nodata_value=g.nodata, **kw)
    order = (lambda x, y: [x, y]) if c["first"] else (lambda x, y: [y, x])
    d = None
    try:
        if req == "setshape":
            w = np.ones((ny + a, nx), v.dtype) if c["first"] else np.ones((ny, nx + a), v.dtype)
            refused("values of shape %r on a grid of %r" % (w.shape, v.shape), g.__setitem__, (slice(None), slice(None)), w)
        elif req in ("mask", "setmask"):
            m = np.ones([(ny + a, nx), (ny, nx + a), (ny,)][c["via"]], bool)
            if req == "mask":
                refused("a mask of shape %r on a grid of %r" % (m.shape, v.shape), lambda: g[m])
            else:
                refused("a mask of shape %r on a grid of %r" % (m.shape, v.shape), g.__setitem__, m, v.dtype.type(1))
        elif req == "bandsize":
            bc = SimpleBand if c["via"] else CompressedBand
            bs = [bc((ny, nx), v.dtype.type), bc((ny, nx), v.dtype.type), bc((ny + a, nx) if c["s"] > 0 else (ny, nx + a), v.dtype.type)]
            refused("bands of different sizes", RegularGrid, T, bands=bs if c["first"] else bs[1:])
        elif req == "transform":
            refused("a transform of %d terms" % (6 - a), RegularGrid, T[:6 - a] if c["first"] else T + [1.0] * a, values=v)
        elif req == "ndim":
            refused("values of rank 1 or 4", RegularGrid, T, values=v[:, 0, 0] if c["first"] else v[:, :, :, None])
        elif req == "skew-stencil":
            sk = [0.25 * T[2], 0.25 * T[3]]
            sk[c["via"] % 2] = 0.0 if c["via"] < 2 else sk[c["via"] % 2]
            o = RegularGrid(T[:4] + sk, values=v.astype(float))
            fn = [slope, aspect, gradient, divergence, normed_potential_vectors][(a + b) % 5]
            w = full(o).copy()
            refused("%s of a grid with skew %r" % (fn.__name__, sk), fn, *([o, o] if fn is divergence else [o]))
            check(same(full(o), w), "refusing %s changed the grid", fn.__name__)
        elif req == "stepset":
            key = (slice(None, None, 1 + a), slice(None)) if c["first"] else (slice(None), slice(None, None, 1 + a))
            n = v[key].shape[:2]
            if n == v.shape[:2]:
                raise Skip("one row")
            try:
                g[key] = v.dtype.type(7)
            except Exception:
                pass
            else:
                v[key] = 7
        elif req == "floatkey":
            k = [1.0, "a", None][c["via"]]
            key = [(k, 0), (0, k), (0, 0, k), k, (slice(None), k)][(a + b) % 5]
            if c["s"] > 0:
                refused("index %r" % (key,), lambda: g[key])
            else:
                refused("setting index %r" % (key,), g.__setitem__, key, v.dtype.type(1))
        elif req == "mask3":
            m = np.ones([(ny + a, nx, nb), (ny, nx + a, nb), (ny, nx, nb + a)][c["via"]], bool)
            refused("a mask of shape %r on a grid of %r" % (m.shape, v.shape), lambda: g[m])
        elif req == "nofiles":
            refused("stacking no files", from_geotiffs)
            refused("merging no grids", merge, [])
        elif req == "interp":
            refused("profile by an unknown method", g.profile, Line([(T[0] + T[2], T[1] + T[3]), (T[0] + 1.5 * T[2], T[1] + T[3])], crs=g.crs), method="cubic")
        elif req == "cartesian":
            o = other(crs=WebMercator)
            w = full(o).copy()
            coordinate = lambda crs: o.coordinates(crs=crs)[0, 0]
            x, y = T[0] + T[2], T[1] + T[3]
            fn, args, kw = [(o.mask_by_poly, [Polygon([(x, y), (x + T[2], y), (x, y + T[3])])], {}), (o.mask_by_poly, [Polygon([(x, y), (x + T[2], y), (x, y + T[3])])], {"inplace": True}),
                            (o.sample, [Point((x, y))], {}), (o.sample, [Multipoint([(x, y)])], {}), (o.profile, [Line([(x, y), (x + T[2], y)])], {}),
                            (o.bbox, [], {"crs": Cartesian}), (o.data_bbox, [], {"crs": Cartesian}), (o.extent, [], {"crs": Cartesian}), (coordinate, [], {"crs": Cartesian})][(3 * c["via"] + a + b) % 9]
            refused("%s of a projected grid with Cartesian coordinates" % fn.__name__, fn, *args, **kw)
            check(same(full(o), w), "refusing %s changed the grid", fn.__name__)
        elif req == "reference":
            refused("an unknown reference", [g.extent, g.data_extent][c["first"]], reference=["middle", "centre", ""][c["via"]])
        elif req == "resample":
            p = [(0.0, abs(T[3])), (abs(T[2]), 0.0), (abs(T[2]), -abs(T[3]))][c["via"]]
            refused("a resolution of %r" % (p,), g.resample, *p)
        elif req == "resample-method":
            refused("an unknown method", g.resample, abs(T[2]), abs(T[3]), method="cubic")
        elif req == "sample-method":
            x, y = T[0] + T[2], T[1] + T[3]
            refused("an unknown method", g.sample, *([[x], [y]] if c["via"] else [Point((x, y), crs=g.crs)]), method="cubic")
        elif req == "sample-length":
            x = [T[0] + T[2]] * (a + 1); y = [T[1] + T[3]] * (a + 1 + c["b"] + 1)
            fn = [g.sample, g.sample_nearest, g.sample_bilinear, g.positions][b]
            refused("%d and %d coordinates" % (len(x), len(y)), fn, *[np.array(q) for q in order(x, y)])
        elif req == "indices":
            i, j = ny / 2.0, nx / 2.0
            if c["first"]:
                i = ny + c["f"] + b if c["s"] > 0 else -c["f"] - b
            else:
                j = nx + c["f"] + b if c["s"] > 0 else -c["f"] - b
            x, y = T[0] + j * T[2], T[1] + i * T[3]
            xi, yi = T[0] + 0.5 * T[2], T[1] + 0.5 * T[3]
            args = [(x, y), ([xi, x], [yi, y]), (np.array([x, xi]), np.array([y, yi]))][c["via"]]
            e = refused("indices of a position outside the grid, row %r column %r of %dx%d" % (i, j, ny, nx), g.indices, *args)
            check(isinstance(e, IndexError), "indices outside the grid raised %r", e)
        elif req == "add":
            k = c["via"]
            o = [other(size=(ny + a, nx)), other(size=(ny, nx + a)), other(T=[T[0] + c["f"] * T[2]] + T[1:] if c["first"] else T[:2] + [T[2] * 2] + T[3:])][k]
            x, y = order(g, o)
            refused("the sum of unlike grids", lambda: x + y)
            refused("the difference of unlike grids", lambda: x - y)
        elif req.startswith("merge"):
            if req == "merge-res":
                o = other(T=T[:2] + ([T[2] * (1 + c["f"])] + T[3:] if c["via"] else [T[2], T[3] * (1 + c["f"])] + T[4:]))
            elif req == "merge-skew":
                o = other(T=T[:4] + ([0.25 * T[2], 0.0] if c["via"] else [0.0, 0.25 * T[3]]))
            elif req == "merge-offset":
                k = c["f"] + c["b"]
                o = other(T=[T[0] + k * T[2] * (c["via"] != 1), T[1] + k * T[3] * (c["via"] > 0)] + T[2:])
            elif req == "merge-bands":
                o = other(nb=nb + a)
            elif req == "merge-type":
                o = [v, None, g.bands[0]][c["via"]]
            else:
                gs = [g, other(), other()]
                w = [1.0] * (3 - a) if c["first"] else [1.0] * (3 + a)
                refused("%d weights for 3 grids" % len(w), merge, gs, weights=w)
            if req != "merge-weights":
                gs = order(g, o) if c["via"] else [g, g, o]
                refused("merging unlike grids (%s)" % req, merge, gs)
        elif req.startswith("aai"):
            d = tempfile.mkdtemp()
            T1 = [T[0], T[1], abs(T[2]), abs(T[2]), 0.0, 0.0]
            kw = {}
            if req == "aai-skew":
                o = other(T=T1[:4] + ([0.2, 0.0] if c["first"] else [0.0, 0.2]), nb=1)
            elif req == "aai-bands":
                o = other(T=T1, nb=1 + a)
            elif req == "aai-cells":
                o = other(T=T1[:3] + [T1[3] * (1 + c["f"] * c["s"]), 0.0, 0.0], nb=1)
            else:
                o = other(T=T1, nb=1)
                kw = {"reference": "middle"}
            refused("an ASCII grid (%s)" % req, o.to_aai, os.path.join(d, "x.asc"), **kw)
            check(os.listdir(d) == [], "a refused to_aai left a file")
        elif req.startswith("stack"):
            d = tempfile.mkdtemp()
            T1 = [T[0], T[1], abs(T[2]), abs(T[3]), 0.0, 0.0]
            if req == "stack-size":
                os_ = [other(T=T1, nb=1), other(size=(ny + a, nx) if c["via"] else (ny, nx + a), T=T1, nb=1)]
            elif req == "stack-crs":
                os_ = [other(T=T1, nb=1, crs=LonLatWGS84), other(T=T1, nb=1, crs=WebMercator)]
            else:
                T2 = list(T1); k = [0, 1, 2, 3, 4, 5][(a + b) % 6]; T2[k] += 0.25 * T1[2 + k % 2]
                os_ = [other(T=T1, nb=1), other(T=T2, nb=1)]
            if not c["first"]:
                os_ = os_[::-1]
            if c["s"] > 0:
                os_ = os_[:1] + os_
            fs = []
            for k, o in enumerate(os_):
                fs.append(os.path.join(d, "%d.tif" % k)); o.to_geotiff(fs[-1])
            refused("stacking files of unlike grids (%s)" % req, from_geotiffs, *fs)
        else:
            d = tempfile.mkdtemp()
            fn = [karta.read_geotiff, karta.read_aai, from_geotiffs][c["via"]]
            refused("reading a missing file", fn, os.path.join(d, "none"))
            check(os.listdir(d) == [], "reading a missing file created it")
    finally:
        if d:
            shutil.rmtree(d)
    check(same(full(g), v) and list(g.transform) == [float(t) for t in T], "the refused request %s changed the grid", req)
    ctx.label(req)
    ctx.nontrivial(v.size > 1)


def snapshot(g):
    d = getattr(g, "data", None)
    return ([[np.asarray(r).tolist() for r in p] if isinstance(p, list) else np.asarray(p).tolist() for p in g.vertices()] if g._geotype != "Point" else list(g.vertex()),
            dict(g.properties), None if d is None else (sorted(d.fields), [d.get(i) for i in range(len(d))]), g.crs)


def vector(c, ctx):
    t, n, req = c["type"], c["n"], c["req"]
    z = lambda i: (float(i),) if c["z"] else ()
    pts = lambda k, s=0.0: [(float((7 * i) % 11) + s, float((5 * i) % 13) - s) + z(i) for i in range(k)]
    tri = lambda s: [(s, s) + z(0), (s + 4.0, s) + z(1), (s, s + 3.0) + z(2)]
    data = {"f%d" % k: list(range(k, n + k)) for k in range(c["cols"])}
    mk = {"Point": lambda **k: Point(pts(2)[1], **k), "Line": lambda **k: Line(pts(n), **k), "Polygon": lambda **k: Polygon(pts(n), **k),
          "Multipoint": lambda **k: Multipoint(pts(n), **dict({"data": data}, **k)), "Multiline": lambda **k: Multiline([pts(3, i) for i in range(n)], **dict({"data": data}, **k)),
          "Multipolygon": lambda **k: Multipolygon([[tri(float(i))] for i in range(n)], **dict({"data": data}, **k))}[t]
    g = mk(properties={"name": "x"})
    before = snapshot(g)
    other = None
    if req in ("index", "rindex"):
        e = refused("part %d of %d" % (n + c["a"], n), lambda: g[n + c["a"]] if req == "index" else g[-n - 1 - c["a"]])
        check(isinstance(e, IndexError), "part %d of %d raised %r", n + c["a"], n, e)
    elif req == "key":
        refused("index %r" % (c["k"],), lambda: g[c["k"]])
    elif req in ("data", "tabledata"):
        m = n + c["d"]
        if m < 1:
            raise Skip("no rows")
        cols = dict(data)
        if req == "data":
            cols["f0"] = list(range(m))
        else:
            cols = Table({k: list(range(m)) for k in cols})
        refused("%s data of %d rows for %d parts" % (req, m, n), mk, data=cols)
    elif req == "field":
        e = refused("a missing field", lambda: g.d["none"])
        check(isinstance(e, KeyError), "a missing field raised %r", e)
    elif req == "fieldkey":
        if isinstance(c["k"], str):
            raise Skip("a field name")
        refused("field key %r" % (c["k"],), lambda: g.d[c["k"]])
    elif req == "setitem":
        refused("setting point %d of %d" % (n + c["a"], n), g.__setitem__, n + c["a"], (1.0, 2.0) + z(0))
    elif req == "affine":
        refused("an affine matrix of shape %r" % (c["m"],), g.apply_transform, np.ones(c["m"]))
    elif req == "shift":
        k = 3 + c["a"] if c["d"] > 0 else 1
        refused("a shift by %d numbers" % k, g.shift, (1.0,) * k)
    elif req == "extend-rank":
        other = Line([(0.0, 1.0), (1.0, 1.0)] if c["z"] else [(0.0, 1.0, 2.0), (1.0, 1.0, 3.0)])
        refused("extending by a line of another rank", g.extend, other)
    elif req == "extend-type":
        refused("extending a line by a polygon", g.extend, Polygon(tri(1.0)))
    elif req == "cart":
        if t == "Point":
            refused("geographic coordinates of a Cartesian point", g.vertex, crs=LonLatWGS84)
        else:
            refused("geographic coordinates of a Cartesian geometry", g.vertices, crs=LonLatWGS84)
            refused("projected coordinates of a Cartesian geometry", g.coords, crs=WebMercator)
        h = mk(crs=LonLatWGS84)
        refused("Cartesian coordinates of a geographic geometry", h.vertex if t == "Point" else h.vertices, crs=Cartesian)
    elif req == "dateline":
        refused("dateline crossing of a planar line", g.crosses_dateline)
    elif req == "polar":
        refused("poles of a planar polygon", g.ispolar)
    elif req == "within-type":
        refused("members within a line", g.within, Line([(0.0, 0.0), (9.0, 9.0)]))
    elif req == "touching-type":
        refused("members touching a cloud", g.touching, Multipoint([(0.0, 0.0), (9.0, 9.0)]))
    elif req == "pairs":
        m = n + c["d"]
        if m < 1:
            raise Skip("no points")
        refused("an affine map of %d to %d points" % (n, m), affine_matrix, Multipoint([p[:2] for p in pts(n)]), Multipoint([p[:2] for p in pts(m)]))
    elif req == "rank":
        k = 4 + c["a"] if c["d"] > 0 else 1
        refused("coordinates of rank %d" % k, {"Point": lambda: Point((1.0,) * k)}.get(t, lambda: {"Line": Line, "Polygon": Polygon, "Multipoint": Multipoint}[t]([(float(i),) * k for i in range(n)])))
    elif req == "properties":
        if c["k"] is None:
            raise Skip("no properties")
        refused("properties %r" % (c["k"],), Point, (1.0, 2.0), properties=c["k"])
    check(snapshot(g) == before, "the refused request %s changed the geometry", req)
    ctx.label("%s %s" % (t, req))
    ctx.nontrivial(t == "Point" or n > 1)


def table(c, ctx):
    n, nf, req = c["n"], c["f"], c["req"]
    F = ["a", "b", "c"][:nf]
    t = Table({f: [10 * k + i for i in range(n)] for k, f in enumerate(F)})
    rows = lambda: [t.get(i) for i in range(len(t))]
    before = rows()
    m = n + c["d"]
    f = "new" if c["new"] else F[c["c"] % nf]
    if req in ("setfield", "updated", "updatedt", "columns") and m < 1:
        raise Skip("no rows")
    if req == "setfield":
        refused("a field of %d values in a table of %d rows" % (m, n), t.setfield, f, list(range(m)))
    elif req == "updated":
        refused("a field of %d values in a table of %d rows" % (m, n), t.updated, {f: list(range(m))})
    elif req == "updatedt":
        refused("a table of %d rows for a table of %d rows" % (m, n), t.updated, Table({f: list(range(m))}))
    elif req == "get":
        e = refused("row %d of %d" % (n + c["a"], n), t.get, n + c["a"])
        check(isinstance(e, IndexError), "row %d of %d raised %r", n + c["a"], n, e)
    elif req == "negget":
        e = refused("row %d of %d" % (-n - 1 - c["a"], n), t.get, -n - 1 - c["a"])
        check(isinstance(e, IndexError), "row outside the table raised %r", e)
    elif req == "getfield":
        e = refused("a missing field", t.getfield, "none")
        check(isinstance(e, KeyError), "a missing field raised %r", e)
    elif req == "fields":
        k = nf + c["d"]
        if k < 1:
            raise Skip("no fields")
        refused("rows of %d values for %d fields" % (nf, k), Table, [tuple(range(nf)) for _ in range(n)], fields=["f%d" % i for i in range(k)])
    elif req == "columns":
        if nf < 2:
            raise Skip("one field")
        cols = {q: list(range(n)) for q in F}
        cols[F[c["c"] % nf]] = list(range(m))
        refused("columns of unequal lengths %r" % ({k: len(v) for k, v in cols.items()},), Table, cols)
    elif req == "types":
        if n < 2:
            raise Skip("one row")
        col = list(range(n)); col[1 + c["c"] % (n - 1)] = "x"
        cols = {q: list(range(n)) for q in F}
        cols[F[c["a"] % nf]] = col
        refused("a column of several types", Table, cols, checktypes=True)
        check(len(Table({q: list(range(n)) for q in F}, checktypes=True)) == n, "a table of constant types")
    else:
        refused("a table of nothing", Table, **({"fields": F} if c["new"] else {}))
    check(rows() == before and t.fields == set(F), "the refused request %s changed the table", req)
    ctx.label(req)
    ctx.nontrivial(n > 1)


def files(c, ctx):
    d = tempfile.mkdtemp()
    p = os.path.join(d, "x")
    n, m, req = c["n"], c["m"], c["req"]
    try:
        if req.startswith("aai"):
            H = ["ncols %d" % m, "nrows 2", "xllcorner 0", "yllcorner 0", "cellsize 1"]
            rows = [" ".join(["1"] * m)] * 2
            if req == "aai-header":
                del H[n]
            else:
                rows = rows[:1] + [rows[1] + " 4"] if n % 2 else rows + rows[:1]
            with open(p + ".asc", "w") as f:
                f.write("\n".join(H + rows) + "\n")
            refused("an ASCII grid with header %r and rows %r" % (H, rows), karta.read_aai, p + ".asc")
        else:
            text = {"geotiff": "II*", "shp": "shape", "geojson": '{"type": "Point", "coordinates": [1, ' if n % 2 else '{"type": "Nothing"}', "gpx": "<gpx><wpt", "empty": ""}[req]
            fns = {"geotiff": [karta.read_geotiff], "shp": [karta.read_shapefile], "geojson": [karta.read_geojson], "gpx": [karta.read_gpx_waypts, karta.read_gpx_tracks],
                   "empty": [karta.read_geotiff, karta.read_aai, karta.read_geojson, karta.read_gpx_waypts, karta.read_gpx_tracks]}[req]
            fn = fns[n % len(fns)]
            with open(p, "w") as f:
                f.write(text)
            refused("%s of %r" % (fn.__name__, text), fn, p)
            with open(p) as f:
                check(f.read() == text and os.listdir(d) == ["x"], "reading changed the file")
    finally:
        shutil.rmtree(d)
    ctx.label(req)
    ctx.nontrivial()


CHECKS = {"index": index, "grid": gridreq, "vector": vector, "table": table, "files": files}
