import math
import numpy as np
from karta.raster.grid import RegularGrid, merge as kmerge
from karta.crs import WebMercator, LonLatWGS84, Cartesian
from harness import oracles
from harness.rt import *
from harness.grids import *


def xy(T, i, j):
    return T[0] + j * T[2] + i * T[4], T[1] + i * T[3] + j * T[5]


def ij(T, x, y):
    det = T[2] * T[3] - T[4] * T[5]
    X, Y = x - T[0], y - T[1]
    return (Y * T[2] - X * T[5]) / det, (X * T[3] - Y * T[4]) / det


def tol_ij(T):
    return 1e-6 + 1e-12 * max(abs(T[0]), abs(T[1])) / min(abs(T[2]), abs(T[3]))


def frac_close(v, t):
    return abs(v - round(v)) <= t


def aligned(T, Tn, t, what):
    """the new origin is an integer number of cells away; returns (di, dj)"""
    check(allclose(Tn[2:], T[2:], 1e-12, 0), "%s changed the resolution/skew: %r -> %r", what, T, Tn)
    di, dj = ij(T, Tn[0], Tn[1])
    check(frac_close(di, t) and frac_close(dj, t), "%s: new origin %r is not on the old cell lattice %r", what, Tn[:2], T)
    return int(round(di)), int(round(dj))


def meta(g, r, what):
    check(r.crs == g.crs, "%s changed the coordinate system", what)
    check(r.nbands == g.nbands, "%s changed the number of bands: %d -> %d", what, g.nbands, r.nbands)
    check(same(np.array([r.nodata]), np.array([g.nodata])), "%s changed the nodata value: %r -> %r", what, g.nodata, r.nodata)
    check(np.dtype(r.values.dtype) == np.dtype(g.values.dtype), "%s changed the data type: %r -> %r", what, g.values.dtype, r.values.dtype)


def clip(c, ctx):
    spec = dict(c["g"])
    if c["merc"]:
        T0 = spec["T"]
        spec["T"] = [T0[0] * 1e4, T0[1] * 1e4, T0[2] * 1e3, T0[3] * 1e3, 0.0, 0.0]
    T = spec["T"]
    g = make(spec, crs=WebMercator if c["merc"] else None)
    v = values(spec)
    ny, nx, nb = v.shape
    i0, i1, j0, j1 = c["b"]
    if T[4] or T[5]:
        cs = [xy(T, a, b) for a in (i0, i1) for b in (j0, j1)]
        box = [min(p[0] for p in cs), max(p[0] for p in cs), min(p[1] for p in cs), max(p[1] for p in cs)]
    else:
        a, b = xy(T, i0, j0), xy(T, i1, j1)
        box = sorted([a[0], b[0]]) + sorted([a[1], b[1]])
    t = tol_ij(T)
    ii, jj = np.meshgrid(np.arange(ny) + 0.5, np.arange(nx) + 0.5, indexing="ij")
    X, Y = xy(T, ii, jj)
    tx, ty = t * abs(T[2]) + t * abs(T[4]), t * abs(T[3]) + t * abs(T[5])
    sure = (X > box[0] + tx) & (X < box[1] - tx) & (Y > box[2] + ty) & (Y < box[3] - ty)
    maybe = (X > box[0] - tx) & (X < box[1] + tx) & (Y > box[2] - ty) & (Y < box[3] + ty)
    if not sure.any():
        raise Skip("no cell centre in the box")
    if c["merc"]:
        bx, by = oracles.proj("EPSG:3857", "EPSG:4326").transform([box[0], box[1]], [box[2], box[3]])
        r = g.clip(bx[0], bx[1], by[0], by[1], crs=LonLatWGS84)
    else:
        if spec["pat"][1] % 4 == 0:
            # a copy is in the same coordinate system
            g = g.copy()
        kw = {"crs": Cartesian} if spec["pat"][0] % 4 == 0 else {}
        ctx.label("own system", kw)
        r = g.clip(*box, **kw)
    meta(g, r, "clip")
    di, dj = aligned(T, r.transform, t, "clip")
    rv = full(r)
    rn, rm = rv.shape[:2]
    check(0 <= di and di + rn <= ny and 0 <= dj and dj + rm <= nx, "clip result covers rows %d..%d columns %d..%d of a %dx%d grid", di, di + rn, dj, dj + rm, ny, nx)
    if not same(rv, v[di:di+rn, dj:dj+rm]):
        fail("clip moved values: %s", diff(rv, v[di:di+rn, dj:dj+rm]))
    inres = np.zeros((ny, nx), bool)
    inres[di:di+rn, dj:dj+rm] = True
    check(not (sure & ~inres).any(), "clip to %r lost cells whose centres are inside the box (result rows %d..%d cols %d..%d)", box, di, di + rn, dj, dj + rm)
    if not (T[4] or T[5]):
        check(not (inres & ~maybe).any(), "clip to %r kept cells whose centres are outside the box (rows %d..%d cols %d..%d of %dx%d)", box, di, di + rn, dj, dj + rm, ny, nx)
    if not same(full(g), v):
        fail("clip changed the source grid")
    # independence of the result
    r[:, :, :] = np.zeros_like(rv)
    check(same(full(g), v), "writing to the clipped grid changed the source")
    ctx.label("partial-overlap", i0 < 0 or j0 < 0 or i1 > ny or j1 > nx)
    ctx.label("skewed", T[4] or T[5])
    ctx.nontrivial(inres.any() and not inres.all())


def resize(c, ctx):
    spec = c["g"]; T = spec["T"]
    g = make(spec); v = values(spec)
    ny, nx, nb = v.shape
    adx, ady = abs(T[2]), abs(T[3])
    bb = [min(T[0], T[0] + nx * T[2]), min(T[1], T[1] + ny * T[3])]
    x0 = bb[0] + c["off"][1] * adx
    y0 = bb[1] + c["off"][0] * ady
    x1 = x0 + (c["n"][1] - c["frac"][1]) * adx
    y1 = y0 + (c["n"][0] - c["frac"][0]) * ady
    r = g.resize((x0, y0, x1, y1))
    meta(g, r, "resize")
    t = tol_ij(T)
    check(allclose(r.transform[2:], T[2:], 1e-12, 0), "resize changed the resolution: %r -> %r", T, r.transform)
    rv = full(r)
    rn, rm = rv.shape[:2]
    rb = r.bbox()
    # the box is extended by less than one cell to a whole number of cells
    lo_x, hi_x = x1 - t * adx, x1 + adx * (1 + t)
    if T[2] > 0:
        check(close(rb[0], x0, 1e-12, t * adx), "resize: left edge %r, requested %r", rb[0], x0)
        check(lo_x <= rb[2] <= hi_x, "resize: right edge %r, requested %r", rb[2], x1)
    else:
        check(close(rb[2], x1, 1e-12, t * adx) or close(rb[0], x0, 1e-12, t * adx), "resize: neither x edge of %r matches the request %r", rb, (x0, x1))
        check(rb[0] <= x0 + t * adx and rb[2] >= x1 - t * adx and rb[2] - rb[0] <= x1 - x0 + adx * (1 + t), "resize: x range %r for request %r", (rb[0], rb[2]), (x0, x1))
    if T[3] > 0:
        check(close(rb[1], y0, 1e-12, t * ady), "resize: bottom edge %r, requested %r", rb[1], y0)
        check(y1 - t * ady <= rb[3] <= y1 + ady * (1 + t), "resize: top edge %r, requested %r", rb[3], y1)
    else:
        check(rb[1] <= y0 + t * ady and rb[3] >= y1 - t * ady and rb[3] - rb[1] <= y1 - y0 + ady * (1 + t), "resize: y range %r for request %r", (rb[1], rb[3]), (y0, y1))
    # every cell holds the value of the nearest old cell, or nodata outside
    di, dj = ij(T, r.transform[0], r.transform[1])
    kept = judged = 0
    for i in range(rn):
        pi = i + 0.5 + di
        if frac_close(pi, 1e-5):
            continue
        for j in range(rm):
            pj = j + 0.5 + dj
            if frac_close(pj, 1e-5):
                continue
            judged += 1
            oi, oj = int(math.floor(pi)), int(math.floor(pj))
            if 0 <= oi < ny and 0 <= oj < nx:
                kept += 1
                check(same(rv[i, j], v[oi, oj]), "resize: cell (%d,%d) is %r, the original value there is %r", i, j, rv[i, j].tolist(), v[oi, oj].tolist())
            else:
                e = np.full(nb, g.nodata, dtype=v.dtype)
                check(same(rv[i, j], e), "resize: cell (%d,%d) lies outside the original grid but holds %r", i, j, rv[i, j].tolist())
    check(same(full(g), v), "resize changed the source grid")
    ctx.label("disjoint", judged and not kept); ctx.label("negative", T[2] < 0 or T[3] < 0); ctx.label("judged", judged)
    ctx.nontrivial(0 < kept < judged)


def resample(c, ctx):
    spec = c["g"]; T = spec["T"]
    g = make(spec); v = values(spec).astype(float)
    ny, nx, nb = v.shape
    dx, dy = abs(T[2]) * c["f"][0], abs(T[3]) * c["f"][1]
    r = g.resample(dx, dy, **unless("nearest", method=c["method"]))
    meta_ok = r.crs == g.crs and r.nbands == nb
    check(meta_ok, "resample changed crs or band count (%d -> %d)", nb, r.nbands)
    Tn = r.transform
    check(allclose([abs(Tn[2]), abs(Tn[3])], [dx, dy], 1e-12, 0), "resample(%r, %r) produced resolution %r", dx, dy, Tn[2:4])
    rv = full(r).astype(float)
    rn, rm = rv.shape[:2]
    ii, jj = np.meshgrid(np.arange(ny) + 0.5, np.arange(nx) + 0.5, indexing="ij")
    X, Y = xy(T, ii, jj)
    ri, rj = np.meshgrid(np.arange(rn) + 0.5, np.arange(rm) + 0.5, indexing="ij")
    RX, RY = xy(Tn, ri, rj)
    t = tol_ij(T)
    # cells of the result in units of cells of the grid, counted from its first centre along increasing x and y
    pi, pj = ij(T, RX, RY)
    U = (pi - 0.5 if T[3] > 0 else ny - 0.5 - pi); V = (pj - 0.5 if T[2] > 0 else nx - 0.5 - pj)
    fi, fj = dy / abs(T[3]), dx / abs(T[2])
    e = max(t, 1e-9) * 4
    check(abs(U[0, 0]) <= e and abs(V[0, 0]) <= e, "resample moved the first cell centre by %r rows and %r columns", U[0, 0], V[0, 0])
    check(np.abs(U - np.arange(rn)[:, None] * fi).max() <= e and np.abs(V - np.arange(rm)[None, :] * fj).max() <= e, "resample changed the directions of rows and columns: %r to %r", T, Tn)
    # coverage: no further centre would fit, none lies beyond the last original centre
    check(V.max() <= nx - 1 + e and V.max() + fj > nx - 1 - e, "resampled columns reach %r of %r, step %r", V.max(), nx - 1, fj)
    check(U.max() <= ny - 1 + e and U.max() + fi > ny - 1 - e, "resampled rows reach %r of %r, step %r", U.max(), ny - 1, fi)
    judged = 0
    for a in range(rn):
        for b in range(rm):
            pi, pj = ij(T, RX[a, b], RY[a, b])
            if c["method"] == "nearest":
                if frac_close(pi, 1e-5) or frac_close(pj, 1e-5):
                    continue
                e = v[int(math.floor(pi)), int(math.floor(pj))]
                tol = 1e-6
            else:
                i, j = pi - 0.5, pj - 0.5
                if min(i, j, ny - 1 - i, nx - 1 - j) < 1e-5:
                    # on the outermost centres rounding may tip the point outside
                    if np.all(rv[a, b] != rv[a, b]) or np.all(rv[a, b] == g.nodata):
                        continue
                i0 = min(max(int(math.floor(i)), 0), ny - 2); j0 = min(max(int(math.floor(j)), 0), nx - 2)
                fa, fb = i - i0, j - j0
                e = v[i0, j0]*(1-fa)*(1-fb) + v[i0+1, j0]*fa*(1-fb) + v[i0, j0+1]*(1-fa)*fb + v[i0+1, j0+1]*fa*fb
                tol = 1e-5 * (1 + np.abs(v).max()) + (1 if spec["dtype"].startswith("int") else 0)
            judged += 1
            check(bool(np.all(np.abs(rv[a, b] - e) <= tol)), "resample(%s): cell (%d,%d) at %r is %r, expected %r", c["method"], a, b, (RX[a, b], RY[a, b]), rv[a, b].tolist(), e.tolist())
    ctx.label("skewed", T[4] or T[5]); ctx.label(c["method"]); ctx.label("one-row-or-column", rn == 1 or rm == 1)
    ctx.nontrivial(judged > 1 and c["f"] != [1.0, 1.0])


def chunks(c, ctx):
    spec = c["g"]; T = spec["T"]
    g = make(spec); v = values(spec)
    ny, nx, nb = v.shape
    kw = {}
    if c["size"] is not None:
        kw = {"size": tuple(c["size"]), "overlap": tuple(c["overlap"]), "copy": c["copy"]}
    cover = np.zeros((ny, nx), int)
    n = 0
    t = tol_ij(T)
    limit = 3 * (ny + 1) * (nx + 1) + 10
    for ch in g.aschunks(**kw):
        n += 1
        check(n <= limit, "aschunks yields more chunks (%d) than the grid has cells", n)
        meta(g, ch, "aschunks")
        di, dj = aligned(T, ch.transform, t, "aschunks")
        cv = full(ch)
        h, w = cv.shape[:2]
        check(h > 0 and w > 0, "empty chunk")
        check(0 <= di and di + h <= ny and 0 <= dj and dj + w <= nx, "chunk lies outside the grid: row %d col %d size %dx%d in %dx%d", di, dj, h, w, ny, nx)
        if c["size"] is not None:
            check(h <= c["size"][1] and w <= c["size"][0], "chunk of %d rows x %d columns is larger than requested %r (columns, rows)", h, w, c["size"])
        if not same(cv, v[di:di+h, dj:dj+w]):
            fail("chunk values: %s", diff(cv, v[di:di+h, dj:dj+w]))
        cover[di:di+h, dj:dj+w] += 1
    check((cover > 0).all(), "aschunks(%r) does not cover cell %r", kw, [int(q) for q in np.argwhere(cover == 0)[0]] if (cover == 0).any() else None)
    if c["overlap"] == [0, 0]:
        check((cover == 1).all(), "aschunks(%r) without overlap repeats cells", kw)
    check(same(full(g), v), "aschunks changed the grid")
    ctx.label("default-size", c["size"] is None); ctx.label("overlap", c["overlap"] != [0, 0])
    ctx.nontrivial(n > 1)


def merge(c, ctx):
    T = c["T"]
    gs, mods = [], []
    dts = [np.dtype(q["g"]["dtype"]) for q in c["grids"]]
    dt = np.result_type(*dts)
    isint = dt.kind in "iu"
    ctx.label("integers with floats", len(set(d.kind == "f" for d in dts)) > 1)
    for q in c["grids"]:
        spec = dict(q["g"])
        nds = [250, 255] if spec["dtype"] == "uint8" else ([-9999, -1] if np.dtype(spec["dtype"]).kind in "iu" else [float("nan"), -9999.0])
        nd = nds[q.get("nd", 0)]
        v = values(spec)
        ny, nx, nb = v.shape
        for a, b, k in q["holes"]:
            v[a % ny, b % nx, k] = nd
        oi, oj = q["off"]
        ox, oy = xy(T, oi, oj)
        spec["T"] = [ox, oy] + T[2:]
        gs.append(make(spec, nodata=nd, vals=v))
        mods.append((oi, oj, v, nd))
    nd = mods[0][3]
    if c["bad"]:
        spec = dict(c["grids"][0]["g"]); spec["T"] = [T[0] + 0.5 * T[2], T[1] + 0.5 * T[5]] + T[2:]
        bad = make(spec, nodata=nd)
        check(raises(ValueError, kmerge, gs + [bad]), "merge accepted a grid offset by half a cell")
        ctx.label("rejected")
    r = kmerge(gs, weights=c["w"]) if c["w"] is not None else kmerge(gs)
    t = tol_ij(T)
    w = c["w"] or [1.0] * len(gs)
    i0 = min(m[0] for m in mods); j0 = min(m[1] for m in mods)
    i1 = max(m[0] + m[2].shape[0] for m in mods); j1 = max(m[1] + m[2].shape[1] for m in mods)
    nb = mods[0][2].shape[2]
    num = np.zeros((i1 - i0, j1 - j0, nb)); den = np.zeros((i1 - i0, j1 - j0))
    cnt = np.zeros((i1 - i0, j1 - j0), int)
    for (oi, oj, v, n), wk in zip(mods, w):
        ok = np.all((v == v) if n != n else (v != n), axis=2)
        a, b = oi - i0, oj - j0
        h, k = ok.shape
        num[a:a+h, b:b+k][ok] += v[ok].astype(float) * wk
        den[a:a+h, b:b+k][ok] += wk
        cnt[a:a+h, b:b+k][ok] += 1
    di, dj = aligned(T, r.transform, t, "merge")
    rv = full(r)
    check((di, dj) == (i0, j0) and rv.shape == num.shape, "merge covers rows %d+%d columns %d+%d, inputs cover rows %d+%d columns %d+%d",
          di, rv.shape[0], dj, rv.shape[1], i0, i1 - i0, j0, j1 - j0)
    valid = cnt > 0
    if (~valid).any():
        e = np.full((int((~valid).sum()), nb), nd, dtype=dt)
        check(same(rv[~valid], e), "merge: cells no input covers hold %r, nodata is %r", rv[~valid][0].tolist(), nd)
    with np.errstate(all="ignore"):
        e = num / den[:, :, None]
    d = np.abs(rv.astype(float) - e)
    tol = (1.0 + 1e-3) if isint else 1e-4 * (1 + np.nanmax(np.abs(e)) if valid.any() else 1)
    bad = valid[:, :, None] & ~(d <= tol)
    if bad.any():
        p = tuple(int(q) for q in np.argwhere(bad)[0])
        fail("merge: cell %r is %r, the weighted mean of the inputs there is %r", p, rv[p], e[p])
    one = (cnt == 1)
    if one.any() and isint:
        check(bool(np.all(d[one] < 0.5)), "merge changed integer values covered by a single grid")
    for (oi, oj, v, n), g in zip(mods, gs):
        check(same(full(g), v), "merge changed an input grid")
    check(r.nodata == nd or (nd != nd and r.nodata != r.nodata), "nodata of the merged grid is %r, of the first %r", r.nodata, nd)
    ctx.label("several nodata", len(set(str(m[3]) for m in mods)) > 1)
    ctx.label("overlap", (cnt > 1).any()); ctx.label("weighted", c["w"] is not None); ctx.label("holes", any(q["holes"] for q in c["grids"]))
    ctx.label("skewed", T[4] or T[5]); ctx.label("bands=%d" % nb)
    ctx.nontrivial(len(gs) > 1)


CHECKS = {"clip": clip, "resize": resize, "resample": resample, "chunks": chunks, "merge": merge}
