import numpy as np
from karta.raster.grid import RegularGrid, gridpoints as kgridpoints, get_nodata
from karta.crs import Cartesian, WebMercator
from harness.rt import *
from harness.grids import *


def ndv(v):
    return float("nan") if v == "nan" else v


def valid(a, nd):
    return (a == a) if nd != nd else (a != nd)


def default_nd(dt):
    if dt.kind == "u":
        return np.iinfo(dt).max
    if dt.kind == "i":
        return np.iinfo(dt).min
    return float("nan")


def checkstats(g, model, nd, when):
    m = valid(model, nd)
    got = g.data_mask_full
    check(got.shape == m.shape and bool(np.array_equal(np.asarray(got, bool), m)), "%s: data_mask_full disagrees with the nodata cells", when)
    dm = g.data_mask
    check(dm.shape == m.shape[:2] and bool(np.array_equal(np.asarray(dm, bool), m.all(axis=2))), "%s: data_mask disagrees with the nodata cells", when)
    v = model[m]
    mm = g.minmax()
    if v.size:
        check(close(mm[0], v.min(), 0, 0) and close(mm[1], v.max(), 0, 0), "%s: minmax() = %r, valid data span %r", when, mm, (v.min(), v.max()))
    else:
        check(mm[0] != mm[0] and mm[1] != mm[1], "%s: minmax() of an empty grid = %r", when, mm)
    # min()/max() are taken over cells valid in every band
    v = model[m.all(axis=2)]
    if v.size:
        check(close(g.min(), v.min(), 0, 0) and close(g.max(), v.max(), 0, 0), "%s: min/max = %r/%r, valid data span %r", when, g.min(), g.max(), (v.min(), v.max()))
    else:
        check(g.min() != g.min() and g.max() != g.max(), "%s: min/max of a grid without valid cells = %r %r", when, g.min(), g.max())


def nodata(c, ctx):
    spec = c["g"]
    model = values(spec)
    dt = model.dtype
    nd = default_nd(dt) if c["nd"] == "default" else ndv(c["nd"])
    check(same(np.array([float(get_nodata(dt.type))]), np.array([float(default_nd(dt))])), "get_nodata(%r) = %r", dt, get_nodata(dt.type))
    if c["holes"] == "all":
        model[:] = nd
    else:
        for i, j, k in c["holes"]:
            model[i, j, k] = nd
    g = make(spec, nodata="default" if c["nd"] == "default" else nd, vals=model)
    check(same(np.array([float(g.nodata)]), np.array([float(nd)])), "nodata is %r, expected %r", g.nodata, nd)
    had = valid(model, nd)
    ctx.nontrivial(had.any() and not had.all())
    ctx.label("nd=%s" % c["nd"])
    checkstats(g, model, nd, "initially")
    for n, op in enumerate(c["ops"]):
        if op[0] == "apply":
            f = lambda v: (v + 1).astype(v.dtype)
            m = valid(model, nd)
            e = model.copy()
            e[m] = f(model[m])
            r = g.apply(f, **unless(False, inplace=bool(op[1])))
            if op[1]:
                model = e
            got = full(r)
            if not same(got, e):
                fail("op %d apply(inplace=%s): %s", n, op[1], diff(got, e))
            if not op[1]:
                check(r is not g, "apply(inplace=False) returned the same grid")
                checkstats(r, e, nd, "result of apply")
        elif op[0] == "setnd":
            new = ndv(op[1])
            m = valid(model, nd)
            model = np.where(m, model, np.array(new).astype(dt)).astype(dt)
            r = g.set_nodata_value(new)
            nd = new
            check(same(np.array([float(g.nodata)]), np.array([float(nd)])), "after set_nodata_value(%r) nodata is %r", new, g.nodata)
        elif op[0] == "copy":
            g2 = g.copy()
            g2[:, :, :] = np.zeros_like(model)
        elif op[0] == "setvals":
            v = ((np.arange(model.size).reshape(model.shape) * 5 + n) % 50).astype(dt)
            m = valid(model, nd)
            model = np.where(m, v, model).astype(dt)
            g[:, :, :] = model.copy()
        got = full(g)
        if not same(got, model):
            fail("after op %d %r: %s", n, op, diff(got, model))
        checkstats(g, model, nd, "after op %d %r" % (n, op))


def arith(c, ctx):
    a, b = dict(c["a"]), dict(c["b"])
    if c["mismatch"] == "size":
        b["size"] = [b["size"][0] + 1, b["size"][1]]
    elif c["mismatch"] == "transform":
        b["T"] = list(b["T"]); b["T"][0] += 1.0
    va, vb = values(a), values(b)
    nds = [default_nd(va.dtype) if q == "default" else va.dtype.type(q).item() for q in c["nd"]]
    for i, j, k, w in c["holes"]:
        t = (va, vb)[w]
        t[i % t.shape[0], j % t.shape[1], k % t.shape[2]] = nds[w]
    ga = make(a, vals=va, nodata=nds[0]); gb = make(b, vals=vb, nodata=nds[1])
    if c["mismatch"]:
        check(raises(ValueError, lambda: ga + gb), "grids of different %s were added", c["mismatch"])
        check(raises(ValueError, lambda: ga - gb), "grids of different %s were subtracted", c["mismatch"])
        ctx.label("mismatch")
        return
    ok = valid(va, nds[0]) & valid(vb, nds[1])
    s, d = ga + gb, ga - gb
    for r, e, nm in ((s, va + vb, "+"), (d, va - vb, "-")):
        e = np.where(ok, e, np.array(nds[0]).astype(va.dtype))
        if not same(full(r), e):
            fail("grid %s grid: %s", nm, diff(full(r), e))
        check(same(np.array([float(r.nodata)]), np.array([float(nds[0])])), "grid %s grid: nodata is %r", nm, r.nodata)
        check(allclose(r.transform, a["T"], 0, 0) and r.crs == ga.crs, "grid %s grid has transform %r", nm, r.transform)
    check(same(full(ga), va) and same(full(gb), vb), "arithmetic changed an operand")
    ctx.nontrivial(va.shape[2] > 1 or bool(c["holes"]))


def gridpoints(c, ctx):
    T = c["T"]
    x = np.array([T[0] + (p[1] + p[3]) * T[2] for p in c["pts"]])
    y = np.array([T[1] + (p[0] + p[2]) * T[3] for p in c["pts"]])
    z = np.array([float(p[4]) for p in c["pts"]])
    if c["form"] == "intz":
        z = np.round(z).astype(int)
    elif c["form"] == "f32":
        z = z.astype(np.float32)
    g = kgridpoints(x, y, z, T, Cartesian)
    ny = max(p[0] for p in c["pts"]) + 1
    nx = max(p[1] for p in c["pts"]) + 1
    check(tuple(g.size) == (ny, nx), "gridpoints made a grid of %r, the points span %r cells", g.size, (ny, nx))
    check(allclose(g.transform, T, 0, 0), "gridpoints transform %r", g.transform)
    v = full(g)[:, :, 0]
    acc = {}
    for p, q in zip(c["pts"], z):
        acc.setdefault((p[0], p[1]), []).append(float(q))
    for i in range(ny):
        for j in range(nx):
            if (i, j) in acc:
                e = sum(acc[(i, j)]) / len(acc[(i, j)])
                check(close(v[i, j], e, 1e-6 if c["form"] == "f32" else 1e-9, 1e-9 if c["form"] != "f32" else 1e-4), "cell (%d,%d) is %r, the mean of its %d points is %r", i, j, v[i, j], len(acc[(i, j)]), e)
            else:
                check(v[i, j] != v[i, j], "cell (%d,%d) contains no point but holds %r", i, j, v[i, j])
    ctx.label(c["form"])
    ctx.nontrivial(max(len(q) for q in acc.values()) > 1 and len(acc) < ny * nx)


CHECKS = {"nodata": nodata, "arith": arith, "gridpoints": gridpoints}
