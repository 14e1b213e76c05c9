import numpy as np
from harness.rt import *
from harness.grids import *


def dk(q):
    return slice(*q["s"]) if isinstance(q, dict) else q


def dmask(m, ny, nx, nb):
    a, b, c, mod, t = m["p"]
    i, j, k = np.meshgrid(np.arange(ny), np.arange(nx), np.arange(nb), indexing="ij")
    v = ((a * i + b * j + c * k + i * j) % mod) < t
    return v if m["m"] == 3 else np.ascontiguousarray(v[:, :, 0])


def history(c, ctx):
    spec = c["g"]
    ty = spec.get("types")
    model = values(spec)
    src = model.copy()
    g = make(spec, vals=src)
    if ty:
        ctx.label("bands of several types", len(set(ty)) > 1)
    ny, nx, nb = model.shape
    dt = model.dtype
    check(tuple(g.size) == (ny, nx), "size %r", g.size)
    check(g.nbands == nb, "nbands %r != %r", g.nbands, nb)
    check(np.dtype(g.values.dtype) == dt, "values.dtype %r", g.values.dtype)
    written = np.zeros(model.shape, bool)
    copies = []
    nt = False

    def fill(shape, n):
        return ((np.arange(int(np.prod(shape)), dtype=np.int64) * 3 + 11 * n + 1) % 113).astype(dt).reshape(shape)

    for n, op in enumerate(c["ops"]):
        kind = op[0]
        if kind == "get":
            k = tuple(dk(q) for q in op[1])
            key = k[0] if len(k) == 1 else k
            e = model[k]
            got = g[key]
            if not same(got, e):
                fail("op %d grid[%r]: %s", n, key, diff(got, e))
            check(ty or np.asarray(got).dtype == dt, "op %d: dtype %r", n, np.asarray(got).dtype)
            nt = nt or bool(np.any(written[k])) or any(isinstance(q, slice) and q.step not in (None, 1) for q in k) and e.size > 1
            ctx.label("empty-selection", e.size == 0)
            ctx.label("reversed", any(isinstance(q, slice) and (q.step or 1) < 0 for q in k))
        elif kind == "set":
            k = tuple(dk(q) for q in op[1])
            key = k[0] if len(k) == 1 else k
            shp = model[k].shape
            if op[2] == "scalar":
                v = dt.type((n * 7 + 2) % 100)
                model[k] = v
                g[key] = v
            else:
                # full block in (row, col, band) form; "plane": same 2-d block for all bands
                kk = list(k) + [slice(None)] * (3 - len(k))
                full3 = tuple(slice(q % d, q % d + 1) if not isinstance(q, slice) else q for q, d in zip(kk, (ny, nx, nb)))
                shp3 = model[full3].shape
                if 0 in shp3:
                    continue
                if op[2] == "plane":
                    v = fill(shp3[:2], n)
                    model[full3] = v[:, :, None]
                else:
                    v = fill(shp3, n)
                    model[full3] = v
                    if isinstance(kk[2], int):
                        v = v[:, :, 0]
                v = v.copy()
                g[key] = v
                v[...] = 0
            written[k] = True
        elif kind == "getm":
            m = dmask(op[1], ny, nx, nb)
            e = model[m]
            got = g[m]
            if not same(got, e):
                fail("op %d grid[mask]: %s", n, diff(got, e))
            nt = nt or e.size > 1
        elif kind == "setm":
            m = dmask(op[1], ny, nx, nb)
            if op[2] == "scalar":
                v = dt.type((n * 5 + 3) % 100)
            else:
                cnt = int(m.sum())
                if m.ndim == 3:
                    v = fill((cnt,), n)
                elif nb == 1:
                    v = fill((cnt,), n)[:, None] if op[1]["p"][0] % 2 else fill((cnt,), n)
                else:
                    v = fill((cnt, nb), n)
            g[m] = v
            if m.ndim == 2 and nb == 1 and op[2] == "vector":
                model[m] = np.reshape(v, (-1, 1))
            else:
                model[m] = v
            written[m] = True
            ctx.label("mask-write")
        elif kind == "iter":
            rows = [np.array(r) for r in g.values]
            check(len(rows) == ny, "iteration yields %d rows of %d", len(rows), ny)
            for i, r in enumerate(rows):
                if not same(r, model[i].T):
                    fail("op %d iteration row %d: %s", n, i, diff(r, model[i].T))
        elif kind == "copy":
            copies.append((g.copy(), model.copy()))
            h = copies[-1][0]
            check(h.crs == g.crs and h.transform == g.transform and (h.nodata == g.nodata or h.nodata != h.nodata), "a copy has coordinate system %r, transform %r, nodata %r", h.crs, h.transform, h.nodata)
        elif kind == "aliased":
            # a full read must be a snapshot: changing it must not change the grid
            a = g[:, :, :]
            a[...] = 0
        elif kind == "apply":
            f = lambda v: (v // 2 + 1).astype(v.dtype)
            nd = g.nodata
            isd = (model == model) if nd != nd else (model != nd)
            e = model.copy()
            e[isd] = f(model[isd])
            r = g.apply(f, **unless(False, inplace=bool(op[1])))
            if not same(full(r), e):
                fail("op %d apply(inplace=%s): %s", n, op[1], diff(full(r), e))
            if op[1]:
                model = e
                written |= isd
        if kind != "get":
            got = full(g)
            if not same(got, model):
                fail("after op %d %r: %s", n, op, diff(got, model))
            nt = nt or bool(written.any())
    for gc_, mc in copies:
        if not same(full(gc_), mc):
            fail("a copy changed when the original was modified: %s", diff(full(gc_), mc))
    ctx.label("bands=%d" % nb); ctx.label("store=%s" % ("chunked" if isinstance(spec["store"], list) else spec["store"]))
    ctx.nontrivial(nt)


CHECKS = {"history": history, "large": history}
