import numpy as np
from karta.raster.grid import RegularGrid
from karta.crs import LonLatWGS84, WebMercator, Cartesian
from harness import oracles
from harness.rt import *
from harness.grids import *


def grid(c, crs=None, vals=None, **kw):
    v = np.zeros(c["size"]) if vals is None else vals
    return RegularGrid(c["T"], values=v, crs=crs, **kw)


def xy(T, i, j):
    """affine reference: corner coordinates of (possibly fractional) row i, column j"""
    return T[0] + j * T[2] + i * T[4], T[1] + i * T[3] + j * T[5]


def tol(c):
    T = c["T"]
    return 1e-9 * (1 + max(abs(T[0]), abs(T[1])) + 20 * max(abs(t) for t in T[2:]))


def odd(c):
    T = c["T"]
    return T[2] < 0 or T[3] < 0 or T[4] != 0 or T[5] != 0 or T[0] != int(T[0])


def positions(c, ctx):
    g = grid(c)
    T = c["T"]; ny, nx = c["size"]
    det = abs(T[2] * T[3] - T[4] * T[5])
    # index-space tolerance: coordinate rounding amplified by the inverse transform
    itol = 1e-9 + 1e-13 * (1 + max(abs(T[0]), abs(T[1]))) * (sum(abs(t) for t in T[2:]) / det) * 100
    x = [xy(T, p[0], p[1])[0] for p in c["pts"]]
    y = [xy(T, p[0], p[1])[1] for p in c["pts"]]
    if c["form"] == "scalar":
        x, y = x[:1], y[:1]
        I, J = g.positions(x[0], y[0])
        I, J = [I], [J]
    elif c["form"] == "list":
        I, J = g.positions(list(x), list(y))
    else:
        I, J = g.positions(np.array(x), np.array(y))
    check(len(I) == len(x) and len(J) == len(x), "positions returned %d/%d values for %d points", len(I), len(J), len(x))
    for k in range(len(x)):
        ei, ej = c["pts"][k][0] - 0.5, c["pts"][k][1] - 0.5
        check(close(I[k], ei, 0, itol) and close(J[k], ej, 0, itol),
              "positions(%r, %r) = (%r, %r), expected (%r, %r)", x[k], y[k], I[k], J[k], ei, ej)
    # integer indices
    e = [(p[0], p[1]) for p in c["pts"][:len(x)]]
    slack = max(1e-6, 10 * itol)
    clear = all(min(a % 1, 1 - a % 1) > slack and min(b % 1, 1 - b % 1) > slack for a, b in e)
    if clear:
        outside = any(a < 0 or a > ny or b < 0 or b > nx for a, b in e)
        try:
            if c["form"] == "scalar":
                r = g.indices(x[0], y[0])
                r = [r[0]], [r[1]]
            else:
                r = g.indices(x if c["form"] == "list" else np.array(x), y if c["form"] == "list" else np.array(y))
            raised = False
        except IndexError:
            raised = True
        check(raised == outside, "indices(%r, %r): IndexError=%s, but outside=%s", x, y, raised, outside)
        if not raised:
            for k in range(len(x)):
                ei, ej = int(np.floor(e[k][0])), int(np.floor(e[k][1]))
                check(int(r[0][k]) == ei and int(r[1][k]) == ej,
                      "indices(%r, %r) = (%r, %r), the cell containing it is (%d, %d)", x[k], y[k], r[0][k], r[1][k], ei, ej)
        ctx.label("outside" if outside else "inside")
    ctx.label("clear" if clear else "tie")
    ctx.nontrivial(odd(c) or len(x) > 1)


def coords(c, ctx):
    crs = None
    if c["crs"] == "merc":
        crs = WebMercator
    g = grid(c, crs)
    T = c["T"]; ny, nx = c["size"]; t = tol(c)
    ii, jj = np.meshgrid(np.arange(ny) + 0.5, np.arange(nx) + 0.5, indexing="ij")
    EX, EY = xy(T, ii, jj)
    X, Y = g.center_coords()
    check(near(X, EX, 1e-12, t) and near(Y, EY, 1e-12, t), "center_coords() disagrees with the transform %r: got %r %r", T, X.tolist(), Y.tolist())
    X, Y = g.coordmesh()
    check(near(X, EX, 1e-12, t) and near(Y, EY, 1e-12, t), "coordmesh() disagrees with the transform")
    vi, vj = np.meshgrid(np.arange(ny + 1), np.arange(nx + 1), indexing="ij")
    VX, VY = xy(T, vi, vj)
    X, Y = g.vertex_coords()
    check(near(X, VX, 1e-12, t) and near(Y, VY, 1e-12, t), "vertex_coords() disagrees with the transform %r: got %r %r", T, X.tolist(), Y.tolist())
    check(allclose(g.center_llref(), [EX[0, 0], EY[0, 0]], 1e-12, t), "center_llref %r", g.center_llref())
    check(allclose(g.corner_llref(), T[:2], 0, 0), "corner_llref %r", g.corner_llref())
    check(allclose(g.origin, T[:2], 0, 0) and allclose(g.resolution, T[2:4], 0, 0) and allclose(g.skew, T[4:], 0, 0), "origin/resolution/skew")
    for tgt in ([None] if crs is None else [None, LonLatWGS84]):
        cg = g.coordinates(crs=tgt)
        if tgt is None:
            TX, TY = EX, EY
            tt = t
        else:
            TX, TY = oracles.proj("EPSG:3857", "EPSG:4326").transform(EX, EY)
            tt = 1e-9
        for ki, kj in (c["keys"] if tgt is None else c["keys"][:2]):
            k = tuple(slice(*q["s"]) if isinstance(q, dict) else q for q in (ki, kj))
            ex, ey = TX[k], TY[k]
            if ex.size == 0 and tgt is not None:
                continue
            x, y = cg[k]
            check(np.shape(x) == np.shape(ex) and np.shape(y) == np.shape(ey),
                  "coordinates()[%r] has shape %r, cell centres have %r", k, np.shape(x), np.shape(ex))
            check(near(x, ex, 1e-12, tt) and near(y, ey, 1e-12, tt), "coordinates(%r)[%r] = %r %r, expected %r %r", tgt, k, np.asarray(x).tolist(), np.asarray(y).tolist(), ex.tolist(), ey.tolist())
            ctx.nontrivial(ex.size > 1)
            ctx.label("one-row-or-column", ex.ndim == 2 and 1 in ex.shape)
    ctx.nontrivial(odd(c))


def extent(c, ctx):
    T = c["T"]; ny, nx = c["size"]; t = tol(c)
    g = grid(c)
    ii, jj = np.meshgrid(np.arange(ny) + 0.5, np.arange(nx) + 0.5, indexing="ij")
    X, Y = xy(T, ii, jj)
    e = (X.min(), X.max(), Y.min(), Y.max())
    got = g.extent(reference="center")
    check(g.extent() == got, "extent() is %r, extent('center') %r", g.extent(), got)
    check(allclose(got, e, 1e-12, t), "extent('center') = %r, cell centres span %r (T=%r)", got, e, T)
    vi, vj = np.meshgrid(np.arange(ny + 1), np.arange(nx + 1), indexing="ij")
    VX, VY = xy(T, vi, vj)
    e = (VX.min(), VX.max(), VY.min(), VY.max())
    got = g.extent(reference="edge")
    check(allclose(got, e, 1e-12, t), "extent('edge') = %r, cell edges span %r (T=%r)", got, e, T)
    bb = g.bbox()
    check(allclose(bb, (e[0], e[2], e[1], e[3]), 1e-12, t), "bbox() = %r, cell edges span %r", bb, e)
    # valid data
    nd = float("nan") if c["nodata"] == "nan" else c["nodata"]
    v = np.full((ny, nx), nd)
    for i, j in c["valid"]:
        v[i, j] = 1.0 + i
    g = grid(c, vals=v, nodata_value=nd)
    ok = np.zeros((ny, nx), bool)
    for i, j in c["valid"]:
        ok[i, j] = True
    e = (X[ok].min(), X[ok].max(), Y[ok].min(), Y[ok].max())
    check(allclose([float(np.ravel(q)[0]) for q in g.data_extent()], e, 1e-12, t), "data_extent() = %r, valid centres span %r", g.data_extent(), e)
    got = g.data_extent(reference="center")
    check(allclose([float(np.ravel(q)[0]) for q in got], e, 1e-12, t), "data_extent('center') = %r, valid centres span %r", got, e)
    cx = [VX[i + a, j + b] for i, j in c["valid"] for a in (0, 1) for b in (0, 1)]
    cy = [VY[i + a, j + b] for i, j in c["valid"] for a in (0, 1) for b in (0, 1)]
    e = (min(cx), max(cx), min(cy), max(cy))
    got = g.data_extent(reference="edge")
    check(allclose([float(np.ravel(q)[0]) for q in got], e, 1e-12, t), "data_extent('edge') = %r, valid cells span %r", got, e)
    bb = g.data_bbox()
    check(allclose([float(np.ravel(q)[0]) for q in bb], (e[0], e[2], e[1], e[3]), 1e-12, t), "data_bbox() = %r", bb)
    ctx.label("skewed", T[4] != 0 or T[5] != 0); ctx.label("negative", T[2] < 0 or T[3] < 0)
    ctx.nontrivial(odd(c))


CHECKS = {"positions": positions, "coords": coords, "extent": extent}
