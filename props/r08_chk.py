import math
import numpy as np
from karta.raster.grid import RegularGrid
from karta.raster import misc
from harness.rt import *
from harness.grids import *
from harness.geo import crs


def valid_nd(dt):
    return -9999 if dt.kind == "i" else float("nan")


def georef(g, r, what):
    check(allclose(r.transform, g.transform, 0, 0), "%s changed the transform", what)
    check(r.crs == g.crs and tuple(r.size) == tuple(g.size), "%s changed crs or size", what)


def horn(D, res):
    """3x3 neighbourhood derivative, written out per cell"""
    ny, nx = D.shape
    gx = np.full(D.shape, np.nan); gy = np.full(D.shape, np.nan)
    for i in range(1, ny - 1):
        for j in range(1, nx - 1):
            e = [D[i + k, j + 1] for k in (-1, 0, 1)]; w = [D[i + k, j - 1] for k in (-1, 0, 1)]
            n = [D[i + 1, j + k] for k in (-1, 0, 1)]; s = [D[i - 1, j + k] for k in (-1, 0, 1)]
            gx[i, j] = (e[0] + 2 * e[1] + e[2] - w[0] - 2 * w[1] - w[2]) / (8.0 * res[0])
            gy[i, j] = (n[0] + 2 * n[1] + n[2] - s[0] - 2 * s[1] - s[2]) / (8.0 * res[1])
    return gx, gy


def border(r, what):
    """cells without a whole neighbourhood hold no number"""
    a = full(r)[:, :, 0].astype(float)
    check(r.nodata != r.nodata and np.isnan(a[0]).all() and np.isnan(a[-1]).all() and np.isnan(a[:, 0]).all() and np.isnan(a[:, -1]).all(), "%s on the border is %r", what, a)


def cmp(got, exp, what, tol, interior=True):
    sl = (slice(1, -1), slice(1, -1))
    a, b = got[sl], exp[sl]
    if not near(a, b, 1e-4, tol):
        bad = ~((np.abs(a - b) <= tol + 1e-4 * np.maximum(np.abs(a), np.abs(b))) | (np.isnan(a) & np.isnan(b)))
        p = tuple(int(q) for q in np.argwhere(bad)[0])
        fail("%s: interior cell %r is %r, reference %r", what, p, a[p], b[p])


def derivatives(c, ctx):
    spec = c["g"]
    v = values(spec)
    nd = valid_nd(v.dtype)
    for i, j in c["holes"]:
        v[i, j, :] = nd
    g = make(spec, crs=crs(c["crs"]), nodata=nd, vals=v)
    T = spec["T"]; res = T[2:4]
    D = v[:, :, c["band"]].astype(float)
    for i, j in c["holes"]:
        D[i, j] = np.nan
    gx, gy = horn(D, res)
    tol = 1e-5 * 120 / min(abs(r) for r in res)
    kb = {"band": c["band"]} if c["band"] or c["g"]["size"][0] % 2 else {}     # the first band is the default
    kx, ky = misc.gradient(g, **kb)
    for r in (kx, ky):
        georef(g, r, "gradient"); border(r, "gradient")
    cmp(full(kx)[:, :, 0], gx, "gradient x", tol); cmp(full(ky)[:, :, 0], gy, "gradient y", tol)
    m = np.sqrt(gx ** 2 + gy ** 2)
    s = misc.slope(g, **kb); georef(g, s, "slope")
    cmp(full(s)[:, :, 0], m, "slope", tol)
    a = misc.aspect(g, **kb); georef(g, a, "aspect"); border(a, "aspect")
    av = full(a)[:, :, 0]
    for i in range(1, D.shape[0] - 1):
        for j in range(1, D.shape[1] - 1):
            if not m[i, j] == m[i, j]:
                check(av[i, j] != av[i, j], "aspect next to nodata is %r", av[i, j])
            elif m[i, j] > 100 * tol:
                e = math.atan2(gy[i, j], -gx[i, j])
                check(ang_close(math.degrees(av[i, j]), math.degrees(e), 0.1), "aspect at (%d,%d) is %r, reference %r", i, j, av[i, j], e)
    mm = m[~np.isnan(m)]
    if mm.size and mm.max() > 100 * tol:
        u, w = misc.normed_potential_vectors(g, **kb)
        georef(g, u, "normed_potential_vectors u"); georef(g, w, "normed_potential_vectors v")
        border(u, "normed_potential_vectors u"); border(w, "normed_potential_vectors v")
        cmp(full(u)[:, :, 0], gx / mm.max(), "normed_potential_vectors u", 1e-4)
        cmp(full(w)[:, :, 0], gy / mm.max(), "normed_potential_vectors v", 1e-4)
    if mm.size:
        h = misc.hillshade(g, **(dict(kb, azimuth=c["light"][0], elevation=c["light"][1]) if list(c["light"]) != [330.0, 60.0] else kb))
        georef(g, h, "hillshade")
        az, el = [math.radians(q) for q in c["light"]]
        sv = (math.cos(az), math.sin(az), math.sin(el))
        E = np.full(D.shape, np.nan)
        for i in range(D.shape[0]):
            for j in range(D.shape[1]):
                if m[i, j] == m[i, j]:
                    # normal of the patch spanned by (dx, 0, zx) and (0, dy, zy)
                    n = (-gx[i, j] * res[1], -gy[i, j] * res[0], res[0] * res[1])
                    L = math.sqrt(n[0]**2 + n[1]**2 + n[2]**2)
                    E[i, j] = sum(p * q for p, q in zip(n, sv)) / L
        q = np.percentile(E[~np.isnan(E)], [2, 98])
        E = np.clip(E, q[0], q[1])
        cmp(full(h)[:, :, 0], E, "hillshade", 2e-3)
        ctx.label("hillshade")
    if not same(full(g), v):
        fail("a terrain function changed its input")
    ctx.label("holes", c["holes"]); ctx.label("bands>1", spec["nb"] > 1)
    ctx.nontrivial(bool(mm.size and mm.max() > 0))


def divergence(c, ctx):
    spec = c["g"]
    v = values(spec)
    b0, b1 = c["bands"]
    for i, j, k in c["holes"]:
        v[i, j, c["bands"][k]] = np.nan
    nd = c["nd"] if c["nd"] is not None else float("nan")
    g = make(spec, vals=np.where(v == v, v, nd).astype(v.dtype), nodata=nd, crs=crs(c["crs"]))
    res = spec["T"][2:4]
    U, V = v[:, :, b0], v[:, :, b1]
    E = np.full(U.shape, np.nan)
    for i in range(1, U.shape[0] - 1):
        for j in range(1, U.shape[1] - 1):
            E[i, j] = (U[i, j+1] - U[i, j-1]) / (2 * res[0]) + (V[i+1, j] - V[i-1, j]) / (2 * res[1])
    d = misc.divergence(g) if (b0, b1) == (0, 1) else misc.divergence(g, bands=(b0, b1))
    georef(g, d, "divergence"); border(d, "divergence")
    cmp(full(d)[:, :, 0], E, "divergence", 1e-9 * 120 / min(abs(r) for r in res))
    ctx.nontrivial(bool((~np.isnan(E)).any()))


def plane(c, ctx):
    ny, nx = c["size"]
    T = c["T"]
    ii, jj = np.meshgrid(np.arange(ny) + 0.5, np.arange(nx) + 0.5, indexing="ij")
    X = jj * T[2]; Y = ii * T[3]          # relative to the origin, keeps single precision meaningful
    g = RegularGrid(T, values=c["a"] * X + c["b"] * Y + c["c"])
    tol = 1e-4 * (1 + abs(c["a"]) + abs(c["b"])) * 10 * max(abs(t) for t in T[2:4]) / min(abs(t) for t in T[2:4])
    kx, ky = misc.gradient(g)
    cmp(full(kx)[:, :, 0], np.full((ny, nx), c["a"]), "gradient of a plane (x)", tol)
    cmp(full(ky)[:, :, 0], np.full((ny, nx), c["b"]), "gradient of a plane (y)", tol)
    cmp(full(misc.slope(g))[:, :, 0], np.full((ny, nx), math.hypot(c["a"], c["b"])), "slope of a plane", tol)
    f = RegularGrid(T, values=np.dstack([c["a"] * X + c["c"] * Y, c["e"] * X + c["b"] * Y]))
    cmp(full(misc.divergence(f))[:, :, 0], np.full((ny, nx), c["a"] + c["b"]), "divergence of a linear field", tol)
    sk = RegularGrid(list(T[:4]) + [0.1, 0.2], values=np.zeros((ny, nx)))
    for fn in (misc.slope, misc.aspect, misc.gradient, misc.hillshade, misc.normed_potential_vectors):
        check(raises(NotImplementedError, fn, sk), "%s accepted a skewed grid", fn.__name__)
    ctx.nontrivial(c["a"] or c["b"])


CHECKS = {"derivatives": derivatives, "divergence": divergence, "plane": plane}
