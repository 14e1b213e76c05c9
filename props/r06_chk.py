import math
import numpy as np
import karta
from karta.vector.geometry import Polygon, Multipolygon
from harness.rt import *
from harness.grids import *
from harness.oracles import proj


def ring(p, f=1.0):
    return [(p["c"][0] + f * r * math.sin(math.radians(a)), p["c"][1] + f * r * math.cos(math.radians(a))) for a, r in zip(p["ang"], p["rad"])]


def inside_dist(r, I, J):
    """even-odd membership and distance to the ring, in cell units"""
    ins = np.zeros(I.shape, bool)
    d2 = np.full(I.shape, np.inf)
    n = len(r)
    for k in range(n):
        (ai, aj), (bi, bj) = r[k], r[(k + 1) % n]
        if ai != bi:
            cr = ((ai > I) != (bi > I)) & (J < (bj - aj) * (I - ai) / (bi - ai) + aj)
            ins ^= cr
        L = (bi - ai) ** 2 + (bj - aj) ** 2
        t = np.zeros(I.shape) if L == 0 else np.clip(((I - ai) * (bi - ai) + (J - aj) * (bj - aj)) / L, 0, 1)
        d2 = np.minimum(d2, (ai + t * (bi - ai) - I) ** 2 + (aj + t * (bj - aj) - J) ** 2)
    return ins, np.sqrt(d2)


def mask(c, ctx):
    spec = c["g"]
    T = list(spec["T"])
    merc = c["merc"]
    gcrs = karta.crs.WebMercator if merc else karta.crs.Cartesian
    nd = -1 if spec["dtype"] != "uint8" else 255
    g = make(spec, crs=gcrs, nodata=nd)
    if spec["pat"][1] % 4 == 0:
        # a copy is in the same coordinate system
        g = g.copy()
    v = values(spec)
    ny, nx = spec["size"]
    I, J = np.meshgrid(np.arange(ny) + 0.5, np.arange(nx) + 0.5, indexing="ij")
    keep = np.zeros((ny, nx), bool)
    far = np.ones((ny, nx), bool)
    geoms = []
    for p in c["polys"]:
        rings = [ring(p)]
        ins, d = inside_dist(rings[0], I, J)
        far &= d > 2.0
        if p["hole"]:
            rings.append(ring(p, p["hole"]))
            hin, hd = inside_dist(rings[1], I, J)
            far &= hd > 2.0
            ins &= ~hin
        keep |= ins
        out = []
        for q, r in enumerate(rings):
            xy = [(T[0] + j * T[2] + i * T[4], T[1] + i * T[3] + j * T[5]) for i, j in r]
            if merc:
                lon, lat = proj(3857, 4326).transform([a for a, b in xy], [b for a, b in xy])
                xy = list(zip(lon, lat))
            if (p["rev"], p["hrev"])[q]:
                xy = xy[::-1]
            out.append(xy)
        geoms.append(out)
    pcrs = karta.crs.LonLatWGS84 if merc else karta.crs.Cartesian
    P = [Polygon(o[0], subs=[Polygon(h, crs=pcrs) for h in o[1:]], crs=pcrs) for o in geoms]
    f = c["form"]
    arg = {"single": lambda: P[0], "list": lambda: P, "tuple": lambda: tuple(P), "multi": lambda: Multipolygon(geoms, crs=pcrs),
           "nested": lambda: [P[0], P[1:]], "listmulti": lambda: [P[0], Multipolygon(geoms[1:], crs=pcrs)]}[f]()
    r = g.mask_by_poly(arg, **unless(False, inplace=bool(c["inplace"])))
    if c["inplace"]:
        check(r is g, "inplace mask_by_poly did not return the grid itself")
    else:
        check(same(full(g), v), "mask_by_poly without inplace changed the grid it was called on: %s", None if same(full(g), v) else diff(full(g), v))
    check(r.size == (ny, nx) and r.nbands == spec["nb"], "masked grid has size %r and %d bands", r.size, r.nbands)
    check(tuple(r.transform) == tuple(T) and r.nodata == nd, "masking changed the transform or nodata value")
    got = full(r)
    for b in range(spec["nb"]):
        exp = np.where(keep, v[:, :, b], nd)
        bad = far & (got[:, :, b] != exp)
        if bad.any():
            i, j = [int(q) for q in np.argwhere(bad)[0]]
            fail("mask_by_poly: cell (%d,%d) band %d is %s the polygon(s) by more than two cells, value %r, but the result holds %r (nodata %r)",
                 i, j, b, "inside" if keep[i, j] else "outside", v[i, j, b], got[i, j, b], nd)
        # cells next to an edge may go either way, but hold the value or nodata
        bad = (got[:, :, b] != nd) & (got[:, :, b] != v[:, :, b])
        check(not bad.any(), "mask_by_poly changed the value of a kept cell")
    ctx.nontrivial((far & keep).any() and (far & ~keep).any())
    ctx.label("hole", any(p["hole"] for p in c["polys"]))
    ctx.label("inplace", c["inplace"])
    ctx.label("multi", len(P) > 1)


CHECKS = {"mask": mask}
