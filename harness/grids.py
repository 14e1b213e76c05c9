"""PyPy side: build RegularGrids from JSON descriptions."""
import numpy as np
from karta.raster.band import SimpleBand, CompressedBand
from karta.raster.grid import RegularGrid
from harness.rt import *


def values(spec):
    """Deterministic array (ny, nx, nb) from a compact description."""
    ny, nx = spec["size"]
    nb = spec.get("nb", 1)
    if spec.get("types"):
        # bands of several data types
        return np.stack([values(dict(spec, dtype=t, types=None))[:, :, k] for k, t in enumerate(spec["types"])], axis=2)
    dt = np.dtype(spec.get("dtype", "float64"))
    a, b, c, m, off = spec.get("pat", [7, 3, 5, 101, 0])
    i, j, k = np.meshgrid(np.arange(ny), np.arange(nx), np.arange(nb), indexing="ij")
    v = (a * i + b * j + c * k + a * b * i * j) % m + off
    if dt.kind == "f":
        v = v * spec.get("scale", 1.0)
    return v.astype(dt)


def make(spec, crs=None, nodata="default", vals=None):
    v = values(spec) if vals is None else vals
    T = spec.get("T", [0, 0, 1, 1, 0, 0])
    st = spec.get("store", "default")
    kw = {}
    if crs is not None:
        kw["crs"] = crs
    if nodata != "default":
        kw["nodata_value"] = nodata
    if st == "simple" and not spec.get("types"):
        return RegularGrid(T, values=v.copy(), bandclass=SimpleBand, **kw)
    if st == "default" and not spec.get("types"):
        return RegularGrid(T, values=v.copy(), **kw)
    bands = []
    for k in range(v.shape[2]):
        a = np.array(v[:, :, k], dtype=spec["types"][k] if spec.get("types") else v.dtype, order="C")
        if isinstance(st, str):
            b = {"simple": SimpleBand, "default": CompressedBand}[st](a.shape, a.dtype.type)
        else:
            b = CompressedBand(a.shape, a.dtype.type, chunksize=tuple(st))
        b.setblock(0, 0, a)
        bands.append(b)
    return RegularGrid(T, bands=bands, **kw)


def full(grid):
    """All values through the public accessor, (ny, nx, nb)."""
    return grid[:, :, :]


def same(a, b):
    """equal arrays incl. shape, NaN == NaN"""
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    return bool(np.array_equal(a, b))


def diff(a, b):
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        return "shape %r vs %r" % (a.shape, b.shape)
    d = ~((a == b) | ((a != a) & (b != b)))
    idx = tuple(int(q) for q in np.argwhere(d)[0])
    return "at %r: got %r expected %r (%d cells differ)" % (idx, a[idx], b[idx], int(d.sum()))


def near(a, b, rtol=1e-9, atol=1e-9):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    ok = np.isnan(a) & np.isnan(b)
    with np.errstate(all="ignore"):
        ok |= (a == b) | (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))
    return bool(ok.all())
