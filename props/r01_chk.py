import numpy as np
from karta.raster.band import SimpleBand, CompressedBand
from harness.rt import *

CL = {"SimpleBand": SimpleBand, "CompressedBand": CompressedBand}


def pattern(h, w, dt, n, kind):
    a = np.arange(h * w, dtype=np.int64).reshape(h, w) * (3 if kind == 1 else 1) + 17 * n + 1
    if kind == 2:
        a = np.zeros_like(a) + n + 1
    if dt.kind == "f":
        return (a * 0.37 - 5).astype(dt)
    if dt.kind == "c":
        return (a * 0.37 - 5 + 1j * n).astype(dt)
    if dt.kind == "b":
        return (a % 3 == 0)
    if dt.kind == "u":
        return (a % (np.iinfo(dt).max + 1 if dt.itemsize < 8 else 1 << 40)).astype(dt)
    return ((a * (-1) ** (n % 2)) % 30000 - 100).astype(dt)


def history(c, ctx):
    dt = np.dtype(c["dtype"])
    ny, nx = c["size"]
    kw = {}
    if c["init"] is not None:
        kw["initval"] = dt.type(c["init"])
    chunk = (256, 256)
    if c["cls"] == "CompressedBand":
        if c["chunk"] is not None:
            kw["chunksize"] = tuple(c["chunk"])
            chunk = tuple(c["chunk"])
    band = CL[c["cls"]]((ny, nx), dt.type, **kw)
    check(tuple(band.size) == (ny, nx), "band.size %r != %r", band.size, (ny, nx))
    check(np.dtype(band.dtype) == dt, "band.dtype %r != %r", band.dtype, dt)
    init = c["init"] if c["init"] is not None else 0
    model = np.full((ny, nx), init, dtype=dt)
    known = np.ones((ny, nx), bool)
    if c["cls"] == "SimpleBand" and c["init"] is None:
        known[:] = False          # contents unspecified until written
    written = np.zeros((ny, nx), int)
    multi = False
    checked = 0
    for n, (op, y, x, h, w, kind) in enumerate(c["ops"] + [["get", 0, 0, ny, nx, 0]]):
        if (y // chunk[0] != (y + h - 1) // chunk[0]) or (x // chunk[1] != (x + w - 1) // chunk[1]):
            multi = True
        if op == "set":
            a = pattern(h, w, dt, n, kind)
            src = a.copy()
            band.setblock(y, x, src)
            check(np.array_equal(src, a), "setblock changed the array it was given")
            src[:] = src[::-1, ::-1]         # later changes to the source must not reach the band
            model[y:y+h, x:x+w] = a
            known[y:y+h, x:x+w] = True
            written[y:y+h, x:x+w] += 1
        else:
            got = band.getblock(y, x, h, w)
            check(got.shape == (h, w), "op %d: getblock(%d,%d,%d,%d) has shape %r", n, y, x, h, w, got.shape)
            check(got.dtype == dt, "op %d: getblock dtype %r, expected %r", n, got.dtype, dt)
            m = known[y:y+h, x:x+w]
            e = model[y:y+h, x:x+w]
            bad = (got != e) & m
            if bad.any():
                p = np.argwhere(bad)[0]
                fail("op %d: getblock(%d,%d,%d,%d) cell %r is %r, last written %r", n, y, x, h, w, tuple(int(q) for q in p),
                     got[tuple(p)], e[tuple(p)])
            checked += int(written[y:y+h, x:x+w].any())
    ctx.label(c["cls"]); ctx.label("multi-chunk", multi); ctx.label("overwrite", (written > 1).any())
    ctx.label("partly-unset", bool((written == 0).any() and (written > 0).any()))
    ctx.nontrivial(checked and (multi or (written > 1).any()))


CHECKS = {"history": history, "large": history}
