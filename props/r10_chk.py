import os
import io
import numpy as np
import karta
from karta import errors
from harness.rt import *
from harness.grids import *


class Keep(io.StringIO):
    def close(self):
        self.text = self.getvalue()
        io.StringIO.close(self)


def roundtrip(c, ctx):
    spec = c["g"]
    v = values(spec)
    T = spec["T"]
    nd = c["nodata"]
    g = make(spec, **({} if nd is None else {"nodata": nd}))
    mk = -9999 if c["marker"] is None else c["marker"]
    hole = np.zeros(spec["size"], bool)
    if spec["nb"] == 1:
        for i, j in c["holes"]:
            v[i, j, 0] = g.nodata
            g[i, j] = g.nodata
    hole = (v[:, :, 0] != v[:, :, 0]) | (v[:, :, 0] == g.nodata)
    fn = "rt.asc"
    kw = {"reference": c["ref"]}
    if c["marker"] is not None:
        kw["nodata_value"] = mk
    try:
        f = Keep() if c["fileobj"] else fn
        try:
            g.to_aai(f, **kw)
        except errors.GridError:
            check(c["bad"] is not None or spec["nb"] > 1, "to_aai refuses an isometric, unskewed single-band grid")
            ctx.nontrivial()
            return
        check(spec["nb"] == 1 and c["bad"] is None, "to_aai wrote a grid that the format cannot represent (%s)", c["bad"] or "two bands")
        check(same(full(g), v), "to_aai changed the grid")
        if c["fileobj"]:
            txt = f.text if f.closed else f.getvalue()
            with open(fn, "w") as fo:
                fo.write(txt)
        # the file itself: header records, then rows from north to south
        lines = open(fn).read().split("\n")
        hdr = dict((l.split()[0].lower(), float(l.split()[1])) for l in lines[:6])
        off = 0.5 * T[2] if c["ref"] == "center" else 0.0
        exp = {"ncols": spec["size"][1], "nrows": spec["size"][0], "cellsize": T[2], "nodata_value": mk, "xll" + c["ref"]: T[0] + off, "yll" + c["ref"]: T[1] + off}
        check(set(hdr) == set(exp) and all(close(hdr[k], exp[k], 1e-12, 1e-12) for k in exp), "header %r, expected %r", hdr, exp)
        rows = [[float(s) for s in l.split()] for l in lines[6:] if l.strip()]
        e = np.where(hole, mk, v[:, :, 0].astype(float))[::-1]
        check(same(np.array(rows, dtype=float), e), "rows of the file differ from the grid read from north to south")
        h = karta.read_aai(fn)
        check(h.size == g.size, "read_aai: size %r, expected %r", h.size, g.size)
        check(allclose(h.transform, T, 1e-12, 1e-12 * max(1, abs(T[0]), abs(T[1]))), "read_aai: transform %r, expected %r", h.transform, T)
        e = v.astype(float)
        e[hole] = np.nan
        got = full(h)
        check(same(got, e), "read_aai: values differ %s", None if same(got, e) else diff(got, e))
        check(same(h.data_mask, ~hole), "read_aai: nodata cells differ")
    finally:
        if os.path.exists(fn):
            os.remove(fn)
    ctx.nontrivial(spec["size"][0] > 1 and (not same(v, v[::-1]) or hole.any()))
    ctx.label("nodata", hole.any())


def handmade(c, ctx):
    vals = c["vals"]
    ny, nx = len(vals), len(vals[0])
    cs = {"upper": str.upper, "lower": str.lower, "mixed": lambda s: s}[c["case"]]
    rec = [("NCols", nx), ("NRows", ny), ("XLL" + c["ref"].capitalize(), c["x"]), ("YLL" + c["ref"].capitalize(), c["y"]), ("CellSize", c["d"])]
    if c["nd"] is not None:
        rec.append(("NODATA_value", c["nd"]))
    rec = [rec[k] for k in c["perm"] if k < len(rec)]
    fn = "h.asc"
    with open(fn, "w") as f:
        for k, x in rec:
            f.write("%s%s%r\n" % (cs(k), c["sep"], x))
        for r in vals:
            f.write(c["sep"].join(str(a) for a in r) + "\n")
    try:
        g = karta.read_aai(fn)
    finally:
        os.remove(fn)
    off = 0.5 * c["d"] if c["ref"] == "center" else 0.0
    T = [c["x"] - off, c["y"] - off, c["d"], c["d"], 0, 0]
    check(g.size == (ny, nx), "size %r, expected %r", g.size, (ny, nx))
    check(allclose(g.transform, T, 1e-12, 1e-10), "transform %r, expected %r", g.transform, T)
    e = np.array(vals, dtype=float)[::-1]
    e = np.where(e == (-9999 if c["nd"] is None else c["nd"]), np.nan, e)
    got = full(g)[:, :, 0]
    check(same(got, e), "values differ (first line of the file is the northernmost row): %s", None if same(got, e) else diff(got, e))
    ctx.nontrivial(ny > 1 and not same(e, e[::-1]))


CHECKS = {"roundtrip": roundtrip, "handmade": handmade}
