import os
import gc
import numpy as np
import karta
from karta import errors
from karta.crs import *
import osgeo.gdal
from harness.rt import *
from harness.grids import *
from karta import Polygon

CRSS = {"cart": Cartesian, "wgs84": LonLatWGS84, "nad83": LonLatNAD83, "nad27": LonLatNAD27, "webm": WebMercator, "nsidcn": NSIDCNorth,
        "upss": UPSSouth, "utm7": ProjectedCRS("+proj=utm +zone=7 +north +datum=WGS84", "UTM 7N"), "utm27": ProjectedCRS("+proj=utm +zone=12 +datum=NAD27", "UTM 12N NAD27"), "sinu": ProjectedCRS("+proj=sinu +lon_0=0 +x_0=0 +y_0=0 +a=6371007.181 +b=6371007.181 +units=m +no_defs", "MODIS"), "gall": GallPetersEqualArea, "laea": LambertEqualArea,
        "sphere": SphericalEarth}
PTS = [(-140.0, 62.0), (10.0, 45.0), (30.0, -60.0), (-141.5, 70.0)]


def same_crs(a, b, name):
    if name == "cart":
        check(isinstance(b, CartesianCRS) and not isinstance(b, ProjectedCRS), "Cartesian grid came back with coordinate system %r", b)
        return
    check(isinstance(a, GeographicalCRS) == isinstance(b, GeographicalCRS), "coordinate system changed its kind: %s -> %s", a.name, b.get_proj4())
    check(close(a.ellipsoid.a, b.ellipsoid.a, 1e-9) and close(a.ellipsoid.b, b.ellipsoid.b, 1e-8), "ellipsoid changed: %r -> %r (%s)",
          (a.ellipsoid.a, a.ellipsoid.b), (b.ellipsoid.a, b.ellipsoid.b), b.get_proj4())
    for lon, lat in PTS:
        p, q = a.project(lon, lat), b.project(lon, lat)
        check(allclose(p, q, 1e-9, 1e-4), "the coordinate system read back puts (%g, %g) at %r, the original at %r", lon, lat, q, p)
    if name != "sphere":
        lon, lat = -110.0, 43.0
        w = [K.transform(LonLatWGS84, *K.project(lon, lat)) for K in (a, b)]
        check(allclose(w[0], w[1], 0, 2e-8), "datum changed: (%g, %g) is %r in WGS84, was %r (%s)", lon, lat, w[1], w[0], b.get_proj4())


def nd_of(c, dt):
    return c["nodata"]


def mk(c):
    nd = c["nodata"]
    kw = {} if nd is None else {"nodata": nd}
    return make(c["g"], crs=CRSS[c["crs"]], **kw)


def tclose(a, b, ny, nx):
    s = max(abs(t) for t in a) * (1 + max(ny, nx))
    return allclose(a, b, 1e-12, 1e-12 * s)


def cmp_grid(g, h, c, v, what):
    dt = c["g"]["dtype"]
    ny, nx = c["g"]["size"]
    check(h.size == (ny, nx), "%s: size %r, expected %r", what, h.size, (ny, nx))
    check(tclose(g.transform, h.transform, ny, nx), "%s: transform %r, expected %r", what, h.transform, g.transform)
    edt = "int32" if dt == "int64" else dt
    check(str(h.bands[0].dtype if not isinstance(h.bands[0].dtype, type) else np.dtype(h.bands[0].dtype)) == edt, "%s: data type %r, expected %s", what, h.bands[0].dtype, edt)
    got = full(h)
    check(same(got, v), "%s: values differ %s", what, None if same(got, v) else diff(got, v))
    if dt != "int64" or c["nodata"] is not None:
        a, b = float(g.nodata), float(h.nodata)
        check(a == b or (a != a and b != b), "%s: nodata %r, expected %r", what, h.nodata, g.nodata)
    same_crs(g.crs, h.crs, c["crs"])


def roundtrip(c, ctx):
    g = mk(c)
    v = values(c["g"])
    ny, nx = c["g"]["size"]
    fn = "rt.tif"
    try:
        if c["over"]:
            # something else is at this path already, written just before
            make(dict(c["g"], size=[ny + 1, nx + 2], T=[0, 0, 1, 1, 0, 0]), crs=LonLatWGS84).to_geotiff(fn)
        kw = {"tiled": True} if c["tiled"] else {}
        r = g.to_geotiff(fn, compress=c["compress"], **kw)
        check(r is g, "to_geotiff does not return the grid")
        check(same(full(g), v), "to_geotiff changed the grid")
        # independent view: GDAL itself, before any garbage collection
        ds = osgeo.gdal.Open(fn)
        gt = ds.GetGeoTransform()
        T = c["g"]["T"]
        for row in (0, ny):
            for col in (0, nx):
                i = ny - row
                exp = (T[0] + col * T[2] + i * T[4], T[1] + i * T[3] + col * T[5])
                got = (gt[0] + col * gt[1] + row * gt[2], gt[3] + col * gt[4] + row * gt[5])
                s = 1e-12 * max(abs(t) for t in T) * (1 + max(ny, nx))
                check(allclose(exp, got, 1e-12, s), "file puts the corner at row %d, column %d at %r; the grid has it at %r", row, col, got, exp)
        check(ds.RasterCount == v.shape[2], "file has %d bands", ds.RasterCount)
        for b in range(v.shape[2]):
            a = np.asarray(ds.GetRasterBand(b + 1).ReadAsArray())
            check(same(a, v[::-1, :, b]), "GDAL reads band %d of the file differently: %s", b, None if same(a, v[::-1, :, b]) else diff(a, v[::-1, :, b]))
        blk = ds.GetRasterBand(1).GetBlockSize()
        if c["tiled"]:
            check(blk == [256, 256], "tiled=True wrote a file with block size %r", blk)
        del ds
        ib = c["ibands"]
        kw = {} if ib is None else {"ibands": ib}
        h = karta.read_geotiff(fn, in_memory=c["mem"], **kw)
        sel = list(range(v.shape[2])) if ib is None else [k - 1 for k in (ib if isinstance(ib, list) else [ib])]
        cmp_grid(g, h, c, v[:, :, sel], "read_geotiff")
        i0, i1, si, j0, j1, sj = c["win"]
        w = h[i0:i1:si, j0:j1:sj]
        e = v[:, :, sel][i0:i1:si, j0:j1:sj]
        check(same(np.asarray(w).reshape(e.shape), e), "window [%d:%d:%d, %d:%d:%d] read %s differs", i0, i1, si, j0, j1, sj, "from memory" if c["mem"] else "from disk")
        h = None
    finally:
        if os.path.exists(fn):
            os.remove(fn)
    ctx.nontrivial((ny > 1 and nx > 1) or v.shape[2] > 1 or c["tiled"])
    ctx.label("skew", T[4] != 0 or T[5] != 0)
    ctx.label("disk", not c["mem"])
    ctx.label("tiled", c["tiled"])
    ctx.label("one row/col", ny == 1 or nx == 1)


def several(c, ctx):
    v = values(c["g"])
    ny, nx = c["g"]["size"]
    fns, exp = [], []
    try:
        first = None
        for k in range(c["n"]):
            cc = {"g": dict(c["g"], pat=[c["g"]["pat"][0] + k] + c["g"]["pat"][1:]), "crs": c["crs"], "nodata": c["nodata"]}
            if c["types"]:
                cc["g"]["dtype"] = c["types"][k]; cc["nodata"] = 7 if cc["nodata"] is None else cc["nodata"]
            if c["odd"] and k == min(c["where"], c["n"] - 1):
                T = list(c["g"]["T"])
                o = c["odd"]
                if o in ("x", "y", "dx", "dy", "sx"):
                    T[["x", "y", "dx", "dy", "sx"].index(o)] += 0.5
                    if o in ("dx", "dy") and T[2 if o == "dx" else 3] == 0:
                        T[2 if o == "dx" else 3] = 5.0
                    cc["g"]["T"] = T
                elif o == "nodata":
                    cc["nodata"] = 13 if c["nodata"] != 13 else 14
                elif o in ("nx", "ny"):
                    cc["g"]["size"] = [ny + (o == "ny"), nx + (o == "nx")]
                else:
                    cc["crs"] = "webm" if c["crs"] != "webm" else "gall"
            g = mk(cc)
            first = first or g
            fn = "s%d.tif" % k
            fns.append(fn)
            g.to_geotiff(fn)
            exp.append(values(cc["g"])[:, :, :1])
        kw = {} if c["mem"] is None else {"in_memory": c["mem"]}
        try:
            h = karta.from_geotiffs(*fns, **kw)
        except errors.GridError:
            check(c["odd"] is not None, "from_geotiffs refuses files with the same transform and coordinate system")
            h = None
        if h is not None:
            check(c["odd"] is None, "from_geotiffs combined files that differ in %s", c["odd"])
            if c["types"]:
                e = np.dstack([x.astype("float64") for x in exp])
                got = full(h)
                check(same(got, e), "from_geotiffs: files of types %r, values differ %s", c["types"], None if same(got, e) else diff(got, e))
                ctx.label("several types", len(set(c["types"])) > 1)
                for q in (0, -1):
                    a = np.asarray(h.sample_nearest(*[np.array([z[q, 0]]) for z in h.center_coords()]))
                    check(same(a.ravel(), e[q, 0, :]), "sample_nearest of files of types %r gives %r, cell holds %r", c["types"], a, e[q, 0, :])
            else:
                cmp_grid(first, h, c, np.dstack(exp), "from_geotiffs")
    finally:
        for fn in fns:
            if os.path.exists(fn):
                os.remove(fn)
    ctx.nontrivial(c["n"] > 1)
    ctx.label("mismatch", c["odd"] is not None)


def observe(x):
    if isinstance(x, RegularGrid):
        return ["grid", x.transform, x.size, str(np.dtype(x.values.dtype)), repr(float(x.nodata)), observe(full(x)), x.crs.get_proj4() if not isinstance(x.crs, CartesianCRS) else "cart"]
    if isinstance(x, np.ndarray):
        return [str(x.dtype), x.shape, [repr(q) for q in x.ravel().tolist()]]
    if isinstance(x, (list, tuple)):
        return [observe(q) for q in x]
    return repr(x)


def operate(g, op, a, b, d, e):
    """apply an operation that does not write to the grid's own cells; positions are fractions of the extent"""
    x0, y0, x1, y1 = g.bbox()
    fx, fy = (lambda q: x0 + q * (x1 - x0)), (lambda q: y0 + q * (y1 - y0))
    ny, nx = g.size
    if op == "copy":
        return g.copy()
    if op == "copyset":
        h = g.copy()
        h[int(a * (ny - 1)), int(b * (nx - 1))] = 3
        return [h, g]
    if op == "apply":
        return g.apply(lambda v: v + v.dtype.type(1))
    if op == "merge":
        T = g.transform
        return karta.raster.grid.merge([g, g.copy() if a < 0.5 else g])
    if op == "resize":
        return g.resize((fx(min(a, b)) - 1, fy(min(d, e)) - 1, fx(max(a, b)) + 1, fy(max(d, e)) + 1))
    if op == "resample":
        dx, dy = g.resolution
        return g.resample(dx * (0.5 + a), dy * (0.5 + b), method="nearest" if d < 0.5 else "linear")
    if op == "add":
        return g + g
    if op == "sub":
        return g - g
    if op == "clip":
        return g.clip(fx(min(a, b)), fx(max(a, b)), fy(min(d, e)), fy(max(d, e)))
    if op == "chunks":
        return list(g.aschunks(size=(1 + int(a * 5), 1 + int(b * 5))))
    if op == "mask":
        return g.mask_by_poly(Polygon([(fx(a), fy(b)), (fx(b), fy(d)), (fx(e), fy(a))], crs=g.crs))
    if op == "stats":
        return [g.minmax(), g.min(), g.max(), g.extent(), g.bbox(), g.size, g.nodata]
    if op == "bilinear":
        return g.sample_bilinear(np.array([fx(a), fx(b)]), np.array([fy(d), fy(e)]))
    if op == "nearest":
        return g.sample_nearest(np.array([fx(a), fx(b)]), np.array([fy(d), fy(e)]))
    if op == "iter":
        return [np.asarray(r) for r in g.values]
    if op == "write":
        g.to_geotiff("dk2.tif")
        try:
            return karta.read_geotiff("dk2.tif")
        finally:
            os.remove("dk2.tif")
    if op == "datamask":
        return [g.data_mask, g.data_mask_full]
    return [g[int(a * (ny - 1)), int(b * (nx - 1))], g[int(a * (ny - 1)):, int(b * (nx - 1))], g[-1, :]]


def disk(c, ctx):
    """a grid that stays on disk answers as the same grid in memory does"""
    fn = "dk.tif"
    mk(c).to_geotiff(fn)
    try:
        if c["strip"]:
            ds = osgeo.gdal.Open(fn, osgeo.gdal.GA_Update)
            ds.GetRasterBand(1).DeleteNoDataValue()
            ds.FlushCache()
            del ds
        g = karta.read_geotiff(fn, in_memory=True)
        h = karta.read_geotiff(fn, in_memory=False)
        check(same(full(g), values(c["g"])), "values in memory differ from those written")
        r = [observe(g), observe(h)]
        check(r[0] == r[1], "a grid read from disk is %r, in memory %r", r[1], r[0])
        for n, (op, a, b, d, e) in enumerate(c["ops"]):
            out = []
            for q in (g, h):
                try:
                    out.append(operate(q, op, a, b, d, e))
                except (ValueError, IndexError, errors.GridError, OverflowError) as ex:
                    out.append(type(ex).__name__)
            o = [observe(x) for x in out]
            check(o[0] == o[1], "%s (after %r) of the grid on disk gives %r, of the same grid in memory %r", op, [q[0] for q in c["ops"][:n]], o[1], o[0])
            check(observe(h) == r[1], "%s changed the grid on disk", op)
            if op in ("copy", "clip", "chunks"):
                # in-memory results of grids on disk go on like any grid
                x = [q[0] if isinstance(q, list) else q for q in out]
                if all(isinstance(q, RegularGrid) for q in x) and min(x[0].size) > 0:
                    y = [observe(operate(q, "resize", a, b, d, e)) for q in x]
                    check(y[0] == y[1], "resize after %s gives %r for a grid on disk, %r in memory", op, y[1], y[0])
            ctx.label(op, not isinstance(out[0], str))
        q = h = None
        ctx.nontrivial(len(c["ops"]) > 1)
        ctx.label("no nodata", c["strip"])
    finally:
        if os.path.exists(fn):
            os.remove(fn)


CHECKS = {"disk": disk, "roundtrip": roundtrip, "several": several}
