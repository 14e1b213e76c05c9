from harness.geo import *
from karta.tile import Tile, tile_from_point
LIM = math.degrees(math.atan(math.sinh(math.pi)))


def frac(lon, lat, z):
    """tile coordinates of a position, as real numbers"""
    n = 2.0 ** z
    return (lon + 180) / 360 * n, (1 - math.asinh(math.tan(math.radians(lat))) / math.pi) / 2 * n


def corner(z, x, y):
    n = 2.0 ** z
    return x / n * 360 - 180, math.degrees(math.atan(math.sinh(math.pi * (1 - 2 * y / n))))


def contain(c, ctx):
    z, k = c["z"], c["crs"]
    n = 2 ** z
    lon, lat = c["p"]
    if c["where"] == "corner":
        lon, lat = corner(z, *c["ij"])
    elif c["where"] == "edge":
        if c["k"] % 2:
            lon = corner(z, *c["ij"])[0]
        else:
            lat = corner(z, *c["ij"])[1]
    elif c["where"] == "limit":
        lat = LIM if lat >= 0 else -LIM
    K = crs(k)
    xy = (lon, lat) if k in ("lonlat", "sph") else to("lonlat", k, [(lon, lat)])[0]
    xy = tuple(float(v) for v in xy)
    if k not in ("lonlat", "sph"):
        lon, lat = to(k, "lonlat", [xy])[0]
        if k == "laea" and not (abs(lon) < 179 and abs(lat) < 80):
            raise Skip()
    pt = Point(xy + ((7.0,) if c["rank3"] else ()), crs=K)
    t = tile_from_point(pt, float(z) if c["fz"] else z)
    check(isinstance(t, Tile) and t.z == z, "tile %r at zoom level %r", t, z)
    check(t.x == int(t.x) and t.y == int(t.y) and 0 <= t.x < n and 0 <= t.y < n, "tile %r does not exist at zoom level %r", (t.x, t.y), z)
    fx, fy = frac(lon, lat, z)
    fx %= n
    # 1e-3 m, or rounding
    eps = 1e-9 * n / 10 + 1e-9 if k == "laea" else 1e-13 * n * 20 + 1e-13
    clear = all(abs(v - round(v)) > eps for v in (fx, fy))
    if clear:
        check((t.x, t.y) == (int(fx), int(fy)), "tile %r contains %r at zoom level %r, expected %r", (t.x, t.y), (lon, lat), z, (int(fx), int(fy)))
    xmin, ymin, xmax, ymax = t.bbox
    e = 1e-6 if k == "laea" else 1e-10
    check(any(xmin - e <= lon + s <= xmax + e for s in (0, 360, -360)) and ymin - e <= lat <= ymax + e, "%r is outside of the bounding box %r of its tile", (lon, lat), t.bbox)
    # the same position, deeper
    u = tile_from_point(pt, z + c["k"])
    if all(abs(v * 2 ** c["k"] - round(v * 2 ** c["k"])) > eps * 2 ** c["k"] for v in (fx, fy)):
        check((u.x >> c["k"], u.y >> c["k"]) == (t.x, t.y), "tile %r at zoom level %r, but %r at %r", (t.x, t.y), z, (u.x, u.y), z + c["k"])
    ctx.nontrivial(clear and 0 < z < 24)
    ctx.label("edge", not clear); ctx.label("dateline", lon >= 180 or lon <= -180)


def nest(c, ctx):
    z, (x, y) = c["z"], c["t"]
    n = 2 ** z
    t = Tile(z, x, y)
    nw, se = corner(z, x, y), corner(z, x + 1, y + 1)
    b = t.bbox
    check(len(b) == 4 and all(abs(u - v) <= 1e-11 for u, v in zip(b, (nw[0], se[1], se[0], nw[1]))), "bounding box %r, expected %r", b, (nw[0], se[1], se[0], nw[1]))
    p = t.nw_corner()
    check(type(p) is Point and p.crs.name == crs("lonlat").name, "corner %r", p)
    check(abs(p.x - nw[0]) <= 1e-11 and abs(p.y - nw[1]) <= 1e-11, "northwest corner %r, expected %r", p.vertex(), nw)
    same = lambda u, v: abs(u - v) <= 1e-11
    if x + 1 < n:
        e = Tile(z, x + 1, y).bbox
        check(same(e[0], b[2]) and e[1] == b[1] and e[3] == b[3], "tile to the east %r of %r", e, b)
    if y + 1 < n:
        s = Tile(z, x, y + 1).bbox
        check(same(s[3], b[1]) and s[0] == b[0] and s[2] == b[2], "tile to the south %r of %r", s, b)
    if x == 0:
        check(b[0] == -180, "western edge %r", b[0])
    if x == n - 1:
        check(b[2] == 180, "eastern edge %r", b[2])
    ch = {(i, j): Tile(z + 1, 2 * x + i, 2 * y + j).bbox for i in (0, 1) for j in (0, 1)}
    check(same(ch[0, 0][0], b[0]) and same(ch[0, 0][3], b[3]) and same(ch[1, 1][2], b[2]) and same(ch[1, 1][1], b[1]), "tiles of the next zoom level %r do not cover %r", ch, b)
    check(same(ch[0, 0][2], ch[1, 0][0]) and same(ch[0, 0][1], ch[0, 1][3]), "tiles of the next zoom level %r do not meet", ch)
    # a position inside
    f = c["f"]
    q = (b[0] + f[0] * (b[2] - b[0]), b[1] + f[1] * (b[3] - b[1]))
    if (b[2] - b[0]) > 1e-9:
        u = tile_from_point(Point(q, crs=crs("lonlat")), z)
        check(u == t and (u.z, u.x, u.y) == (z, x, y), "tile of %r is %r, expected %r", q, (u.z, u.x, u.y), (z, x, y))
        if c["k"] <= z:
            v = tile_from_point(Point(q, crs=crs("lonlat")), z - c["k"])
            check((v.x, v.y) == (x >> c["k"], y >> c["k"]), "tile of %r at zoom level %r is %r", q, z - c["k"], (v.x, v.y))
    o = c["o"]
    w = Tile(z + o[2], x + o[0], y + o[1])
    check((w == t) == (o == [0, 0, 0]) and (w != t) == (o != [0, 0, 0]), "equality of tiles %r", o)
    check(not (t == (z, x, y)), "tile equals a tuple")
    ctx.nontrivial(0 < z < 24)


CHECKS = {"contain": contain, "nest": nest}
