from fractions import Fraction
from harness.geo import *
import numpy as np
import pyproj
from karta import geodesy
from karta.crs import GeographicalCRS, ProjectedCRS, Cartesian


def ell(e):
    """(a, b, Geod): the axes come from PROJ, not from karta"""
    if isinstance(e, str):
        g = pyproj.Geod(ellps=e)
    else:
        g = pyproj.Geod(a=e[0], rf=e[1])
    return g.a, g.b, g


def dang(a, b):
    return abs((a - b + 180) % 360 - 180)


def sameplace(g, x, y, x2, y2, tol):
    return g.inv(x, y, x2, y2)[2] <= tol


def azcheck(g, p, q, az, baz, d, A, B, D, what):
    """azimuths are judged by where they lead"""
    a = g.a
    # reduced length: how far an error in azimuth displaces the end
    m = a * abs(math.sin(min(d / a, math.pi)))
    if d < 1e-6 * a or math.pi * a - d < 0.02 * a:
        return False
    check(math.radians(dang(az, A)) * m <= 1e-9 * a + 1e-9 * d, "%s: azimuth %r, expected %r", what, az, A)
    check(math.radians(dang(baz, B)) * m <= 1e-9 * a + 1e-9 * d, "%s: back azimuth %r, expected %r", what, baz, B)
    return True


def generic(p, q):
    return p[1] not in (q[1], 90, -90) and q[1] not in (90, -90) and (q[0] - p[0]) % 180 != 0


def inverse(c, ctx):
    a, b, g = ell(c["ell"])
    p, q = c["p"], c["q"]
    A, B, D = g.inv(*(p + q))
    for P, Q, A_, B_ in ((p, q, A, B), (q, p, B, A)):
        az, baz, d = geodesy.ellipsoidal_inverse(a, b, *(P + Q))
        check(abs(d - D) <= 2e-10 * a, "distance %r, expected %r", d, D)
        check(-180 <= az <= 180 and -180 <= baz <= 180, "azimuths %r", (az, baz))
        judged = azcheck(g, P, Q, az, baz, d, A_, B_, D, "inverse")
        if math.pi * a - D < 0.02 * a and 1e-6 * a < D and not (abs(P[1]) == 90 or abs(Q[1]) == 90):
            # whichever azimuth is chosen, it has to lead there
            x, y, _ = g.fwd(P[0], P[1], az, d)
            check(sameplace(g, x, y, Q[0], Q[1], 1e-6 * a), "azimuth %r and distance %r lead to %r", az, d, (x, y))
    ctx.nontrivial(D > 0 and generic(p, q))
    ctx.label("antipodal", math.pi * a - D < 0.02 * a); ctx.label("tiny", 0 < D < 1e-5 * a); ctx.label("pole", abs(p[1]) == 90 or abs(q[1]) == 90); ctx.label("equator", p[1] == q[1] == 0)


def forward(c, ctx):
    a, b, g = ell(c["ell"])
    p, az, d = c["p"], c["az"], c["d"] * a
    X, Y, B = g.fwd(p[0], p[1], az, d)
    x, y, baz = geodesy.ellipsoidal_forward(a, b, p[0], p[1], az, d)
    check(-180 <= x <= 180 and -90 <= y <= 90, "arrived at %r", (x, y))
    check(sameplace(g, x, y, X, Y, 1e-9 * a), "arrived at %r, expected %r", (x, y), (X, Y))
    if abs(Y) < 90 - 1e-6 and abs(p[1]) < 90:
        # an azimuth near a pole is only as good as the longitude
        check(math.radians(dang(baz, B)) * math.cos(math.radians(Y)) <= 1e-8, "back azimuth %r, expected %r", baz, B)
        x0, y0, b0 = geodesy.ellipsoidal_forward(a, b, x, y, baz, d)
        check(sameplace(g, x0, y0, p[0], p[1], 1e-8 * a), "going back leads to %r", (x0, y0))
    D = g.inv(p[0], p[1], X, Y)[2]
    if 1e-6 * a < abs(d) < 3.1 * b and d > 0:
        _, _, s = geodesy.ellipsoidal_inverse(a, b, p[0], p[1], x, y)
        check(abs(s - D) <= 2e-9 * a, "distance to the destination is %r, expected %r", s, D)
    ctx.nontrivial(d != 0 and az % 90 != 0 and abs(p[1]) < 90)
    ctx.label("negative", d < 0); ctx.label("long", abs(d) > 3 * a)


def xyz(p):
    x, y = math.radians(p[0]), math.radians(p[1])
    return math.cos(y) * math.cos(x), math.cos(y) * math.sin(x), math.sin(y)


def area(c, ctx):
    a, b, g = ell(c["ell"])
    p, q = c["p"], c["q"]
    dl = (q[0] - p[0] + 180) % 360 - 180
    if abs(dl) > 180 * b / a - 0.1 or (p[1] == -q[1] and abs(p[1]) == 90):
        raise Skip()
    A, _ = g.polygon_area_perimeter([p[0], p[0] + dl / 2, p[0] + dl, p[0] + dl, p[0]], [0, 0, 0, q[1], p[1]])
    # positions are only known to rounding, which matters at a pole, and an error in azimuth matters if nearly antipodal
    colat = min([math.radians(90 - abs(y)) for y in (p[1], q[1]) if abs(y) < 90] + [1])
    P3, Q3 = xyz(p), xyz(q)
    sep = math.sqrt(sum((u + v) ** 2 for u, v in zip(P3, Q3)))  # how far from antipodal
    tol = a * a * (3e-11 + 1e-15 / colat + (1e-9 if abs(dl) > 175 else 0) + 2e-15 / max(sep, 1e-12))
    for P, Q, s in ((p, q, 1), (q, p, -1)):
        S = geodesy.spherical_area(a, *(P + Q)) if a == b else geodesy.ellipsoidal_area(a, b, *(P + Q))
        check(abs(S - s * A) <= tol, "area %r, expected %r", S, s * A)
    ctx.nontrivial(dl != 0 and generic(p, q))
    ctx.label("sphere", a == b); ctx.label("wrap", abs(q[0] - p[0]) > 180); ctx.label("crossing", p[1] * q[1] < 0); ctx.label("pole", abs(p[1]) == 90 or abs(q[1]) == 90)


def sphere(c, ctx):
    p, q, r = c["p"], c["q"], c["r"]
    g = pyproj.Geod(a=1.0, f=0)
    R = math.radians
    pairs = [(p, q)] + [(p, m) for m in c["more"]]
    ds = []
    for P, Q in pairs:
        A, B, D = g.inv(*(P + Q))
        d = geodesy.sphere_distance(R(P[0]), R(P[1]), R(Q[0]), R(Q[1]), radius=r)
        check(abs(d - D * r) <= 1e-7 * r, "distance on a sphere %r, expected %r", d, D * r)
        if D < 0.01:
            check(abs(d - D * r) <= 1e-12 * r, "short distance on a sphere %r, expected %r", d, D * r)
        ds.append(d)
        if 1e-6 < D < math.pi - 1e-3 and abs(P[1]) < 90 and abs(Q[1]) < 90:
            az = math.degrees(geodesy.sphere_azimuth(*(P + Q)))
            check(R(dang(az, A)) * math.sin(D) <= 1e-9, "azimuth on a sphere %r, expected %r", az, A)
    cols = [[R(v) for v in col] for col in zip(*[P + Q for P, Q in pairs])]
    for conv in (list, np.array):
        v = geodesy.sphere_distance(*[conv(x) for x in cols], radius=r)
        check(isinstance(v, np.ndarray) and v.shape == (len(ds),) and bool(np.all(v == np.array(ds))), "vector of distances %r, one by one %r", v, ds)
    # angles
    for x in c["ang"]:
        for f, lo, hi, u in ((geodesy.unroll_deg, 0, 360, 180), (geodesy.reduce_deg, -180, 180, 180)):
            y = f(x)
            check(lo <= y <= hi and (y < hi or x % 360 != hi % 360) and dang(y, x) < 1e-9, "%s(%r) is %r", f.__name__, x, y)
        for f, lo, hi in ((geodesy.unroll_rad, 0, 2 * math.pi), (geodesy.reduce_rad, -math.pi, math.pi)):
            y = f(R(x))
            check(lo - 1e-12 <= y <= hi + 1e-12 and dang(math.degrees(y), x) < 1e-9, "angle %r reduced to %r", R(x), y)
    for f in (geodesy.unroll_rad, geodesy.reduce_rad):
        v = f([R(x) for x in c["ang"]])
        check(list(v) == [f(R(x)) for x in c["ang"]], "vector of angles %r", v)
    x, x0, x1 = c["circ"]
    w = (x1 - x0) % 360
    if w != 180:
        lo, width = (x0, w) if w < 180 else (x1, 360 - w)
        want = (x - lo) % 360 <= width
        check(bool(geodesy.isbetween_circular(x, x0, x1)) == want, "isbetween_circular(%r, %r, %r) is not %r", x, x0, x1, want)
        ctx.label("between", want)
    # plane
    x1, y1, x2, y2 = c["xy"]
    check(abs(geodesy.plane_distance(x1, y1, x2, y2) - math.hypot(x2 - x1, y2 - y1)) <= 1e-12, "plane_distance of %r", c["xy"])
    if (x1, y1) != (x2, y2):
        az = geodesy.plane_azimuth(x1, y1, x2, y2)
        h = math.hypot(x2 - x1, y2 - y1)
        check(abs(h * math.sin(az) - (x2 - x1)) < 1e-12 * 30 and abs(h * math.cos(az) - (y2 - y1)) < 1e-12 * 30, "plane_azimuth of %r is %r", c["xy"], az)
    v = geodesy.plane_distance([x1, x2, 0], [y1, y2, 0], [x2, 0, x1], [y2, 1, y1])
    check([round(t, 9) for t in v] == [round(math.hypot(*t), 9) for t in ((x2 - x1, y2 - y1), (x2, 1 - y2), (x1, y1))], "vector of plane distances %r", v)
    ctx.nontrivial(any(dang(v, 0) != abs(v) for v in c["ang"]) or len(pairs) > 1)


def crsgeod(c, ctx):
    a, b, g = ell(c["ell"])
    k = c["kind"]
    K = GeographicalCRS("+ellps=" + c["ell"], "x", datum="") if k == "lonlat" else ProjectedCRS("+proj=%s +lon_0=10 +ellps=%s" % (k, c["ell"]))
    check(abs(K.ellipsoid.a - a) < 2e-3 and abs(K.ellipsoid.b - b) < 2e-3, "ellipsoid %r of %r", (K.ellipsoid.a, K.ellipsoid.b), c["ell"])
    V = c["v"]
    inv, fwd = [], []
    for v in V:
        inv.append(g.inv(*v[:4])); fwd.append(g.fwd(v[0], v[1], v[4], v[5] * a))
    if c["form"] == "scalar":
        gi = [K.inverse(*v[:4]) for v in V]
        gf = [K.forward(v[0], v[1], v[4], v[5] * a) for v in V]
    else:
        conv = list if c["form"] == "list" else np.array
        cols = [conv([float(v[i]) for v in V]) for i in range(6)]
        try:
            gi = list(zip(*K.inverse(*cols[:4])))
            gf = list(zip(*K.forward(cols[0], cols[1], cols[4], conv([v[5] * a for v in V]))))
        except TypeError as e:
            if c["form"] != "list":
                raise
            ctx.label("lists refused"); return
    for v, i, I in zip(V, gi, inv):
        check(abs(i[2] - I[2]) <= 1e-8 * a * 0.1 + 4e-3, "distance %r, expected %r", i[2], I[2])
        azcheck(g, v[:2], v[2:4], i[0], i[1], i[2], I[0], I[1], I[2], "CRS.inverse")
        check(-180 <= i[0] <= 180 and -180 <= i[1] <= 180, "azimuths %r", i)
    for v, f, F in zip(V, gf, fwd):
        check(sameplace(g, f[0], f[1], F[0], F[1], 4e-3 * 3), "CRS.forward from %r arrived at %r, expected %r", v, f, F)
        if abs(F[1]) < 89.9:
            check(dang(f[2], F[2]) < 1e-5, "CRS.forward from %r: back azimuth %r, expected %r", v, f[2], F[2])
    # angles in radians, on the same ellipsoid and on the plane
    if c["rad"]:
        R = math.radians
        for v, i, f in zip(V, gi if c["form"] == "scalar" else [], gf):
            j = K.inverse(*[R(x) for x in v[:4]], radians=True)
            check(abs(j[2] - i[2]) <= 1e-8 * a, "distance %r in radians, %r in degrees", j[2], i[2])
            azcheck(g, v[:2], v[2:4], math.degrees(j[0]), math.degrees(j[1]), i[2], i[0], i[1], i[2], "CRS.inverse in radians")
            h = K.forward(R(v[0]), R(v[1]), R(v[4]), v[5] * a, radians=True)
            check(sameplace(g, math.degrees(h[0]), math.degrees(h[1]), f[0], f[1], 1e-2), "CRS.forward in radians arrived at %r, in degrees at %r", h, f)
        for v in V:
            x, y, d = v[0] * 1e3, v[1] * 1e3, abs(v[5])
            az = v[4]
            X, Y, B = Cartesian.forward(x, y, az, d)
            near = lambda p, q: abs(p - q) <= 1e-9 * (1 + abs(q))
            check(near(X, x + d * math.sin(R(az))) and near(Y, y + d * math.cos(R(az))) and dang(B, az + 180) < 1e-9, "Cartesian.forward of %r is %r", v, (X, Y, B))
            X2, Y2, B2 = Cartesian.forward(x, y, R(az), d, radians=True)
            check(near(X2, X) and near(Y2, Y) and dang(math.degrees(B2), B) < 1e-9, "Cartesian.forward in radians %r, in degrees %r", (X2, Y2, B2), (X, Y, B))
            u, w = v[2] * 1e3, v[3] * 1e3
            if (u, w) != (x, y):
                A, B, D = Cartesian.inverse(x, y, u, w)
                check(near(D, math.hypot(u - x, w - y)) and abs(x + D * math.sin(R(A)) - u) <= 1e-9 * (1 + D + abs(u)) and abs(y + D * math.cos(R(A)) - w) <= 1e-9 * (1 + D + abs(w)) and dang(B, A + 180) < 1e-9,
                      "Cartesian.inverse of %r is %r", v, (A, B, D))
                A2, B2, D2 = Cartesian.inverse(x, y, u, w, radians=True)
                check(near(D2, D) and dang(math.degrees(A2), A) < 1e-9 and dang(math.degrees(B2), B) < 1e-9, "Cartesian.inverse in radians %r, in degrees %r", (A2, B2, D2), (A, B, D))
            if k == "lonlat":
                check(tuple(K.project(v[0], v[1])) == (v[0], v[1]), "projecting geographic coordinates")
                pr = K.project(v[0], v[1], radians=True)
                check(near(pr[0], R(v[0])) and near(pr[1], R(v[1])), "coordinates %r in radians are %r", v[:2], pr)
            check(tuple(Cartesian.project(x, y)) == (x, y) and tuple(Cartesian.project(x, y, inverse=True)) == (x, y), "projecting Cartesian coordinates")
        ctx.label("radians")
    ctx.nontrivial(any(generic(v[:2], v[2:4]) for v in V))


CHECKS = {"inverse": inverse, "forward": forward, "area": area, "sphere": sphere, "crs": crsgeod}
