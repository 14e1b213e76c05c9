from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is an ellipsoid (a named one, a sphere, or arbitrary axes) with two positions, or a position, azimuth and distance: anywhere, on poles, equator, meridians and dateline, very close, or nearly antipodal. "
        "Non-trivial: the positions differ, and are not on a common meridian or the equator; for scalar functions, the angle wraps or the arguments are vectors.")
ASSUMPTIONS = ["oblate ellipsoids with inverse flattening above 150, and spheres", "azimuths are compared by the displacement they cause, and not judged at coincident, antipodal or conjugate positions, where several are right",
               "areas under geodesics joining opposite poles, or with nearly antipodal longitudes (where the shortest path may pass either pole), are not judged"]
NAMES = ["WGS84", "GRS80", "clrk66", "bessel", "intl", "mprts", "airy", "krass", "sphere", "evrst30", "CPM"]
LON = st.one_of(samp([0, 90, -90, 180, -180, 179.9999, -179.9999, 45]), sint(-180, 180), fl(-180, 180, nice=False), rnd(-180, 180, 3), fl(-400, 400, nice=False))
LAT = st.one_of(samp([0, 90, -90, 45, 89.9999, -89.9999, 1e-9, 30, -30]), sint(-90, 90), fl(-90, 90, nice=False), rnd(-90, 90, 3))
EPS = samp([0, 0, 1e-9, -1e-7, 1e-5, 1e-3, -0.02, 0.1, -0.3, 0.4, 1, -3])
ELL = st.one_of(samp(NAMES), tuples(samp([1.0, 6378137.0, 3396190.0, 6.4e6]), st.one_of(rnd(150, 400, 2), samp([300, 298.25]))))


@st.composite
def pair(draw):
    p = [draw(LON), draw(LAT)]
    k = draw(samp(["any", "any", "near", "anti", "merid", "par"]))
    if k == "any":
        q = [draw(LON), draw(LAT)]
    elif k == "near":
        q = [p[0] + draw(EPS), p[1] + draw(EPS)]
    elif k == "anti":
        q = [p[0] + 180 + draw(EPS), -p[1] + draw(EPS)]
    elif k == "merid":
        q = [p[0] + draw(samp([0, 180, -180, 360])), draw(LAT)]
    else:
        q = [draw(LON), p[1] * draw(samp([1, 1, -1]))]
    q[1] = max(-90, min(90, q[1]))
    return {"ell": draw(ELL), "p": p, "q": q, "k": k}


AZ = st.one_of(samp([0, 90, 180, -90, 270, -180, 360, 1e-9, 45]), fl(-180, 180, nice=False), sint(-360, 360))
DIST = st.one_of(samp([0, 1e-10, 1e-6, 1e-3, 0.5, 1, 1.5707963267948966, 3.141592653589793, 3.2, 7]), rnd(0, 4, 3), rnd(0, 0.01, 5), rnd(-2, 0, 2))


@st.composite
def forward(draw):
    return {"ell": draw(ELL), "p": [draw(LON), draw(LAT)], "az": draw(AZ), "d": draw(DIST)}


@st.composite
def sphere(draw):
    c = draw(pair())
    c["ell"] = "sphere"
    c["more"] = draw(st.lists(tuples(LON, LAT), min_size=0, max_size=3))
    c["ang"] = draw(st.lists(st.one_of(sint(-1100, 1100), sint(-12, 12).map(lambda k: k * 90), fl(-800, 800)), min_size=1, max_size=4))
    c["circ"] = draw(st.lists(st.one_of(sint(-180, 180), sint(-400, 400)), min_size=3, max_size=3))
    c["xy"] = draw(tuples(sint(-9, 9), sint(-9, 9), sint(-9, 9), sint(-9, 9)))
    c["r"] = draw(samp([1.0, 6371000.0, 0.5]))
    return c


@st.composite
def crsgeod(draw):
    n = draw(sint(1, 4))
    return {"ell": draw(samp(NAMES + ["WGS72", "helmert", "aust_SA", "GRS67"])), "kind": draw(samp(["lonlat", "merc", "laea", "eqc", "tmerc"])),
            "v": [[draw(LON), draw(LAT), draw(LON), draw(LAT), draw(AZ), draw(DIST)] for _ in range(n)], "form": draw(samp(["scalar", "list", "array"])), "rad": draw(st.booleans())}


ASPECTS = {
    "inverse": {"strategy": pair(), "quick": 6000, "shards": 2},
    "forward": {"strategy": forward(), "quick": 6000, "shards": 1},
    "area": {"strategy": pair(), "quick": 5000, "shards": 2},
    "sphere": {"strategy": sphere(), "quick": 5000, "shards": 1},
    "crs": {"strategy": crsgeod(), "quick": 4000, "shards": 1},
}
