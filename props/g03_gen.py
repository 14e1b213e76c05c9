from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a position (anywhere between the latitude limits, on edges and corners of tiles, on the dateline, in geographic or projected coordinates) and zoom levels, or a tile address. "
        "Non-trivial: zoom levels above zero and below the finest, with the position strictly inside a tile.")
ASSUMPTIONS = ["latitudes within the limits of web mercator (about 85.05 degrees)", "positions within rounding of an edge may be placed on either side of it"]
Z = st.one_of(sint(0, 6), sint(0, 18), sint(0, 24))


@st.composite
def contain(draw):
    k = draw(samp(["lonlat", "lonlat", "sph", "merc", "utm", "laea"]))
    z = draw(Z)
    where = draw(samp(["any", "corner", "edge", "limit"])) if k in ("lonlat", "sph") else "any"
    n = 2 ** z
    if k == "utm":
        p = [draw(rnd(-116, -108, 4)), draw(rnd(-70, 75, 4))]
    elif k == "laea":
        p = [draw(rnd(-60, 60, 4)), draw(rnd(-50, 50, 4))]
    else:
        p = [draw(st.one_of(fl(-180, 180), rnd(-180, 180, 5), samp([180, -180, 179.9999999, -179.9999999, 0, 190, -270, 360]))), draw(st.one_of(fl(-85, 85), rnd(-85, 85, 5), samp([0, 85.05, -85.05, 66.5])))]
    if k == "merc":
        p[0] = max(-179.999, min(179.999, p[0]))
    ij = [draw(sint(0, n)), draw(sint(0, n))]
    if draw(sint(0, 3)) == 0:
        ij[draw(sint(0, 1))] = draw(samp([0, n]))
    return {"crs": k, "p": p, "z": z, "k": draw(sint(1, 6)), "where": where, "ij": ij, "rank3": draw(samp([0, 0, 1])), "fz": draw(st.booleans())}


@st.composite
def nest(draw):
    z = draw(Z)
    n = 2 ** z
    t = [draw(sint(0, n - 1)), draw(sint(0, n - 1))]
    if draw(sint(0, 2)) == 0:
        t[draw(sint(0, 1))] = draw(samp([0, n - 1]))
    return {"z": z, "t": t, "o": draw(tuples(samp([0, 0, 1, -1]), samp([0, 0, 1, -1]), samp([0, 0, 1]))), "f": draw(tuples(rnd(0.01, 0.99, 3), rnd(0.01, 0.99, 3))), "k": draw(sint(0, 8))}


ASPECTS = {
    "contain": {"strategy": contain(), "quick": 6000, "shards": 2},
    "nest": {"strategy": nest(), "quick": 5000, "shards": 2},
}
