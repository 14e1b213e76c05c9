from hypothesis import strategies as st
from harness.gens import *
from props.v04_gen import star

RULE = ("A case is a geometry of any type, planar on a lattice (scaled and offset, seen in its own or another coordinate system), or geographic with hops of any length below half a turn, across dateline and around poles. "
        "Non-trivial: at least three different vertices, and for geographic cases a dateline crossing or a bulging edge.")
ASSUMPTIONS = ["consecutive geographic vertices differ by less than 179 degrees of longitude; polygons around a pole lie in one hemisphere",
               "in another coordinate system the box is that of the geometry with the same vertices in that system",
               "the box of a geographic Multipoint has to hold its points; how tight it is, is not judged",
               "parts that do not cross the dateline are joined without crossing it, unless another part crosses it"]
I = sint(-9, 9)


@st.composite
def planar(draw):
    kind = draw(samp(["Line", "Polygon", "Multipoint", "Multiline", "Multipolygon"]))
    line = st.lists(tuples(I, I), min_size=2, max_size=6)
    if kind in ("Line", "Multipoint"):
        v = draw(line) if not rare(draw, 20) else draw(longline())
    elif kind[:5] == "Multi" and rare(draw, 20):
        n = draw(sint(5, 30))
        v = [[[i * 7 % 19 - 9, i * 5 % 19 - 9], [i * 3 % 19 - 9, i * 11 % 19 - 9]] for i in range(n)] if kind == "Multiline" else [draw(cheese(3)) for _ in range(1 + n % 7)]
    elif kind == "Polygon":
        v = [draw(star(6, 4))] + draw(lists(star(2, 1), 0, 1))
    elif kind == "Multiline":
        v = draw(lists(line, 1, 4))
    else:
        v = draw(lists(st.builds(lambda a, b: [a] + b, star(6, 4), lists(star(2, 1), 0, 1)), 1, 4))
    crs = draw(samp(["cart", "utm", "merc", "laea", "lonlat"]))
    return {"kind": kind, "v": v, "z": draw(st.booleans()), "crs": crs, "to": draw(samp([None, "utm", "merc", "laea", "lonlat"])) if crs != "cart" else None,
            "scale": draw(samp([1, 1, 0.125, 1024, 2.0 ** -20])), "off": draw(tuples(samp([0, 0, 1000, -512]), samp([0, 0, 1000, 4096])))}


lat = st.one_of(rnd(-85, 85, 1), samp([0, 45, -45, 60, 80, -75, 89, -89.5, 10, 10]))


@st.composite
def ring(draw):
    """vertices of one line or polygon"""
    mode = draw(samp(["walk", "walk", "dateline", "polar", "spiral", "local"]))
    n = draw(sint(2, 8)) if not rare(draw, 24) else draw(sint(9, 40))
    if mode == "polar":
        s = draw(samp([1, -1])); d = draw(samp([1, -1]))
        az = sorted(draw(st.lists(sint(0, 359), min_size=max(n, 4), max_size=max(n, 4), unique=True)))
        r = draw(st.lists(rnd(5, 88, 1), min_size=len(az), max_size=len(az)))
        return [[float(a * d), s * b] for a, b in zip(az, r)]
    x = draw(samp([180, -180, 179.5, -179, 170, -175])) if mode != "walk" else draw(rnd(-180, 180, 1))
    y = draw(lat)
    out = [[x, y]]
    for _ in range(n):
        if mode == "walk":
            x += draw(st.one_of(rnd(-178, 178, 1), samp([0, 90, -120, 30, 178, -178])))
        elif mode == "spiral":
            x += draw(rnd(20, 170, 0)) * (1 if n % 2 else -1)
        elif mode == "dateline":
            x = 180 + draw(rnd(-30, 30, 1))
        else:
            x += draw(rnd(-3, 3, 2)); y = max(-89.0, min(89.0, y + draw(rnd(-3, 3, 2)))); out.append([x, y]); continue
        y = draw(st.one_of(lat, st.just(y)))
        out.append([x, y])
    return out


@st.composite
def geographic(draw):
    kind = draw(samp(["Line", "Polygon", "Polygon", "Multipoint", "Multiline", "Multipolygon"]))
    k = draw(sint(1, 4) if not rare(draw, 24) else sint(5, 12)) if kind in ("Multiline", "Multipolygon") else 1
    return {"kind": kind, "parts": [draw(ring()) for _ in range(k)], "k": draw(sint(0, 8)), "rev": draw(st.booleans()), "z": draw(samp([0, 0, 1])), "crs": draw(samp(["lonlat", "sph"]))}


ASPECTS = {
    "planar": {"strategy": planar(), "quick": 2400, "shards": 3},
    "geographic": {"strategy": geographic(), "quick": 8000, "shards": 4},
}
