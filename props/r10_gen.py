from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a single-band isometric grid (dtype, nodata cells, origin) written with a header reference and nodata marker, or a hand-written file "
        "(header order, case, centre/corner reference, missing nodata record). Non-trivial: at least two rows, not symmetric top to bottom, or some nodata cell; or a grid that cannot be represented.")
ASSUMPTIONS = ["positive cell size; data values differ from the nodata marker"]


@st.composite
def roundtrip(draw):
    g = draw(gridspec(maxn=12, dtypes=["float64", "float32", "int16", "int32", "uint8"], nbmax=1))
    if draw(sint(0, 9)) == 0:
        g["nb"] = 2
    d = draw(samp([1.0, 0.5, 30.0, 0.1, 3.7, 10.0]))
    T = [draw(fl(-1000, 1000)), draw(fl(-1000, 1000)), d, d, 0.0, 0.0]
    bad = draw(st.one_of(st.none(), st.none(), st.none(), samp(["dx", "sx", "sy", "both"])))
    if bad == "dx":
        T[2] = d * 2
    elif bad == "sx":
        T[4] = d / 4
    elif bad == "sy":
        T[5] = d / 4
    elif bad == "both":
        T[4] = T[5] = d / 4
    g["T"] = T
    if draw(st.booleans()):
        g["scale"] = 0.37
    ny, nx = g["size"]
    holes = draw(st.lists(tuples(sint(0, ny - 1), sint(0, nx - 1)), max_size=4))
    return {"g": g, "bad": bad, "ref": draw(samp(["corner", "center"])), "marker": draw(samp([None, -9999, -1, -32768])), "nodata": draw(samp([None, 200, 0])),
            "holes": holes, "fileobj": draw(st.booleans())}


@st.composite
def handmade(draw):
    ny, nx = draw(sint(1, 8)), draw(sint(1, 8))
    if rare(draw, 30):
        nx = 40
    vals = [[draw(sint(-50, 50)) for _ in range(nx)] for _ in range(ny)]
    perm = draw(st.permutations(list(range(6))))
    return {"vals": vals, "perm": list(perm), "ref": draw(samp(["corner", "center"])), "case": draw(samp(["upper", "lower", "mixed"])),
            "x": draw(fl(-100, 100)), "y": draw(fl(-100, 100)), "d": draw(samp([1.0, 0.5, 30.0, 0.1])), "nd": draw(samp([None, -9999, -7, 13])), "sep": draw(samp([" ", "  ", "\t"]))}


ASPECTS = {"roundtrip": {"strategy": roundtrip(), "quick": 2500, "shards": 5, "cost": 2},
           "handmade": {"strategy": handmade(), "quick": 1500, "shards": 3, "cost": 2}}
