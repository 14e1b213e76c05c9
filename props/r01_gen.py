from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a band (class, size, dtype, chunk size, initial value) and a history of block writes and reads. "
        "Non-trivial: at least two writes overlap or a block touches two or more chunks, and something is read back afterwards.")
ASSUMPTIONS = ["blosc compress/decompress itself is lossless", "blocks lie inside the band (documented domain)"]

DT = ["uint8", "int16", "int32", "int64", "uint16", "uint32", "float32", "float64", "bool", "complex128"]


@st.composite
def history(draw, big=False):
    cls = draw(samp(["CompressedBand", "CompressedBand", "SimpleBand"]))
    if big:
        ny, nx = draw(sint(200, 620)), draw(sint(200, 620))
        chunk = draw(samp([None, [256, 256], [100, 64], [17, 300]]))
        nops = 5
    else:
        ny, nx = draw(sint(1, 24)), draw(sint(1, 24))
        chunk = draw(st.one_of(st.none(), tuples(sint(1, 12), sint(1, 12)), tuples(sint(1, 30), sint(1, 30))))
        nops = 9
    dt = draw(samp(DT))
    init = draw(st.one_of(st.none(), sint(0, 1))) if dt == "bool" else draw(st.one_of(st.none(), sint(0, 100)))
    ops = []
    for _ in range(draw(sint(1, nops))):
        k = draw(samp(["set", "set", "get", "getall", "setrow", "set1"]))
        y = draw(sint(0, ny - 1)); x = draw(sint(0, nx - 1))
        if k == "set1":
            h = w = 1
        elif k == "setrow":
            h = 1; x = 0; w = nx
        elif k == "getall":
            y = x = 0; h = ny; w = nx
        else:
            h = draw(sint(1, ny - y)); w = draw(sint(1, nx - x))
        ops.append(["get" if k.startswith("get") else "set", y, x, h, w, draw(sint(0, 2))])
    return {"cls": cls, "size": [ny, nx], "dtype": dt, "chunk": chunk, "init": init, "ops": ops}


ASPECTS = {
    "history": {"strategy": history(), "quick": 4000, "shards": 4},
    "large": {"strategy": history(big=True), "quick": 240, "shards": 2, "cost": 12},
}
