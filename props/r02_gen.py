from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a grid (size, bands, dtype, band storage) and a history of reads/writes through integer, slice and boolean-mask keys, "
        "row iteration, copies and in-place/out-of-place function application, compared after every step with a numpy (row, column, band) array. "
        "Non-trivial: the history contains a write followed by a read that covers a written cell, or a read of more than one cell through a stepped/reversed slice or mask.")
ASSUMPTIONS = ["numpy basic and boolean indexing is the reference", "integer indices are in range; assignments use unit-step row and column slices (documented limit)"]
DT = ["float64", "float32", "int16", "int32", "uint8", "uint16", "int64"]


def key(n, unit):
    idx = sint(-n, n - 1)
    end = st.one_of(st.none(), sint(-n - 2, n + 2))
    step = st.just(None) if unit else samp([None, None, 1, 2, -1, -2, 3, -3])
    sl = st.tuples(end, end, step).map(lambda t: {"s": list(t)})
    full = st.just({"s": [None, None, None]})
    return st.one_of(idx, sl, full, sl)


mask = st.fixed_dictionaries({"m": samp([2, 3]), "p": tuples(sint(1, 9), sint(1, 9), sint(0, 9), sint(2, 7), sint(0, 7))})


@st.composite
def history(draw, big=False):
    g = draw(gridspec(maxn=14, dtypes=DT, nbmax=4))
    if big:
        g["size"] = [draw(sint(250, 530)), draw(sint(250, 530))]
        g["store"] = draw(samp(["default", [256, 256], [100, 37]]))
        g["nb"] = draw(sint(1, 2))
    ny, nx = g["size"]; nb = g["nb"]
    if nb > 1 and not big and draw(sint(0, 5)) == 0:
        # bands of different data types, as files combined into one grid have
        g["types"] = draw(st.lists(samp(["float64", "float32", "int16", "uint8", "int32"]), min_size=nb, max_size=nb))
        g["scale"] = 0.37
    ops = []
    for _ in range(draw(sint(1, 4 if big else 8))):
        k = draw(samp(["get", "get", "set", "set", "getm", "setm", "iter", "copy", "apply", "aliased"]))
        if k in ("get", "set"):
            u = k == "set"
            form = draw(samp([3, 3, 2, 1]))
            if form == 1:
                kk = [draw(key(ny, u).filter(lambda q: isinstance(q, dict)))]
            elif form == 2:
                kk = [draw(key(ny, u)), draw(key(nx, u))]
            else:
                kk = [draw(key(ny, u)), draw(key(nx, u)), draw(key(nb, False))]
            op = [k, kk]
            if u:
                op.append(draw(samp(["scalar", "block", "plane"])))
        elif k in ("getm", "setm"):
            op = [k, draw(mask)]
            if k == "setm":
                op.append(draw(samp(["scalar", "vector"])))
        elif k == "apply":
            op = [k, draw(st.booleans())]
        else:
            op = [k]
        ops.append(op)
    return {"g": g, "ops": ops}


ASPECTS = {
    "history": {"strategy": history(), "quick": 4000, "shards": 5},
    "large": {"strategy": history(big=True), "quick": 120, "shards": 3, "cost": 30},
}
