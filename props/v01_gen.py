from hypothesis import strategies as st
from harness.gens import *

RULE = ("A case is a table (built from a mapping, a list, a size, another table or rows) and a history of field and row operations, or a list of tables and mappings to merge. "
        "Non-trivial: at least two rows and two fields and at least two operations that change or combine tables.")
ASSUMPTIONS = ["fields of a mapping have equal lengths; the order of fields is not judged"]
F = samp(["a", "b", "c", "dd", "e f"])
val = st.one_of(sint(-5, 5), samp(["x", "", "yy", "x y"]), st.none(), samp([0.5, -1.25]))


def column(n):
    return lists(val, n, n) if n < 12 else lists(val, 5, 5).map(lambda q: (q * n)[:n])


@st.composite
def table(draw, nmin=1, nmax=6):
    n = draw(sint(nmin, nmax)) if not rare(draw, 30) else draw(sint(7, 300))
    fields = draw(st.lists(F, min_size=1, max_size=4, unique=True))
    return {"n": n, "cols": {f: draw(column(n)) for f in fields}}


@st.composite
def history(draw):
    t = draw(table())
    n = t["n"]
    ops = []
    for _ in range(draw(sint(1, 7))):
        k = draw(samp(["setfield", "setfield", "setitem", "del", "extend", "updated", "updatedt", "copy", "get", "slice"]))
        if k == "setfield":
            ops.append([k, draw(F), draw(column(n))])
        elif k == "setitem":
            ops.append([k, draw(sint(0, n - 1)), draw(lists(val, 6, 6))])
        elif k == "del":
            if n > 1:
                ops.append([k, draw(sint(0, n - 1))])
                n -= 1
        elif k == "extend":
            o = draw(table(0, 4))
            ops.append([k, o])
            n += o["n"]
        elif k in ("updated", "updatedt"):
            ops.append([k, {f: draw(column(n)) for f in draw(st.lists(F, min_size=0, max_size=3, unique=True))}])
        elif k == "copy":
            ops.append([k])
        elif k == "get":
            ops.append([k, draw(sint(-n, n - 1))])
        else:
            o = st.one_of(st.none(), sint(-n - 1, n + 1))
            ops.append([k, draw(o), draw(o), draw(samp([None, 1, 2, 3, -1, -2]))])
    return {"t": t, "how": draw(samp(["dict", "table", "rows"])), "ops": ops}


@st.composite
def create(draw):
    k = draw(samp(["list", "size", "sizef", "scalar", "onedict", "empty"]))
    return {"k": k, "n": draw(sint(0, 6)), "vals": draw(lists(val, 1, 6)), "fields": draw(st.lists(F, min_size=1, max_size=4, unique=True))}


@st.composite
def merge(draw):
    return {"items": draw(lists(tuples(samp(["table", "dict"]), table(1, 4)), 1, 5))}


ASPECTS = {
    "history": {"strategy": history(), "quick": 6000, "shards": 2},
    "create": {"strategy": create(), "quick": 800, "shards": 1},
    "merge": {"strategy": merge(), "quick": 2500, "shards": 1},
}
