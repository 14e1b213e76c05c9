import json
from karta.vector.table import Table, Indexer, merge as tmerge
from harness.rt import *


def mk(cols, how="dict"):
    if how == "rows":
        f = sorted(cols)
        return Table([tuple(r) for r in zip(*[cols[k] for k in f])], fields=f)
    t = Table({k: list(v) for k, v in cols.items()})
    return Table(t) if how == "table" else t


def agree(t, m, n, what):
    check(len(t) == n, "%s: %d rows, expected %d", what, len(t), n)
    check(set(t.fields) == set(m), "%s: fields %r, expected %r", what, sorted(t.fields), sorted(m))
    for k in m:
        check(k in t, "%s: field %r not found", what, k)
        got = list(t.getfield(k))
        check(got == list(m[k]), "%s: field %r holds %r, expected %r", what, k, got, m[k])
        check(list(Indexer(t)[k]) == list(m[k]), "%s: indexer field %r", what, k)
    for i in range(n):
        check(t.get(i) == {k: m[k][i] for k in m}, "%s: row %d is %r, expected %r", what, i, t.get(i), {k: m[k][i] for k in m})


def history(c, ctx):
    m = {k: list(v) for k, v in c["t"]["cols"].items()}
    n = c["t"]["n"]
    t = mk(m, c["how"])
    agree(t, m, n, "new table")
    frozen = []
    changing = 0
    for op in c["ops"]:
        k = op[0]
        if k == "setfield":
            t.setfield(op[1], list(op[2])); m[op[1]] = list(op[2]); changing += 1
        elif k == "setitem":
            fs = list(t._fields)
            t[op[1]] = tuple(op[2][:len(fs)]) if len(fs) <= 6 else None
            for f, v in zip(fs, op[2]):
                m[f][op[1]] = v
            changing += 1
        elif k == "del":
            del t[op[1]]
            for f in m:
                del m[f][op[1]]
            n -= 1; changing += 1
        elif k == "extend":
            o = op[1]
            if o["n"] == 0:
                other = Table(size=0, fields=sorted(o["cols"]))
            else:
                other = mk(o["cols"])
            t.extend(other)
            for f in m:
                m[f] = m[f] + (list(o["cols"][f]) if f in o["cols"] else [None] * o["n"])
            n += o["n"]; changing += 1
            if o["n"]:
                agree(other, o["cols"], o["n"], "table used to extend another")
        elif k in ("updated", "updatedt"):
            frozen.append((t, {f: list(v) for f, v in m.items()}, n))
            arg = {f: list(v) for f, v in op[1].items()}
            if k == "updatedt" and arg:
                arg = mk(arg)
            t = t.updated(arg)
            m = {f: list(v) for f, v in m.items()}
            m.update({f: list(v) for f, v in op[1].items()}); changing += 1
        elif k == "copy":
            frozen.append((t, {f: list(v) for f, v in m.items()}, n))
            t2 = Table(t)
            check(t2 == t, "a copy of a table differs from it")
            t = t2
            m = {f: list(v) for f, v in m.items()}
        elif k == "get":
            exp = {f: m[f][op[1]] for f in m}
            check(t.get(op[1]) == exp and Indexer(t)[op[1]] == exp, "get(%d) is %r, expected %r", op[1], t.get(op[1]), exp)
        elif k == "slice":
            s = slice(*op[1:])
            exp = {f: m[f][s] for f in m}
            got = Indexer(t)[s]
            check(set(got) == set(exp) and all(list(got[f]) == exp[f] for f in exp), "rows %r are %r, expected %r", s, got, exp)
        agree(t, m, n, "after %r" % (op,))
    for ft, fm, fn in frozen:
        agree(ft, fm, fn, "earlier table, after changes to a copy or update of it")
    check(raises(KeyError, t.getfield, "missing"), "getfield of a missing field did not raise KeyError")
    if n:
        check(raises(ValueError, t.setfield, "a", [0] * (n + 1)), "setfield with the wrong length did not raise ValueError")
        agree(t, m, n, "after a refused setfield")
    ctx.nontrivial(n >= 2 and len(m) >= 2 and changing >= 2)


def create(c, ctx):
    k, n = c["k"], c["n"]
    if k == "list":
        agree(Table(list(c["vals"])), {"value": list(c["vals"])}, len(c["vals"]), "table of a list")
        ctx.nontrivial(len(c["vals"]) > 1)
    elif k == "size":
        agree(Table(size=n), {}, n, "table of a size")
    elif k == "sizef":
        agree(Table(size=n, fields=c["fields"]), {f: [None] * n for f in c["fields"]}, n, "table of a size and fields")
        ctx.nontrivial(n > 1 and len(c["fields"]) > 1)
    elif k == "scalar":
        agree(Table(3), {"value": [3]}, 1, "table of a scalar") if False else None
    elif k == "onedict":
        d = {f: v for f, v in zip(c["fields"], c["vals"])}
        agree(Table(d), {f: [v] for f, v in d.items()}, 1, "table of scalars")
        ctx.nontrivial(len(d) > 1)
    else:
        agree(Table({}), {}, 0, "table of nothing")
        check(raises(ValueError, Table), "a table of neither data nor size")


def merge(c, ctx):
    items, keys, n = [], None, 0
    for k, t in c["items"]:
        ks = set(t["cols"])
        keys = ks if keys is None else keys & ks
        if k == "table":
            items.append(mk(t["cols"])); n += t["n"]
        else:
            items.append({f: v[0] for f, v in t["cols"].items()}); n += 1
    r = tmerge(items)
    exp = {f: [] for f in keys}
    for k, t in c["items"]:
        for f in keys:
            exp[f] += list(t["cols"][f]) if k == "table" else [t["cols"][f][0]]
    agree(r, exp, n, "merged table")
    for (k, t), it in zip(c["items"], items):
        if k == "table":
            agree(it, t["cols"], t["n"], "a table, after it was merged")
    ctx.nontrivial(len(items) > 1 and len(keys) > 0)
    ctx.label("mixed", len(set(k for k, _ in c["items"])) > 1)


CHECKS = {"history": history, "create": create, "merge": merge}
