"""Reference implementations (no karta code)."""
import math
import numpy as np
import pyproj

_tr = {}


def proj(a, b):
    k = (a, b)
    if k not in _tr:
        _tr[k] = pyproj.Transformer.from_crs(a, b, always_xy=True)
    return _tr[k]


# ---- exact planar geometry (integers, or Fractions) ----

def orient(a, b, p):
    c = (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])
    return (c > 0) - (c < 0)


def on_seg(p, a, b):
    return orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def seg_touch(a, b, c, d):
    """closed segments share a point"""
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if o1 * o2 < 0 and o3 * o4 < 0:
        return True
    return on_seg(c, a, b) or on_seg(d, a, b) or on_seg(a, c, d) or on_seg(b, c, d)


def ring_segs(r):
    return [(r[i], r[(i + 1) % len(r)]) for i in range(len(r))]


def line_segs(r):
    return [(r[i], r[i + 1]) for i in range(len(r) - 1)]


def winding(p, ring):
    """(on boundary, winding number)"""
    w = 0
    for a, b in ring_segs(ring):
        if on_seg(p, a, b):
            return True, 0
        if a[1] <= p[1] < b[1]:
            if orient(a, b, p) > 0:
                w += 1
        elif b[1] <= p[1] < a[1]:
            if orient(a, b, p) < 0:
                w -= 1
    return False, w


def contains_exact(p, ring):
    b, w = winding(p, ring)
    return b or w != 0
