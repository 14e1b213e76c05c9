"""PyPy side: coordinate systems by name, and exact planar helpers."""
import math
import numpy as np
import karta
from karta import crs as kcrs
from karta.vector.geometry import Point, Line, Polygon, Multipoint, Multiline, Multipolygon
from karta.vector.table import Table
from harness.rt import *
from harness.oracles import proj

EPSG = {"lonlat": "EPSG:4326", "merc": "EPSG:3857", "utm": "EPSG:32612", "utm2": "EPSG:32612", "utm11": "EPSG:32611", "laea": "+proj=laea +lat_0=45 +lon_0=-110 +datum=WGS84 +units=m +no_defs"}
_crs = {}


def crs(name):
    if name not in _crs:
        _crs[name] = {"cart": lambda: kcrs.Cartesian, "lonlat": lambda: kcrs.LonLatWGS84, "sph": lambda: kcrs.SphericalEarth, "merc": lambda: kcrs.WebMercator,
                      # names mean nothing: different systems share one, equal systems have several
                      "utm": lambda: kcrs.ProjectedCRS("+proj=utm +zone=12 +datum=WGS84 +units=m +no_defs", name="grid"),
                      "utm2": lambda: kcrs.ProjectedCRS("+proj=utm +zone=12 +datum=WGS84 +units=m +no_defs", name="utm12"),
                      "utm11": lambda: kcrs.ProjectedCRS("+proj=utm +zone=11 +datum=WGS84 +units=m +no_defs", name="grid"),
                      "laea": lambda: kcrs.ProjectedCRS(EPSG["laea"], name="grid")}[name]()
    return _crs[name]


def to(a, b, xy):
    """transform a list of coordinates with pyproj, keeping z"""
    if a == b:
        return [tuple(p) for p in xy]
    x, y = proj(EPSG[a], EPSG[b]).transform([p[0] for p in xy], [p[1] for p in xy])
    return [(u, v) + tuple(p[2:]) for u, v, p in zip(x, y, xy)]


def coords_close(a, b, tol=0.0, rtol=0.0):
    a = np.asarray(a, float); b = np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol + rtol * np.abs(b)))


def verts(g):
    return [tuple(float(q) for q in v) for v in g.vertices()]
