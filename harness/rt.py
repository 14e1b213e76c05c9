"""Run-time helpers shared by the PyPy-side checks."""
import math


class Violation(Exception):
    pass


class Skip(Exception):
    """The case is outside the decidable domain (counted, never a verdict)."""


class HarnessError(Exception):
    pass


class Ctx(object):
    def __init__(self):
        self.nt = False
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, name, cond=True):
        if cond:
            self.labels.append(name)


def fail(fmt, *args):
    raise Violation(fmt % args if args else fmt)


def check(cond, fmt, *args):
    if not cond:
        fail(fmt, *args)


def close(a, b, rtol=1e-9, atol=1e-9):
    a = float(a); b = float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def allclose(a, b, rtol=1e-9, atol=1e-9):
    a = list(a); b = list(b)
    return len(a) == len(b) and all(close(x, y, rtol, atol) for x, y in zip(a, b))


def ang_close(a, b, tol):
    """angles in degrees, equal modulo 360"""
    d = (float(a) - float(b)) % 360.0
    return min(d, 360.0 - d) <= tol


def unless(default, **kw):
    """keyword arguments, left out when they have the documented default"""
    return {k: v for k, v in kw.items() if not (type(v) is type(default) and v == default)}


def raises(exc, fn, *args, **kw):
    try:
        fn(*args, **kw)
    except exc:
        return True
    return False
