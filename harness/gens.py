"""Strategy helpers. Every strategy yields plain JSON-able values."""
from hypothesis import strategies as st

sint = st.integers
samp = st.sampled_from


def fl(lo, hi, nice=True):
    """floats: mostly on a coarse lattice (so that ties and exact coincidences
    happen), sometimes arbitrary."""
    a = st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64).map(lambda v: v + 0.0)
    if not nice:
        return a
    q = st.integers(int(lo * 4), int(hi * 4)).map(lambda k: k / 4.0)
    i = st.integers(int(lo), int(hi)).map(float)
    return st.one_of(i, q, a)


def rnd(lo, hi, nd=3):
    """uniform-ish decimals with nd digits: generic position, short JSON"""
    s = 10 ** nd
    return st.integers(int(lo * s), int(hi * s)).map(lambda k: k / float(s))


def tuples(*a):
    return st.tuples(*a).map(list)


def lists(a, lo, hi):
    return st.lists(a, min_size=lo, max_size=hi)


def rare(draw, k):
    """true in about one of k cases; shrinks to false"""
    return draw(sint(0, k - 1)) == k - 1


@st.composite
def longline(draw, nmax=120, lo=-9, hi=9, nmin=17):
    """many different lattice points, from few choices"""
    m = hi - lo + 1
    n = draw(sint(nmin, min(nmax, m * m)))
    a, b = draw(samp([7, 1, 23, 53, 101, 150])), draw(sint(0, m * m - 1))
    return [[lo + k % m, lo + k // m] for k in [(a * i + b) % (m * m) for i in range(n)]]


@st.composite
def cheese(draw, nmax=16):
    """rings of a polygon with many disjoint holes"""
    out = [[[-9, -9], [9, -9], [9, 9], [-9, 9]]]
    for c in draw(st.lists(sint(0, 15), min_size=min(3, nmax), max_size=nmax, unique=True)):
        x, y, s = -8.5 + 4.5 * (c % 4), -8.5 + 4.5 * (c // 4), draw(samp([3, 2, 0.5]))
        r = [[x, y], [x + s, y], [x + s, y + s], [x, y + s]][:draw(samp([3, 4]))]
        out.append(r[::-1] if draw(st.booleans()) else r)
    return out


@st.composite
def gridspec(draw, maxn=14, minn=1, dtypes=("float64",), nbmax=3, T=None, stores=True, wide=True):
    ny, nx = draw(sint(minn, maxn)), draw(sint(minn, maxn))
    if wide and rare(draw, 24):
        # one long side
        if draw(st.booleans()):
            nx = draw(samp([33, 70, 130, 260]))
        else:
            ny = draw(samp([33, 70, 130, 260]))
    s = {"size": [ny, nx], "nb": draw(sint(1, nbmax if not rare(draw, 24) or nbmax < 3 else 7)), "dtype": draw(samp(list(dtypes))),
         "pat": [draw(sint(1, 97)), draw(sint(1, 97)), draw(sint(1, 97)), draw(samp([2, 5, 53, 101, 113])), draw(samp([0, 0, 1, 10]))]}
    if stores:
        s["store"] = draw(st.one_of(st.just("default"), st.just("simple"), tuples(sint(1, 9), sint(1, 9))))
    if T is not None:
        s["T"] = draw(T)
    return s


@st.composite
def transforms(draw, neg=True, skew=True):
    res = samp([1.0, 0.5, 2.0, 0.1, 10.0, 30.0, 0.25, 1.5, 3.7])
    dx, dy = draw(res), draw(res)
    if draw(st.booleans()):
        dy = dx
    if neg:
        dx *= draw(samp([1, 1, -1])); dy *= draw(samp([1, 1, -1]))
    sx = sy = 0.0
    if skew and draw(sint(0, 2)) == 0:
        # |sx*sy| < |dx*dy| keeps the transform invertible
        sx = draw(samp([-0.6, -0.25, 0.0, 0.25, 0.6])) * abs(dy)
        sy = draw(samp([-0.6, -0.25, 0.0, 0.25, 0.6])) * abs(dx)
    return [draw(fl(-100, 100)), draw(fl(-100, 100)), dx, dy, sx, sy]
