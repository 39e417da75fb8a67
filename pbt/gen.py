"""Generators shared by the checks.  Everything drawn is JSON-serialisable."""
from hypothesis import strategies as st


def grid(lo, hi, n=1 << 16):
    """A number of [lo, hi] on a grid of n steps (both ends reachable); shrinks towards lo."""
    return st.integers(0, n).map(lambda i: lo + (hi - lo) * (i / n))


def coarse(lo, hi, n=6):
    """Few distinct values, so that ties and duplicates are common."""
    return grid(lo, hi, n)


def vec(elem, n):
    return st.lists(elem, min_size=n, max_size=n)


def mat(elem, n, m):
    return vec(vec(elem, m), n)


@st.composite
def matrices(draw, elem, rows, cols):
    """rows/cols: int or (lo, hi)."""
    n = draw(st.integers(*rows)) if isinstance(rows, tuple) else rows
    m = draw(st.integers(*cols)) if isinstance(cols, tuple) else cols
    return draw(mat(elem, n, m))


@st.composite
def general_position(draw, n, m, lo=0.0, hi=1.0, jitter=0.5):
    """n points in m dimensions, all coordinates of one axis pairwise at least
    (1-jitter)*(hi-lo)/n apart; every order of the axes is reachable."""
    cols = []
    for _ in range(m):
        perm = draw(st.permutations(range(n)))
        js = draw(vec(grid(0.0, jitter, 64), n))
        cols.append([lo + (hi - lo) * (p + j) / n for p, j in zip(perm, js)])
    return [[cols[k][i] for k in range(m)] for i in range(n)]


@st.composite
def front_position(draw, n, m, lo=0.0, hi=1.0, jitter=0.5):
    """General position, but with mostly non-dominated points: the last axis is ordered against
    the first, with a few swaps."""
    pts = draw(general_position(n, m, lo, hi, jitter))
    if n < 2 or m < 2:
        return pts
    order = sorted(range(n), key=lambda i: pts[i][0])
    last = sorted((p[m - 1] for p in pts), reverse=True)
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, n - 1))
        j = draw(st.integers(0, n - 1))
        last[i], last[j] = last[j], last[i]
    for r, i in enumerate(order):
        pts[i][m - 1] = last[r]
    return pts


KINDS = ("uniform", "front", "sphere", "coarse", "near")


@st.composite
def cloud(draw, n, m, kinds=KINDS, lo=0.0, hi=1.0):
    """n points, n being too large to draw every coordinate: from a drawn seed.  "near": differences of 1e-5 to one
    unit in the last place between coarse values."""
    import numpy as np

    rng = np.random.default_rng(draw(st.integers(0, 1 << 20)))
    kind = draw(st.sampled_from(kinds))
    if kind == "uniform":
        Y = rng.random((n, m))
    elif kind in ("front", "sphere"):
        Y = -np.log(1 - rng.random((n, m)))
        Y = Y / (Y.sum(1, keepdims=True) if kind == "front" else np.sqrt((Y**2).sum(1, keepdims=True)))
        if kind == "sphere":
            Y = 1 - Y
    else:
        Y = rng.integers(0, 4, (n, m)) / 3.0
        if kind == "near":
            Y = Y + rng.integers(0, 3, (n, m)) * draw(st.sampled_from([1e-5, 1e-7, 1e-9, 1e-12, 2.3e-16]))
    if n > 1:
        for _ in range(draw(st.sampled_from([0, 0, 1, 3]))):
            Y[rng.integers(n)] = Y[rng.integers(n)]
    return (lo + (hi - lo) * Y).tolist()


AFFINE = [(0.0, 1.0), (0.0, 1.0), (1e3, 1.0), (-1e3, 1.0), (1e6, 1.0), (0.0, 1e4), (0.0, 1e-4), (1.0, 1e-3), (-1e5, 1e2)]


def affine(draw, m):
    """an origin and a unit per axis"""
    pick = draw(vec(st.sampled_from(AFFINE), m))
    if draw(st.booleans()):
        pick = [pick[0]] * m
    return [p[0] for p in pick], [p[1] for p in pick]
