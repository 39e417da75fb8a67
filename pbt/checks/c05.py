"""C05: dominance, nondominated sorting and filtering."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref_hv
from pbt.core import Violation, arr, equal, require, sub


@st.composite
def sets(draw, nmax=24):
    m = draw(st.integers(2, 6))
    n = draw(st.integers(1, nmax))
    kind = draw(st.integers(0, 3))
    if kind == 0:
        Y = draw(gen.mat(gen.coarse(-1.0, 2.0, 3), n, m))
    elif kind == 1:
        Y = draw(gen.mat(gen.coarse(0.0, 5.0, 8), n, m))
    elif kind == 2:
        Y = draw(gen.front_position(n, m))
    else:
        Y = draw(gen.mat(gen.grid(-1.0, 1.0), n, m))
    for _ in range(draw(st.integers(0, 2))):
        Y.append(list(Y[draw(st.integers(0, len(Y) - 1))]))
    return dict(Y=Y)


def note(Y, ev):
    r = ref_hv.layers(Y)
    ev.label(f"m={len(Y[0])}", f"{min(max(r) + 1, 5)} layers")
    if len({tuple(y) for y in Y}) < len(Y):
        ev.label("duplicated point")
    ev.nontrivial(max(r) >= 1 and sum(v == 0 for v in r) >= 2)
    return r


RULE = ("point sets with ties and duplicates in 2..6 objectives; non-trivial: at least two layers and two points in "
        "the first one")


def check_layers(Y, r):
    from hvd.utils import non_domin_sort

    out = non_domin_sort(np.array(Y), only_front_indices=True)
    try:
        got = {int(k): sorted(int(i) for i in v) for k, v in out.items()}
    except Exception as e:  # noqa: BLE001
        raise Violation(f"the layers are not a mapping from numbers to indices: {out!r} ({e})") from None
    want = {}
    for i, k in enumerate(r):
        want.setdefault(k, []).append(i)
    require(got == want, f"layers {got}, expected {want}")


@sub("C05", "sorting", sets(), 1500, 20000, RULE)
def sorting(c, ev):
    Y = c["Y"]
    check_layers(Y, note(Y, ev))


@sub("C05", "sorting_large", lambda: sets(nmax=60), 200, 3000, RULE)
def sorting_large(c, ev):
    Y = c["Y"]
    check_layers(Y, note(Y, ev))


@sub("C05", "sorting_decisions", sets(nmax=12), 400, 5000, "fronts as tuples of decisions, with an objective function; " + RULE)
def sorting_decisions(c, ev):
    from hvd.utils import non_domin_sort

    Y = c["Y"]
    r = note(Y, ev)
    out = non_domin_sort(list(range(len(Y))), get_objectives=lambda i: Y[i])
    require({int(k): sorted(v) for k, v in out.items()} == {k: [i for i, q in enumerate(r) if q == k] for k in set(r)},
            f"fronts {dict(out)}, ranks {r}")
    out = non_domin_sort([tuple(y) for y in Y])
    got = sorted((k, tuple(d)) for k, ds in out.items() for d in ds)
    require(got == sorted((k, tuple(y)) for k, y in zip(r, Y)), "fronts of plain vectors differ from their ranks")


@sub("C05", "filtering", sets(nmax=16), 1200, 15000, "dominance filter; " + RULE)
def filtering(c, ev):
    from hvd.utils import get_non_dominated

    Y = np.array(c["Y"])
    r = note(c["Y"], ev)
    before = Y.copy()
    idx = arr(get_non_dominated(Y, return_index=True), what="indices", dtype=float)
    require(idx.ndim == 1 and np.all(idx == np.round(idx)) and np.all((idx >= 0) & (idx < len(Y))), f"bad indices {idx}")
    idx = idx.astype(int)
    require(len(set(idx.tolist())) == len(idx), f"repeated indices {idx}")
    got = {tuple(Y[i]) for i in idx}
    want = {tuple(y) for y, k in zip(c["Y"], r) if k == 0}
    require(got == want, f"kept {sorted(got)}, the non-dominated vectors are {sorted(want)}")
    sets_ = get_non_dominated(Y)
    equal(sets_, Y[idx], "points returned versus indices returned")
    equal(Y, before, "the caller's array")
    sets_[:] = 7.0
    equal(Y, before, "the caller's array after writing to the result")


@sub("C05", "dropping_ties", sets(nmax=10), 500, 6000,
     "the filter asked to leave out weakly dominated vectors; " + RULE)
def dropping_ties(c, ev):
    from hvd.utils import get_non_dominated

    Y = np.array(c["Y"])
    n, m = Y.shape
    d = np.abs(Y[:, None] - Y[None])
    if np.any((d > 0) & (d < 1e-3)):
        return ev.label("nearly equal values: not checked")
    r = note(c["Y"], ev)
    shared = (d == 0).any(2).sum(1) > 1
    want = [i for i in range(n) if r[i] == 0 and not shared[i]]
    ev.label("some tie" if shared.any() else "no tie")
    got = arr(get_non_dominated(Y.copy(), return_index=True, weakly_dominated=False), what="indices")
    require(got.tolist() == want, f"kept {got.tolist()} with ties left out, expected {want}")
    equal(get_non_dominated(Y.copy(), weakly_dominated=False), Y[want], "points returned with ties left out")
    if not shared.any():
        equal(get_non_dominated(Y.copy()), Y[want], "both modes where no objective value is shared")


@st.composite
def clouds(draw):
    m = draw(st.integers(2, 6))
    n = draw(st.integers(2, draw(st.sampled_from([12, 40, 120]))))
    o, u = gen.affine(draw, m)
    Y = np.array(draw(gen.cloud(n, m))) * u + o
    return dict(Y=Y.tolist(), integers=draw(st.integers(0, 4)) == 0)


@sub("C05", "sorting_clouds", clouds(), 900, 5000,
     "up to 120 points, values apart by 1e-5 down to one unit in the last place, far from the origin, integers; sorting "
     "and filtering; " + RULE)
def sorting_clouds(c, ev):
    from hvd.utils import get_non_dominated, non_domin_sort

    Y = np.array(c["Y"])
    if c["integers"]:
        Y = np.round(3 * Y).astype(int)
    r = note(Y.tolist(), ev)
    ev.label("n > 40" if len(Y) > 40 else "n <= 40", "integers" if c["integers"] else "floats")
    before = Y.copy()
    check_layers(Y, r)
    equal(Y, before, "the caller's array")
    idx = np.asarray(get_non_dominated(Y, return_index=True), dtype=int)
    require(sorted(map(tuple, Y[idx].tolist())) == sorted({tuple(y) for y, k in zip(Y.tolist(), r) if k == 0}),
            f"kept indices {idx.tolist()}, ranks {r}")
    again = non_domin_sort(Y.tolist(), only_front_indices=True)
    require({int(k): sorted(map(int, v)) for k, v in again.items()}
            == {k: [i for i, q in enumerate(r) if q == k] for k in set(r)}, "layers of a list of lists")


@st.composite
def pairs(draw):
    m = draw(st.integers(1, 5))
    e = gen.coarse(0.0, 1.0, 3)
    a, b = draw(gen.vec(e, m)), draw(gen.vec(e, m))
    if draw(st.booleans()):  # values apart by next to nothing
        eps = draw(st.sampled_from([1e-6, 1e-9, 1e-12, 2.3e-16]))
        b = [v + 2 * eps * draw(st.integers(-1, 1)) for v in a]
    return dict(a=a, b=b)


@sub("C05", "dominance", pairs(), 800, 6000,
     "pairs of vectors with few distinct values; non-trivial: comparable vectors")
def dominance(c, ev):
    from hvd.utils import is_dominate

    a, b = c["a"], c["b"]
    ab, ba = ref_hv.dominates(a, b), ref_hv.dominates(b, a)
    ev.nontrivial(ab or ba)
    ev.label("a<b" if ab else "b<a" if ba else "equal" if a == b else "incomparable")
    require(bool(is_dominate(a, b)) == ab, f"dominance of {a} over {b} reported as {not ab}")
    require(bool(is_dominate(np.array(b), np.array(a))) == ba, f"dominance of {b} over {a} reported as {not ba}")
