"""C09, C10: matching an approximation set to a clustered reference set; shift/match histories."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import arr, close, equal, require, sub
from pbt.ref_match import MatchModel


@st.composite
def direction(draw, m):
    return draw(gen.vec(gen.grid(-1.0, -0.1, 9), m))


@st.composite
def clustered(draw, comps=(1, 3), nmax=8, extra=8, m=None, spread=None):
    """reference components placed apart, groups of approximation points near some of them"""
    m = draw(st.integers(2, 4)) if m is None else m
    n = draw(st.integers(*comps))
    N = draw(st.integers(1, nmax))
    coarse = draw(st.integers(0, 3)) == 0
    e = gen.coarse(0.0, 1.0, 4) if coarse else gen.grid(0.0, 1.0, 5000)
    gap = draw(st.sampled_from([0.3, 1.5, 4.0])) if spread is None else spread
    ref = []
    for k in range(n):
        size = N + draw(st.integers(0, extra))
        off = [gap * k * (1 if j == 0 else -1) for j in range(m)]
        ref.append([[a + o for a, o in zip(p, off)] for p in draw(gen.mat(e, size, m))])
    lab = draw(st.lists(st.integers(0, n - 1), min_size=N, max_size=N))
    return dict(m=m, ref=ref, gap=gap, lab=lab, Y=[draw(points(m, gap, lab, e))],
                eta=[draw(direction(m)) for _ in range(n)] if draw(st.booleans()) else None,
                given_idx=draw(st.integers(0, 2)) == 0, idx_seed=draw(st.integers(0, 99)))


@st.composite
def points(draw, m, gap, lab, e=None):
    e = e or gen.grid(-0.4, 1.4, 5000)
    return [[a + gap * k * (1 if j == 0 else -1) for j, a in enumerate(p)]
            for k, p in zip(lab, draw(gen.mat(e, len(lab), m)))]


def chim(component):
    """the expected shift direction, or None where the extreme points do not determine it"""
    Z = component[component.argmin(axis=0)]
    m = component.shape[1]
    M = Z[1:] - Z[0]
    u, s, vt = np.linalg.svd(M)
    if s[-1] < 1e-8 * max(1.0, s[0]):
        return None
    v = -np.abs(vt[-1])
    return v / np.linalg.norm(v) if m > 1 else None


def make(c, with_idx=True):
    from hvd.reference_set import ReferenceSet

    comps = {k: np.array(r) for k, r in enumerate(c["ref"])}
    eta = None if c["eta"] is None else {k: np.array(v) for k, v in enumerate(c["eta"])}
    idx = None
    if c["given_idx"] and len(comps) > 1:
        labs = sorted(set(c["lab"]))
        idx = [[i for i, v in enumerate(c["lab"]) if v == k] for k in labs]
        if c.get("idx_seed"):  # clusters, and their members, in any order
            rng = np.random.default_rng(c["idx_seed"])
            idx = [[idx[k][i] for i in rng.permutation(len(idx[k]))] for k in rng.permutation(len(idx))]
    ref = comps[0].copy() if len(comps) == 1 else {k: v.copy() for k, v in comps.items()}
    obj = ReferenceSet(ref, eta=None if eta is None else {k: v.copy() for k, v in eta.items()},
                       Y_idx=None if idx is None else [np.array(i) for i in idx])
    if eta is None:
        eta = {k: arr(obj.eta[k], (c["m"],), "shift direction") for k in comps}
        for k, v in eta.items():
            close(np.linalg.norm(v), 1.0, 1e-9, "length of the shift direction")
            require(np.all(v <= 1e-12), f"shift direction {v} is not an improvement in every objective")
            want = chim(comps[k])
            if want is not None:
                close(v, want, 1e-6, "shift direction versus the normal of the plane through the extreme points")
    return obj, MatchModel(comps, eta, idx)


RULE = ("clustered reference sets with more points than needed, groups given or found; non-trivial: two or more points "
        "in a component and an assignment that is not the nearest-neighbour map, or several components")


def note(model, plan, Y, ev):
    groups, pairs = plan
    ev.label(f"{len(model.ref)} components, {len(groups)} groups")
    nn = False
    for k, j in pairs:
        if len(groups[j]) > 1:
            t = model.targets[list(groups[j])]
            D = np.linalg.norm(Y[list(groups[j])][:, None] - t[None], axis=-1)
            nn = nn or len(set(D.argmin(1))) < len(t)
    ev.nontrivial(nn or len(groups) > 1)


@sub("C09", "matching", clustered(), 700, 8000, RULE)
def matching(c, ev):
    obj, model = make(c)
    Y = np.array(c["Y"][0])
    model.agree(obj, "before the match")
    require(obj.N == len(model.points), f"size {obj.N}, {len(model.points)} points")
    plan = model.plan(Y)
    if not plan:
        return ev.label("tie between components" if plan is None else "group larger than its component")
    before = Y.copy()
    obj.match(Y)
    equal(Y, before, "the caller's points")
    model.matched(Y, plan, obj.reference_set)
    require(obj.N == len(Y), f"size {obj.N} after matching {len(Y)} points")
    note(model, plan, Y, ev)
    again = np.array(obj.reference_set)
    obj.match(Y)
    model.matched(Y, plan, obj.reference_set, "second match of the same points")
    D = np.linalg.norm(again - np.array(obj.reference_set), axis=1)
    ev.label("unchanged by a second match" if D.max() < 1e-12 else "another optimal assignment")


@sub("C09", "matching_one_component", clustered(comps=(1, 1), nmax=14, extra=10), 500, 6000, RULE)
def matching_one_component(c, ev):
    matching(c, ev)


@st.composite
def permuted(draw):
    c = draw(clustered(comps=(1, 1), nmax=8, extra=0))
    c["perm"] = draw(st.permutations(range(len(c["Y"][0]))))
    c["rperm"] = draw(st.permutations(range(len(c["ref"][0]))))
    return c


@sub("C09", "order_irrelevant", permuted(), 300, 4000,
     "the targets do not depend on the order of the points or of the reference points; non-trivial: a real permutation "
     "of at least three points")
def order_irrelevant(c, ev):
    from hvd.reference_set import ReferenceSet

    Y, R = np.array(c["Y"][0]), np.array(c["ref"][0])
    perm, rperm = list(c["perm"]), list(c["rperm"])
    D = np.linalg.norm(Y[:, None] - R[None], axis=-1)
    from scipy.optimize import linear_sum_assignment

    a, b = linear_sum_assignment(D)
    best = D[a, b].sum()
    for i, j in zip(a, b):  # unique optimum?
        E = D.copy()
        E[i, j] += 1e-6
        r, q = linear_sum_assignment(E)
        if E[r, q].sum() < best + 9e-7:
            return ev.label("several optimal assignments")
    ev.nontrivial(perm != sorted(perm) and len(perm) > 2)
    x, y, z = ReferenceSet(R.copy()), ReferenceSet(R.copy()), ReferenceSet(R[rperm])
    x.match(Y.copy()), y.match(Y[perm]), z.match(Y.copy())
    close(y.reference_set, np.array(x.reference_set)[perm], 1e-12, "targets of reordered points")
    close(z.reference_set, x.reference_set, 1e-12, "targets from a reordered reference set")


@st.composite
def resized(draw):
    c = draw(clustered(comps=(1, 1), nmax=10))
    for _ in range(draw(st.integers(1, 3))):
        c["Y"].append(draw(points(c["m"], c["gap"], [0] * draw(st.integers(1, len(c["ref"][0]))))))
    return dict(c, given_idx=False)


@sub("C09", "resized", resized(), 250, 3000,
     "populations of several sizes matched one after the other to the same reference set; non-trivial: the size of a group changes")
def resized_check(c, ev):
    obj, model = make(c)
    sizes = set()
    for n, Y in enumerate(c["Y"]):
        Y = np.array(Y)
        plan = model.plan(Y)
        if not plan:
            return ev.label("tie between components" if plan is None else "group larger than its component")
        obj.match(Y)
        model.matched(Y, plan, obj.reference_set, f"match {n} of {len(Y)} points")
        require(obj.N == len(Y), f"size {obj.N} after matching {len(Y)} points")
        sizes.add(tuple(sorted((k, len(plan[0][j])) for k, j in plan[1])))
    ev.nontrivial(len(sizes) > 1)
    ev.label("shrunk" if any(len(a) > len(b) for a, b in zip(c["Y"], c["Y"][1:])) else "grown")


@st.composite
def clouds(draw):
    m, n = draw(st.integers(2, 4)), draw(st.sampled_from([1, 1, 2, 3]))
    N = draw(st.integers(2, 60))
    kinds = ("uniform", "front", "sphere", "coarse")
    gap, at, unit = draw(st.sampled_from([1.5, 4.0])), draw(st.sampled_from([0.0, 0.0, 1e3])), draw(st.sampled_from([1.0, 1.0, 1e-2, 1e2]))
    off = [np.array([gap * k * (1 if j == 0 else -1) for j in range(m)]) for k in range(n)]
    ref = [(unit * (np.array(draw(gen.cloud(N + draw(st.integers(0, 25)), m, kinds))) + o) + at).tolist() for o in off]
    lab = draw(st.lists(st.integers(0, n - 1), min_size=N, max_size=N))
    Y = np.array(draw(gen.cloud(N, m, kinds, -0.3, 1.3))) + [off[k] for k in lab]
    return dict(m=m, ref=ref, gap=gap, lab=lab, Y=[(unit * Y + at).tolist()],
                eta=[draw(direction(m)) for _ in range(n)] if draw(st.booleans()) else None, given_idx=draw(st.integers(0, 2)) == 0, idx_seed=draw(st.integers(0, 99)))


@sub("C09", "matching_clouds", clouds(), 250, 4000, "up to 60 points and 85 reference points per component; " + RULE)
def matching_clouds(c, ev):
    ev.label("N > 20" if len(c["Y"][0]) > 20 else "N <= 20")
    matching(c, ev)


@st.composite
def histories(draw, big=False):
    c = draw(clouds() if big else clustered(nmax=6, extra=5))
    N = len(c["lab"])
    if big:
        ops = []
        for _ in range(draw(st.integers(2, 5))):
            k = draw(st.integers(0, 3))
            if k == 0:
                ops.append(["jitter", draw(st.integers(0, 999))])
            elif k == 1:
                ops.append(["rematch"])
            else:
                ops.append(["shift", draw(st.sampled_from([0.05, 0.08, 0.5])),
                            draw(st.lists(st.integers(0, N - 1), max_size=N, unique=True))])
        c["ops"] = [["match", c["Y"][0]]] + ops + [["rematch"]]
        return c
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.integers(0, 7))
        if k == 6:
            ops.append(["write", draw(st.integers(0, N - 1)), draw(points(c["m"], c["gap"], c["lab"]))])
        elif k == 7 and len(c["ref"]) == 1:  # a population of another size
            ops.append(["match", draw(points(c["m"], c["gap"], [0] * draw(st.integers(1, len(c["ref"][0])))))])
        elif k <= 1:
            ops.append(["match", draw(points(c["m"], c["gap"], c["lab"]))])
        elif k == 2:
            ops.append(["shift", draw(st.sampled_from([0.05, 0.08, 0.5, -0.1])), None])
        elif k == 3:
            ops.append(["rematch"])
        else:
            ops.append(["shift", draw(st.sampled_from([0.05, 0.08, 0.5])),
                        draw(st.lists(st.integers(0, N - 1), max_size=N, unique=True))])
    c["ops"] = ops
    return c


@sub("C10", "histories", histories(), 700, 9000,
     "histories of match and shift operations against a model; non-trivial: a shift of some targets after a match, and "
     "a match after that")
def histories_check(c, ev):
    obj, model = make(c)
    last, seen = None, []
    model.agree(obj, "at the start")
    for n, op in enumerate(c["ops"]):
        what = f"step {n} ({op[0]})"
        if op[0] == "write":  # the population is changed in place
            if last is not None:
                last[op[1] % len(last)] = op[2][op[1]]
            continue
        if op[0] == "jitter":
            if last is not None:
                last += np.random.default_rng(op[1]).normal(0, 0.1 * np.ptp(last, axis=0), last.shape)
            continue
        if op[0] == "shift":
            idx = op[2]
            if idx is not None and model.targets is not None:
                idx = [i for i in idx if i < len(model.targets)]
            before = np.array(obj.reference_set)
            if idx is None:
                obj.shift(op[1])
            else:
                obj.shift(op[1], np.array(idx, dtype=int))
            model.shift(op[1], idx)
            seen.append("shift" if model.targets is not None and (idx is None or idx) else "pre-shift")
            if model.targets is not None and idx is not None:
                rest = [i for i in range(len(before)) if i not in idx]
                equal(np.array(obj.reference_set)[rest], before[rest], f"{what}: targets that were not shifted")
        else:
            if op[0] == "match":
                last = np.array(op[1])
            if last is None:
                continue
            plan = model.plan(last)
            if not plan:
                return ev.label("stopped at a tie or at a group larger than its component")
            obj.match(last)
            model.matched(last, plan, obj.reference_set, what)
            seen.append("match")
        model.agree(obj, what)
    s = ",".join(seen)
    ev.nontrivial("match" in seen and "shift" in seen and seen[-1] == "match" and seen.index("match") < seen.index("shift"))
    ev.label(f"{len(c['ref'])} components", f"{min(len(seen), 6)}+ effective steps" if len(seen) > 5 else "short")
    if "pre-shift" in s:
        ev.label("shifted before the first match")
    close(arr(obj.N), len(model.points), 0, "size")


@sub("C10", "histories_clouds", lambda: histories(big=True), 150, 3000,
     "the same with up to 60 points, moved a little between matches; same non-triviality")
def histories_clouds(c, ev):
    histories_check(c, ev)


@st.composite
def chims(draw):
    m = draw(st.integers(2, 5))
    return dict(Y=draw(gen.matrices(gen.grid(-2.0, 2.0, 1000), (m, 10), m)))


@sub("C10", "direction", chims(), 400, 5000,
     "the direction of improvement of a reference component; non-trivial: its extreme points determine it")
def direction_check(c, ev):
    from hvd.utils import compute_chim

    Y = np.array(c["Y"])
    before = Y.copy()
    v = arr(compute_chim(Y), (Y.shape[1],), "direction")
    equal(Y, before, "the caller's points")
    close(np.linalg.norm(v), 1.0, 1e-9, "length")
    require(np.all(v <= 1e-12), f"direction {v} has a positive entry")
    want = chim(Y)
    if want is not None:
        ev.nontrivial()
        close(v, want, 1e-6, "direction versus the normal of the plane through the extreme points")
