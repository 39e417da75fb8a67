"""C24: reference set generation, cleaning, bootstrapping."""
import glob
import math

import numpy as np
from hypothesis import strategies as st

from hvd.rsg import RSG, ComponentDetection, interpolate_tst
from hvd.utils import preprocess_reference_set
from pbt import gen
from pbt.core import Violation, arr, close, equal, require, scratch, sub


def dist(A, B):
    return np.linalg.norm(A[:, None] - B[None], axis=2)


def components(X, eps, minpts):
    """density-based components from the definition: (groups of core points, neighbours of each border point, ambiguous?)"""
    D = dist(X, X)
    near = D <= eps
    ambiguous = bool(np.any(np.abs(D - eps) < 1e-9))
    core = near.sum(1) >= minpts
    left, groups = set(np.flatnonzero(core)), []
    while left:
        todo = [left.pop()]
        g = set(todo)
        while todo:
            i = todo.pop()
            for j in np.flatnonzero(near[i] & core):
                if j in left:
                    left.discard(j)
                    g.add(j)
                    todo.append(j)
        groups.append(g)
    border = {int(i): [k for k, g in enumerate(groups) if any(near[i, j] for j in g)] for i in np.flatnonzero(~core)}
    return groups, border, ambiguous


@st.composite
def front(draw, max_parts=4, per=12, dim=2):
    """a front of several parts, each a strictly monotone chain, shuffled, with repeated and isolated points"""
    parts, x = [], 0.0
    for _ in range(draw(st.integers(1, max_parts))):
        k = draw(st.integers(1, per))
        steps = draw(gen.vec(st.tuples(gen.grid(0.001, 0.05, 49), gen.grid(0.0, 0.05, 50)), k))
        y = draw(gen.grid(0.0, 3.0, 300))
        for dx, dy in steps:
            x += dx
            y -= dy
            parts.append([x, y] + [draw(gen.grid(0.0, 0.05, 50)) for _ in range(dim - 2)])
        x += draw(st.sampled_from([0.0, 0.07, 0.2, 0.5, 1.0]))
    for _ in range(draw(st.integers(0, 3))):
        parts.append(list(draw(st.sampled_from(parts))))
    if draw(st.booleans()):
        parts = draw(st.permutations(parts))
    return [list(map(float, p)) for p in parts]


@st.composite
def detect_case(draw):
    return dict(P=draw(front(dim=draw(st.integers(2, 3)))), eps=draw(st.sampled_from([0.08, 0.03, 0.05, 0.15])),
                minpts=draw(st.sampled_from([2, 2, 1, 3, 4])))


@sub("C24", "components", detect_case(), 500, 8000, "fronts of one to four parts with repeated points, neighbourhoods and densities; "
     "non-trivial: at least two components")
def detection(c, ev):
    X = np.array(c["P"])
    groups, border, ambiguous = components(X, c["eps"], c["minpts"])
    if ambiguous:
        return
    before = X.copy()
    C, n = ComponentDetection(X, c["eps"], c["minpts"])
    equal(X, before, "the caller's points")
    require(n == len(groups) == len(C), f"{n} components ({len(C)} listed), not {len(groups)}")
    ev.nontrivial(n > 1)
    index = lambda p: np.flatnonzero(np.all(X == p, axis=1))  # noqa: E731
    seen = []
    for part in C:
        rows = sorted(map(tuple, arr(part)))
        ids = [i for p in part for i in index(p)[:1]]
        require(len(ids) == len(part), "a component holds a point that was not given")
        cores = {int(i) for j in ids for i in index(X[j])} & set().union(*groups) if groups else set()
        g = [k for k, g in enumerate(groups) if g & cores]
        require(len(g) == 1 and cores == groups[g[0]], f"a component joins or splits others: {rows}")
        for j in ids:
            if j in border:
                require(g[0] in border[j], f"the point {X[j].tolist()} is in a component it is not next to")
        seen += rows
    want = sorted(tuple(X[i]) for i in range(len(X)) if i not in border or border[i])
    require(sorted(seen) == want, f"the components hold {len(seen)} points, not the {len(want)} that belong to one")


# ---------------------------------------------------------------------------------- interpolation
def polyline(X):
    P = X[np.argsort(X[:, 0], kind="stable")]
    P = P[np.r_[True, np.any(np.diff(P, axis=0) != 0, axis=1)]]
    s = np.r_[0.0, np.cumsum(np.linalg.norm(np.diff(P, axis=0), axis=1))]
    return P, s


def along(P, s, t):
    """the point at arc length t"""
    if len(P) == 1:
        return P[0]
    i = int(np.clip(np.searchsorted(s, t, side="right") - 1, 0, len(P) - 2))
    w = (t - s[i]) / (s[i + 1] - s[i])
    return (1 - w) * P[i] + w * P[i + 1]


def model(X, n):
    P, s = polyline(X)
    if n == 1:
        return P[:1]
    return np.array([along(P, s, s[-1] * k / (n - 1)) for k in range(n)]).reshape(n, X.shape[1])


def check_filling(got, X, n, what):
    got = arr(got, (n, X.shape[1]), what)
    if n == 0:
        return
    P, s = polyline(X)
    if n == 1:
        d = min(np.abs(got[0] - along(P, s, t * s[-1])).max() for t in (0.0, 1.0, 0.5))
        require(d <= 1e-9, f"{what}: the only point {got[0].tolist()} is neither an end nor the middle")
        return
    close(got, model(X, n), 1e-8, what)
    equal(got[0], P[0], f"{what}: first end")
    equal(got[-1], P[-1], f"{what}: last end")


@st.composite
def interp_case(draw):
    return dict(P=draw(front(dim=draw(st.integers(2, 4)))), n=draw(st.one_of(st.integers(0, 6), st.integers(7, 200))))


@sub("C24", "interpolation", interp_case(), 600, 10000, "chains in two to four objectives, any number of points; non-trivial: more than two")
def interpolation(c, ev):
    X = np.array(c["P"])
    ev.nontrivial(c["n"] > 2)
    before = X.copy()
    got = interpolate_tst(X, c["n"])
    equal(X, before, "the caller's points")
    check_filling(got, X, c["n"], "filling")
    equal(interpolate_tst(X[::-1].copy(), c["n"]), got, "filling of the reversed set")


@st.composite
def level_case(draw):
    """one chain in which two neighbours share their first objective"""
    k = draw(st.integers(2, 10))
    steps = draw(gen.vec(st.tuples(gen.grid(0.001, 0.05, 49), gen.grid(0.001, 0.05, 49)), k))
    at = draw(st.integers(1, k - 1))
    P = np.cumsum([[0.0 if i == at else a, -b] for i, (a, b) in enumerate(steps)], axis=0).tolist()
    return dict(P=[P[i] for i in draw(st.permutations(range(k)))] if draw(st.booleans()) else P, n=draw(st.integers(2, 60)))


@sub("C24", "equal_first_objective", level_case(), 150, 3000, "a chain with two points of equal first objective, which may come in either "
     "order; non-trivial: all")
def equal_first_objective(c, ev):
    X = np.array(c["P"])
    ev.nontrivial()
    i = np.argsort(X[:, 0], kind="stable")
    at = int(np.flatnonzero(np.diff(X[i, 0]) == 0)[0])
    orders = [X[i], X[np.r_[i[:at], i[at + 1], i[at], i[at + 2:]]]]
    for what, got in (("filling", interpolate_tst(X.copy(), c["n"])), ("RSG", RSG(X.copy(), c["n"], eps=0.5))):
        got = arr(got, (c["n"], 2), what)
        off = min(np.abs(got - model(Z, c["n"])).max() for Z in orders)
        require(off <= 1e-8, f"{what} of {X.tolist()} is not evenly spaced along the chain, whichever of the equal points comes first")


def round_half_up(v):
    return {math.floor(v + 0.5 - 1e-9), math.floor(v + 0.5 + 1e-9)}


@st.composite
def rsg_case(draw):
    return dict(P=draw(front()), n=draw(st.one_of(st.integers(0, 5), st.integers(5, 400))),
                eps=draw(st.sampled_from([None, None, 0.08, 0.05, 0.15])), minpts=draw(st.sampled_from([None, None, 2, 1, 3])))


@sub("C24", "rsg", rsg_case(), 600, 10000, "biobjective fronts of one to four parts, requested sizes, neighbourhoods and densities; "
     "non-trivial: at least two components filled")
def rsg(c, ev):
    X = np.array(c["P"])
    kw = {k: c[k] for k in ("eps", "minpts") if c[k] is not None}
    groups, border, ambiguous = components(X, c["eps"] or 0.08, c["minpts"] or 2)
    if ambiguous or any(len(b) > 1 for b in border.values()):
        return
    parts = [X[sorted(list(g) + [i for i, b in border.items() if b == [k]])] for k, g in enumerate(groups)]
    before = X.copy()
    F = arr(RSG(X, c["n"], **kw))
    equal(X, before, "the caller's points")
    require(F.ndim == 2 and F.shape[1] == 2, f"shape {F.shape}")
    if not parts:
        require(len(F) == 0, f"{len(F)} points from isolated points")
        return
    L = np.array([polyline(p)[1][-1] for p in parts])
    # a point belongs to the part it lies on; the parts are at least eps apart
    owner = np.full(len(F), -1)
    for k, p in enumerate(parts):
        P, s = polyline(p)
        for i, f in enumerate(F):
            if len(P) == 1:
                d = np.abs(f - P[0]).max()
            else:
                a, v = P[:-1], np.diff(P, axis=0)
                w = np.clip(((f - a) * v).sum(1) / (v * v).sum(1), 0, 1)
                d = np.abs(a + w[:, None] * v - f).max(axis=1).min()
            if d <= 1e-8:
                require(owner[i] < 0, f"the point {f.tolist()} is on two components")
                owner[i] = k
    require(np.all(owner >= 0), f"points away from the front: {F[owner < 0].tolist()}")
    for k, p in enumerate(parts):
        mine = F[owner == k]
        share = L[k] / L.sum() if L.sum() > 0 else 1 / len(parts)
        require(len(mine) in round_half_up(c["n"] * share),
                f"component {k} of share {share} received {len(mine)} of {c['n']} points")
        check_filling(mine, p, len(mine), f"component {k}")
    ev.nontrivial(len(set(owner.tolist())) > 1)
    ev.label(f"{len(parts)} components", "zero length" if L.sum() == 0 else "", "skipped component" if len(set(owner.tolist())) < len(parts) else "")


# ---------------------------------------------------------------------------------- cleaning
@st.composite
def clean_case(draw):
    n = draw(st.integers(55, 120))
    return dict(n=n, dim=draw(st.integers(2, 3)), bend=draw(gen.grid(0.3, 3.0, 27)), jitter=draw(gen.vec(gen.grid(-0.15, 0.15, 30), 12)),
                dup=draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([0.0, 0.0, 1e-6, 3e-5]), st.booleans()), max_size=8)),
                out=draw(st.lists(st.tuples(gen.grid(5.0, 50.0, 90), gen.grid(5.0, 50.0, 90)), max_size=2)), order=draw(st.randoms(use_true_random=False)).random())


@sub("C24", "cleaning", clean_case(), 120, 2000, "evenly spread fronts of 55 to 120 points with repeated, nearly repeated and outlying points in "
     "any order; non-trivial: a repeated or outlying point")
def cleaning(c, ev):
    n = c["n"]
    t = (np.arange(n) + np.resize(c["jitter"], n)) / n
    X = np.c_[2 + 4 * t, 2 + 4 * (1 - t) ** c["bend"]]
    if c["dim"] == 3:
        X = np.c_[X, 1 + 0.5 * t]
    rows, kind = [x for x in X], list(range(n))
    for i, e, sign in c["dup"]:
        rows.append(X[i] + e * (1 if sign else -1))
        kind.append(i)
    for a, b in c["out"]:
        rows.append(np.r_[10 + a, 10 + b, np.full(c["dim"] - 2, 30.0)])
        kind.append(-1)
    perm = np.random.RandomState(int(c["order"] * 2**31)).permutation(len(rows))
    A, kind = np.array(rows)[perm], np.array(kind)[perm]
    if len(c["out"]) == 2 and np.linalg.norm(np.subtract(*c["out"])) < 1:
        return
    ev.nontrivial(len(A) > n)
    before = A.copy()
    R = arr(preprocess_reference_set(A))
    equal(A, before, "the caller's reference set")
    pos = []
    for r in R:
        i = np.flatnonzero(np.all(A == r, axis=1))
        require(len(i), f"{r.tolist()} was not in the reference set")
        pos.append([j for j in i if j not in pos][0] if any(j not in pos for j in i) else i[0])
    require(len(set(pos)) == len(pos) == len(R), "a point is kept twice")
    got = kind[pos].tolist()
    require(-1 not in got, "an outlier is kept")
    require(len(set(got)) == len(got), f"several copies of one point are kept: {[k for k in got if got.count(k) > 1]}")
    inner = set(range(2, n - 2))  # the ends are sparser than the rest
    require(inner <= set(got), f"points {sorted(inner - set(got))} of an even front are lost")


# ---------------------------------------------------------------------------------- bootstrapping
class Named:
    pass


class Recorded:
    """an optimizer whose populations are given"""

    def __init__(self, X, Y, extra, N, ref, log):
        from hvd.reference_set import ReferenceSet

        self.Xs, self.Ys, self.t, self.N, self.dim_p = X, Y, 0, N, X[0].shape[1]
        self.extra, self.calls, self.max_iters = extra, log, len(X)
        self.ref = ReferenceSet(ref=ref, eta={0: np.array([-0.5, -0.5])})
        self.indicator = Named()
        self.indicator.ref, self.indicator.beta = self.ref, 0.3
        self.indicator.compute = lambda Y: self.calls.append(("compute", self.t, np.array(Y)))
        self.refs = []

    @property
    def state(self):
        s = Named()
        t = min(self.t, len(self.Xs) - 1)
        s.X = np.c_[self.Xs[t], np.full((len(self.Xs[t]), self.extra), 7.0)]
        s.Y = self.Ys[t].copy()
        return s

    def newton_iteration(self):
        self.calls.append(("step", self.t, None))
        self.refs.append((self.ref, self.indicator.ref, self.indicator.beta))
        self.t += 1

    def log(self):
        self.calls.append(("log", self.t, None))


@st.composite
def boot_case(draw):
    N = draw(st.integers(6, 14))
    gens = draw(st.integers(1, 8))
    return dict(N=N, interval=draw(st.integers(1, 4)), last=draw(st.integers(1, 4)), extra=draw(st.integers(0, 2)), rsg=draw(st.booleans()),
                save=draw(st.booleans()), pops=draw(gen.vec(gen.vec(st.tuples(gen.grid(0.0, 1.0, 500), gen.grid(0.0, 1.0, 500)), N), gens)),
                spread=draw(st.sampled_from([0.3, 1.0, 3.0])),
                cut=draw(st.sampled_from([0.0, 0.5, 0.9, 0.9, 1.0])))


def is_front(Y):
    return np.array([not any(np.all(z <= y) and np.any(z < y) for z in Y) for y in Y])


@sub("C24", "bootstrap", boot_case(), 120, 1500, "bootstrapping over given histories of biobjective populations, intervals, with and without "
     "filling; non-trivial: at least one new reference set", group="bootstrap")
def bootstrap(c, ev):
    from hvd.bootstrap import bootstrap_reference_set
    from hvd.problems import ZDT1

    N, T = c["N"], len(c["pops"])
    U = [np.array(p) for p in c["pops"]]
    X = [np.c_[u, u[:, :1] - u[:, 1:]] for u in U]
    Y = []
    for u in U:  # mostly a front: sorted first objective, second falling with noise
        a = np.sort(u[:, 0] * 0.2 + np.linspace(0, 1, N))
        Y.append(np.c_[a, 1 - a + 0.001 * u[:, 1] + (0.5 + c["spread"]) * (u[:, 1] > c["cut"])] * c["spread"])
    calls = []
    opt = Recorded(X, Y, c["extra"], N, np.array([[0.0, 1.0], [0.5, 0.5], [1.0, 0.0]]), calls)
    first = opt.ref
    p = ZDT1(n_var=3)
    with scratch():
        Xb, Yb, ref, refs = bootstrap_reference_set(opt, p, interval=c["interval"], with_rsg=c["rsg"], plot=False, last_n=c["last"],
                                                    save_reference_set=c["save"], save_population=c["save"])
        files = sorted(glob.glob("*.csv"))
        if c["save"]:
            import pandas as pd

            require(len(files) == 2 * T + len(refs), f"files {files}")
            for name in files:
                data = pd.read_csv(name, header=None).values
                i = int(name.split("iteration")[1][:-4])
                if name.startswith("Y_"):
                    close(data, Y[i], 1e-12, f"saved population {name}")
                elif name.startswith("X_"):
                    close(data[:, :3], X[i], 1e-12, f"saved population {name}")
        else:
            require(not files, f"files {files} written")
    at = [i for i in range(1, T) if i % c["interval"] == 0]
    ev.nontrivial(at)
    require([k[:2] for k in calls if k[0] != "compute"] == [e for t in range(T) for e in (("step", t), ("log", t + 1))],
            f"the optimizer made {[k[:2] for k in calls]}")
    require(len(refs) == len(at), f"{len(refs)} reference sets, not {len(at)}")
    current, beta = first, 0.3
    for t in range(T):
        r, ri, b = opt.refs[t]
        require(r is ri, "the optimizer and its indicator hold different reference sets")
        if t not in at:
            require(r is current, f"the reference set changed before generation {t}")
            require(abs(b - beta) < 1e-12, f"spread weight {b}, not {beta}")
            continue
        beta *= 0.8
        require(abs(b - beta) < 1e-12, f"spread weight {b} after bootstrapping, not {beta}")
        relaxed = 0.95 * Y[t] + 0.05 * Y[t].mean(axis=1, keepdims=True)
        R = arr(refs[at.index(t)])
        filled = RSG(relaxed, N) if c["rsg"] else relaxed
        close(R, filled if len(filled) else relaxed, 1e-12, f"reference set of generation {t}")
        eta = np.asarray(r.eta[0])
        require(r is not current and abs(np.linalg.norm(eta) - 1) < 1e-9 and np.all(eta <= 1e-12), f"shift direction {eta}")
        close(r.reference_set, R + 0.05 * eta, 1e-9, f"reference set in use from generation {t}")
        ends = R[R.argmin(axis=0)]
        require(abs((ends[1] - ends[0]) @ eta) < 1e-9, f"the direction {eta} is not normal to the plane through the best points")
        computed = [k for k in calls if k[:2] == ("compute", t)]
        require(len(computed) >= 1, "the indicator does not see the new reference set")
        equal(computed[0][2], Y[t], "population the indicator is evaluated at")
        current = r
    require(ref is opt.ref and ref is current, "the returned reference set is not the one in use")
    # the returned points are non-dominated points of the last generations
    Xb, Yb = arr(Xb), arr(Yb)
    require(Xb.shape == (len(Yb), 3) and Yb.shape[1] == 2 and 0 < len(Yb) <= N, f"shapes {Xb.shape}, {Yb.shape}")
    last = range(max(0, T - c["last"]), T)
    pool = {(*Y[t][i], *X[t][i]) for t in last for i in np.flatnonzero(is_front(Y[t]))}
    got = [(*y, *x) for x, y in zip(Xb, Yb)]
    require(set(got) <= pool, "a returned point is not a non-dominated point of the last generations")


@st.composite
def real_case(draw):
    return dict(N=draw(st.integers(8, 16)), iters=draw(st.integers(1, 6)), interval=draw(st.integers(1, 3)), rsg=draw(st.booleans()),
                off=draw(gen.grid(0.02, 0.3, 14)), match=draw(st.booleans()))


@sub("C24", "bootstrap_mmd", real_case(), 8, 120, "bootstrapping the MMD Newton method on ZDT1; non-trivial: at least one new reference set",
     group="bootstrap")
def bootstrap_mmd(c, ev):
    from hvd.bootstrap import bootstrap_reference_set
    from hvd.mmd_newton import MMDNewton
    from hvd.reference_set import ReferenceSet
    from pbt import ref_problems

    p = ref_problems.make("ZDT1", 3, 2)
    N = c["N"]
    X0 = np.c_[np.linspace(0.1, 0.9, N), np.full((N, 2), c["off"])]
    front_ = np.array(p.get_pareto_front(3 * N)) - 0.05
    opt = MMDNewton(n_var=3, n_obj=2, ref=ReferenceSet(ref=front_, eta={0: -np.ones(2) / 2**0.5}), func=p.objective,
                    jac=p.objective_jacobian, hessian=p.objective_hessian, N=N, X0=X0, xl=p.xl, xu=p.xu, max_iters=c["iters"],
                    verbose=False, matching=True)
    X, Y, ref, refs = bootstrap_reference_set(opt, p, interval=c["interval"], with_rsg=c["rsg"], plot=False)
    X, Y = arr(X), arr(Y)
    at = [i for i in range(1, c["iters"]) if i % c["interval"] == 0]
    ev.nontrivial(at)
    require(len(refs) == len(at) and opt.iter_count == c["iters"], f"{len(refs)} reference sets in {opt.iter_count} iterations")
    require(0 < len(X) <= N, f"{len(X)} decisions")
    close(Y, p.objective_batch(X), 1e-9, "objectives of the returned decisions")
