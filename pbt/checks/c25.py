"""C25: hypervolume contributions, SMS-EMOA selection, constraint-aware MOEA/D."""
import numpy as np
from hypothesis import strategies as st
from pymoo.core.evaluator import Evaluator
from pymoo.core.population import Population
from pymoo.core.problem import Problem

from hvd.exact import DynamicHypervolume, ExactHypervolume
from hvd.moea import SMSEMOA, ConstraintAwareMOEAD
from hvd.moea.sms_emoa import (
    ApproximateMonteCarloHypervolume,
    LeastHypervolumeContributionSurvival,
    cv_and_dom_tournament,
    hv_monte_carlo,
    hvc_monte_carlo,
)
from pbt import gen, ref_hv
from pbt.core import arr, close, equal, require, sub


def contributions(F, ref):
    F = np.asarray(F, dtype=float).reshape(-1, len(ref))
    total = ref_hv.hv(F, ref)
    return total, np.array([total - ref_hv.hv(np.delete(F, i, axis=0), ref) for i in range(len(F))])


# ------------------------------------------------------------------------- tracked hypervolume
@st.composite
def history(draw):
    m = draw(st.sampled_from([2, 2, 3, 4]))
    elem = draw(st.sampled_from([gen.coarse(0.0, 1.2), gen.grid(0.0, 1.2)]))
    n, ops = 0, []
    for _ in range(draw(st.integers(1, 5))):
        if n == 0 or draw(st.booleans()):
            P = draw(gen.mat(elem, draw(st.integers(0, 4)), m))
            n += len(P)
            ops.append(["add", P])
        else:
            ops.append(["delete", draw(st.integers(0, n - 1))])
            n -= 1
    return dict(m=m, ref=draw(gen.vec(st.sampled_from([1.0, 1.1, 0.0, 2.0]), m)), ops=ops, first=draw(st.booleans()), own=draw(st.booleans()))


@sub("C25", "tracking", history(), 2000, 20000, "histories of insertions and deletions with ties, duplicates and points outside the box, two to "
     "four objectives, built-in or given indicator functions; non-trivial: a deletion and a positive contribution")
def tracking(c, ev):
    ref, ops = np.array(c["ref"]), c["ops"]
    F = np.zeros((0, c["m"]))

    def make(first):
        if c["own"]:
            return DynamicHypervolume(ref, first, func_hv=lambda r, F: ref_hv.hv(F, r), func_hvc=lambda r, F: contributions(F, r)[1])
        return ExactHypervolume(ref, F=first)

    if c["first"] and ops[0][0] == "add":
        F = np.array(ops[0][1], dtype=float).reshape(-1, c["m"])
        h, ops = make(F), ops[1:]
    else:
        h = make(None)
        equal(h.hv, 0.0, "value without points")
        equal(len(h.hvc), 0, "contributions without points")
    deleted, positive = False, False
    for step in [None] + ops:
        if step is None:
            if not len(F):
                continue
        elif step[0] == "add":
            P = np.array(step[1], dtype=float).reshape(-1, c["m"])
            keep = P.copy()
            out = h.add(P)
            require(out is h, "add returns the tracker")
            equal(P, keep, "the caller's points")
            F = np.vstack([F, P])
        else:
            h.delete(step[1])
            F = np.delete(F, step[1], axis=0)
            deleted = True
        equal(h.F, F, f"points after {step}")
        hv, hvc = contributions(F, ref)
        close(h.hv, hv, 1e-10, f"hypervolume after {step}")
        close(h.hvc, hvc, 1e-10, f"contributions after {step}")
        positive = positive or bool(np.any(hvc > 1e-9))
    ev.nontrivial(deleted and positive)
    ev.label(f"{c['m']} objectives", "given functions" if c["own"] else "built-in")


# -------------------------------------------------------------------------- Monte Carlo estimates
@st.composite
def dom_case(draw):
    n, s = draw(st.integers(1, 6)), draw(st.integers(1, 12))
    return dict(dom=draw(gen.mat(st.booleans(), n, s)), V=draw(gen.grid(0.1, 50.0, 499)), k=draw(st.integers(1, n)), given=draw(st.booleans()))


@sub("C25", "samples", dom_case(), 1500, 15000, "dominance tables of up to 6 points and 12 samples, any number of points to drop; non-trivial: a "
     "sample dominated by one and one dominated by several points", group="monte_carlo")
def samples(c, ev):
    dom, V, k = np.array(c["dom"]), c["V"], c["k"]
    N, S = dom.shape
    cover = dom.sum(axis=0)
    kw = dict(n_dom=cover) if c["given"] else {}
    close(hv_monte_carlo(dom, V, **kw), V * np.mean(cover > 0), 1e-12, "estimated hypervolume")
    # expected exclusive share of a point when k random points are dropped, itself among them (HypE)
    weight = np.zeros(N + 1)
    for i in range(1, N + 1):
        weight[i] = np.prod([(k - j) / (N - j) for j in range(1, i)]) / i
    close(hvc_monte_carlo(dom, V, k=k, **kw), [V * weight[cover[dom[i]]].sum() / S for i in range(N)], 1e-12, "estimated contributions")
    if k == 1:
        close(hvc_monte_carlo(dom, V, **kw), [V * np.mean(dom[i] & (cover == 1)) for i in range(N)], 1e-12, "exclusive contributions")
    ev.nontrivial(np.any(cover == 1) and np.any(cover > 1))


@st.composite
def mc_case(draw):
    m = draw(st.integers(2, 4))
    return dict(P=draw(gen.mat(gen.grid(0.0, 1.0, 50), draw(st.integers(1, 6)), m)), ref=draw(gen.vec(st.sampled_from([1.1, 1.5, 3.0]), m)),
                drop=draw(st.lists(st.integers(0, 5), max_size=4)), seed=draw(st.integers(0, 1 << 20)), n=draw(st.sampled_from([None, 500, 4000])))


@sub("C25", "estimates", mc_case(), 1000, 10000, "point sets in two to four objectives, sample sizes, deletions; non-trivial: a deletion with two "
     "or more points left", group="monte_carlo")
def estimates(c, ev):
    F, ref = np.array(c["P"]), np.array(c["ref"])
    np.random.seed(c["seed"])
    n = c["n"] or 2000
    h = ApproximateMonteCarloHypervolume(ref, **(dict(n_samples=n) if c["n"] else {}))
    h.add(F)
    V = np.prod(ref - F.min(axis=0))

    def compare(est, true, what):
        p = np.clip(true / V, 0, 1)
        slack = 7 * np.sqrt(p * (1 - p) / n) + 40 / n  # seven standard deviations, and the Poisson range of rare hits
        require(np.all(np.abs(arr(est, np.shape(true), what) / V - p) <= slack), f"{what}: {est}, exact {true}, box {V}, {n} samples")

    def check(what):
        hv, hvc = contributions(F, ref)
        compare(h.hv, hv, f"estimated hypervolume {what}")
        compare(h.hvc, hvc, f"estimated contributions {what}")
        require(np.all(np.asarray(h.hvc) >= 0) and np.all(np.asarray(h.hvc) <= h.hv + 1e-9 * V), f"contributions {what}: {h.hvc} of {h.hv}")

    check("at first")
    for k in c["drop"]:
        if len(F) < 2:
            break
        k %= len(F)
        expected = h.hv - h.hvc[k]
        h.delete(k)
        F = np.delete(F, k, axis=0)
        close(h.hv, expected, 1e-9, "hypervolume after deleting a point", scale=V)
        equal(h.F, F, "points after a deletion")
        check("after a deletion")
        ev.nontrivial(len(F) > 1)


# ------------------------------------------------------------------------------------- survival
class Table(Problem):
    """decision i has the i-th objective vector and violation"""

    def __init__(self, F, G=None):
        self.F_, self.G_ = np.asarray(F, dtype=float), None if G is None else np.asarray(G, dtype=float)
        super().__init__(n_var=1, n_obj=self.F_.shape[1], n_ieq_constr=0 if G is None else self.G_.shape[1], xl=0, xu=len(F))

    def _evaluate(self, x, out, *args, **kwargs):
        i = np.asarray(x)[:, 0].astype(int)
        out["F"] = self.F_[i]
        if self.G_ is not None:
            out["G"] = self.G_[i]

    def population(self):
        pop = Population.new("X", np.arange(len(self.F_), dtype=float)[:, None])
        return Evaluator().eval(self, pop)


def normalise(F, ideal, nadir):
    ideal, nadir = np.asarray(ideal, dtype=float), np.asarray(nadir, dtype=float)
    span = np.where(nadir > ideal, nadir - ideal, 1.0)
    return (F - ideal) / span


def check_survivors(F, CV, constrained, n, kept, ideal, nadir, eps, what, ev):
    """kept: indices of the survivors; ideal, nadir: None -> of the points compared"""
    n = min(n, len(F))
    require(len(kept) == n and len(set(kept)) == n, f"{what}: survivors {sorted(kept)} of {len(F)}, {n} wanted")
    kept = set(kept)
    feasible = [i for i in range(len(F)) if not constrained or CV[i] <= 0]
    bad = sorted((i for i in range(len(F)) if constrained and CV[i] > 0), key=lambda i: CV[i])
    keep_f = [i for i in feasible if i in kept]
    require(len(keep_f) == min(n, len(feasible)), f"{what}: {len(keep_f)} of {len(feasible)} feasible points kept, {n} wanted")
    keep_b = [i for i in bad if i in kept]
    if keep_b and len(keep_b) < len(bad):
        worst, best = max(CV[i] for i in keep_b), min(CV[i] for i in bad if i not in kept)
        require(worst <= best, f"{what}: kept a violation of {worst}, dropped one of {best}")
        ev.label("infeasible dropped")
    if not keep_f:
        return None
    rank = dict(zip(feasible, ref_hv.layers(F[feasible])))
    last = max(rank[i] for i in keep_f)
    require(all(i in kept for i in feasible if rank[i] < last), f"{what}: a point of a better layer was dropped: {sorted(kept)}")
    front = [i for i in feasible if rank[i] == last]
    dropped = [i for i in front if i not in kept]
    if not dropped:
        return rank
    A = F[feasible]
    ideal = A.min(axis=0) if ideal is None else ideal
    nadir = A.max(axis=0) if nadir is None else nadir
    Z = normalise(F, ideal, nadir)
    ref = np.full(F.shape[1], 1.0 + eps)
    Z = np.minimum(Z, ref)
    if F.shape[1] == 2:
        left, ambiguous = list(front), False
        while len(left) > len(front) - len(dropped):
            _, hvc = contributions(Z[left], ref)
            lowest = np.flatnonzero(hvc <= hvc.min() + 1e-9 * (1 + np.abs(hvc).max()))
            if len({tuple(F[left[i]]) for i in lowest}) > 1:
                ambiguous = True
                break
            del left[int(lowest[0])]
        if ambiguous:
            ev.label("equal contributions")
            # whichever is dropped first, at the end no dropped point may beat all kept ones clearly
            mine = [i for i in front if i in kept]
            _, hvc = contributions(Z[front], ref)
            worst = {i: h for i, h in zip(front, hvc)}
            for d in dropped:
                _, after = contributions(Z[mine + [d]], ref)
                require(worst[d] <= after.max() + 1e-9 * (1 + after.max()), f"{what}: dropped {d} of the largest contribution")
        else:
            want = sorted(map(tuple, F[left].tolist()))
            got = sorted(tuple(F[i].tolist()) for i in front if i in kept)
            require(want == got, f"{what}: of the layer {F[front].tolist()} the points {got} were kept, not {want}")
            ev.nontrivial(len(left) > 0)
    else:
        mine = [i for i in front if i in kept]
        V = np.prod(ref - Z[front].min(axis=0))
        if V > 0 and mine:
            _, first = contributions(Z[front], ref)
            for d in dropped:
                share = first[front.index(d)] / V
                _, after = contributions(Z[mine + [d]], ref)
                tiny = [i for i, h in zip(mine, after) if h < 1e-6 * V]
                if share > 0.02:
                    ev.nontrivial()
                    require(not tiny, f"{what}: dropped {F[d].tolist()} with {share:.2f} of the volume but kept {F[tiny].tolist()}")
                elif tiny:
                    ev.nontrivial()
    ev.label("layer split")
    return rank


@st.composite
def survive_case(draw):
    m = draw(st.sampled_from([2, 2, 2, 3, 4]))
    n = draw(st.integers(1, 10))
    elem = draw(st.sampled_from([gen.coarse(0.0, 3.0), gen.grid(0.0, 3.0), gen.grid(-5.0, 100.0)]))
    F = draw(st.one_of(gen.mat(elem, n, m), gen.front_position(n, m)))
    G = draw(st.one_of(st.none(), st.none(), gen.mat(st.sampled_from([-1.0, 0.0, 0.5, 0.25, 2.0]), n, draw(st.integers(1, 2)))))
    given = draw(st.sampled_from([None, None, "both", "ideal"]))
    return dict(F=F, G=G, n=draw(st.integers(1, n + 1)), given=given, lo=draw(gen.vec(gen.grid(-1.0, 1.0, 20), m)),
                span=draw(gen.vec(gen.grid(0.5, 4.0, 35), m)), eps=draw(st.sampled_from([None, None, 1.0, 0.1])), seed=draw(st.integers(0, 1 << 20)))


@sub("C25", "survival", survive_case(), 2500, 30000, "populations of 1 to 10 points in two to four objectives with ties, duplicates and "
     "constraints, given or estimated bounds; non-trivial: a layer split by contributions that decide it")
def survival(c, ev):
    F = np.array(c["F"], dtype=float)
    prob = Table(F, c["G"])
    pop = prob.population()
    CV = pop.get("CV")[:, 0]
    kw = {}
    if c["given"]:
        kw["ideal"] = np.array(c["lo"])
        if c["given"] == "both":
            kw["nadir"] = kw["ideal"] + np.array(c["span"])
        elif np.any(F[CV <= 0].size == 0) or np.any(F[CV <= 0].max(axis=0) <= kw["ideal"]):
            return
    s = LeastHypervolumeContributionSurvival(**({} if c["eps"] is None else dict(eps=c["eps"])))
    np.random.seed(c["seed"])
    out = s.do(prob, pop, n_survive=c["n"], **kw)
    kept = [int(i.X[0]) for i in out]
    for i in out:
        equal(i.F, F[int(i.X[0])], "objectives of a survivor")
    eps = 10.0 if c["eps"] is None else c["eps"]
    rank = check_survivors(F, CV, c["G"] is not None, c["n"], kept, kw.get("ideal"), kw.get("nadir"), eps, "survival", ev)
    if rank:
        for i in out:
            k = int(i.X[0])
            if k in rank:
                equal(i.get("rank"), rank[k], f"layer of {F[k].tolist()}")
    ev.label(f"{F.shape[1]} objectives", "constraints" if c["G"] else "")


# ----------------------------------------------------------------------------------- tournament
@st.composite
def tour_case(draw):
    m, n = draw(st.integers(2, 3)), draw(st.integers(2, 6))
    return dict(F=draw(gen.mat(gen.coarse(0.0, 1.0, 3), n, m)), G=draw(st.one_of(st.none(), gen.mat(st.sampled_from([-1.0, 0.0, 0.5, 1.0]), n, 1))),
                P=draw(st.lists(st.lists(st.integers(0, n - 1), min_size=2, max_size=2, unique=True), min_size=1, max_size=8)), seed=draw(st.integers(0, 1 << 20)))


@sub("C25", "tournament", tour_case(), 1000, 10000, "binary tournaments with ties, equal and unequal violations; non-trivial: a decided pair")
def tournament(c, ev):
    prob = Table(c["F"], c["G"])
    pop = prob.population()
    F, CV = np.array(c["F"]), pop.get("CV")[:, 0]
    P = np.array(c["P"])
    np.random.seed(c["seed"])
    S = np.asarray(cv_and_dom_tournament(pop, P))
    require(S.shape == (len(P), 1), f"shape {S.shape}")
    for (a, b), s in zip(c["P"], S[:, 0].tolist()):
        require(s in (a, b), f"winner {s} of {a} against {b}")
        want = None
        if max(CV[a], CV[b]) > 0:
            if CV[a] != CV[b]:
                want = a if CV[a] < CV[b] else b
        elif ref_hv.dominates(F[a], F[b]):
            want = a
        elif ref_hv.dominates(F[b], F[a]):
            want = b
        if want is not None:
            ev.nontrivial()
            require(s == want, f"winner {s} of {a} {F[a].tolist()} cv {CV[a]} against {b} {F[b].tolist()} cv {CV[b]}")
    try:
        cv_and_dom_tournament(pop, np.zeros((1, 3), dtype=int))
    except ValueError:
        return
    require(False, "a tournament of three was accepted")


# ------------------------------------------------------------------------------------- SMS-EMOA
class Smooth(Problem):
    """quadratic distances to given centres, with half spaces and circles as constraints; counts evaluations"""

    def __init__(self, c):
        self.c, self.log = np.array(c["centres"]), []
        self.g, self.h = c["g"], c["h"]
        super().__init__(n_var=self.c.shape[1], n_obj=len(self.c), n_ieq_constr=len(self.g), n_eq_constr=len(self.h), xl=0.0, xu=1.0)

    def _evaluate(self, x, out, *args, **kwargs):
        x = np.atleast_2d(x)
        self.log.extend(x.tolist())
        out["F"] = ((x[:, None] - self.c[None]) ** 2).sum(axis=2)
        if self.g:
            out["G"] = np.stack([x[:, 0] * a + x[:, -1] * b - d for a, b, d in self.g], axis=1)
        if self.h:
            out["H"] = np.stack([x[:, 0] * a + x[:, -1] * b - d for a, b, d in self.h], axis=1)


def half(n):
    return st.lists(st.tuples(*[gen.grid(-1.0, 1.0, 20)] * 3), max_size=n)


@st.composite
def problem(draw, ms=(2, 2, 2, 3)):
    m, n = draw(st.sampled_from(ms)), draw(st.integers(1, 3))
    return dict(centres=draw(gen.mat(gen.grid(0.0, 1.0, 10), m, n)), g=draw(st.one_of(st.just([]), half(2))),
                h=draw(st.one_of(st.just([]), st.just([]), half(1))))


@st.composite
def sms_case(draw):
    return dict(p=draw(problem()), size=draw(st.integers(2, 8)), off=draw(st.sampled_from([None, 1, 3])), norm=draw(st.sampled_from([None, True, False])),
                eps=draw(st.sampled_from([None, None, 0.5])), gens=draw(st.integers(1, 4)), seed=draw(st.integers(1, 1 << 20)))


def sms(c, log=None):
    prob = Smooth(c["p"])
    kw = {k: v for k, v in dict(n_offsprings=c["off"], normalize=c["norm"]).items() if v is not None}
    if c["eps"] is not None:
        kw["survival"] = LeastHypervolumeContributionSurvival(eps=c["eps"])
    alg = SMSEMOA(pop_size=c["size"], **kw)
    alg.setup(prob, termination=("n_gen", c["gens"] + 1), seed=c["seed"])
    while alg.has_next():
        before = None if alg.pop is None else list(alg.pop)
        inf = alg.ask()
        if inf is None:
            alg.tell()
        else:
            alg.evaluator.eval(prob, inf)
            alg.tell(infills=inf)
        if log is not None:
            log.append((before, [] if inf is None else list(inf), list(alg.pop)))
    return prob, alg


@sub("C25", "sms_emoa", sms_case(), 1000, 12000, "runs of one to four generations on quadratic problems with two or three objectives and constraints, "
     "population and offspring numbers, with and without normalisation; non-trivial: a layer split by contributions that decide it")
def sms_emoa(c, ev):
    log = []
    prob, alg = sms(c, log)
    before, inf, after = log[0]
    require(before is None or not before, "population before the first generation")
    require({id(i) for i in inf} == {id(i) for i in after}, "the first population is not the one sampled")
    require(len(after) == c["size"], f"{len(after)} initial points")
    n_off = c["off"] or c["size"]
    for t, (before, inf, after) in enumerate(log[1:]):
        require(len(inf) <= n_off, f"{len(inf)} offspring, {n_off} wanted")
        both = before + inf
        where = {id(i): k for k, i in enumerate(both)}
        require(all(id(i) in where for i in after), "a survivor is neither parent nor offspring")
        F = np.array([i.F for i in both])
        CV = np.array([i.CV[0] for i in both])
        P = np.array([i.F for i in before])
        ideal, nadir = (P.min(axis=0), P.max(axis=0)) if c["norm"] is not False else (None, None)
        if ideal is None:
            ok = CV <= 0
            if ok.any() and np.any((lambda A: (A.max(0) - A.min(0) < 1e-9) & (A.max(0) > A.min(0)))(F[ok])):
                continue
        elif np.any((nadir - ideal < 1e-9) & (nadir > ideal)):
            continue
        check_survivors(F, CV, prob.has_constraints(), c["size"], [where[id(i)] for i in after], ideal, nadir, c["eps"] or 10.0,
                        f"generation {t + 2}", ev)
        X = np.array([i.X for i in after])
        require(np.all(X >= prob.xl) and np.all(X <= prob.xu), "a point outside the box")
    require(len(prob.log) == sum(len(inf) for _, inf, _ in log), "evaluations outside the offspring")
    again, alg2 = sms(c)
    equal(np.array(again.log), np.array(prob.log), "decisions of a second run with the same seed")
    equal(alg2.pop.get("X"), alg.pop.get("X"), "final population of a second run with the same seed")
    ev.label(f"{prob.n_obj} objectives", "constraints" if prob.has_constraints() else "")


@st.composite
def stuck_case(draw):
    return dict(centres=draw(gen.mat(gen.grid(0.0, 1.0, 10), 2, 2)), size=draw(st.integers(2, 5)), seed=draw(st.integers(1, 1 << 20)))


@sub("C25", "no_offspring", stuck_case(), 20, 200, "SMS-EMOA with variation that only copies parents; every case is non-trivial", group="sms_emoa")
def no_offspring(c, ev):
    from pymoo.operators.crossover.sbx import SBX
    from pymoo.operators.mutation.pm import PM

    prob = Smooth(dict(centres=c["centres"], g=[], h=[]))
    alg = SMSEMOA(pop_size=c["size"], crossover=SBX(prob=0.0), mutation=PM(prob=0.0))
    alg.setup(prob, termination=("n_gen", 4), seed=c["seed"])
    alg.next()
    X = alg.pop.get("X")
    while alg.has_next():
        alg.next()
    equal(sorted(alg.pop.get("X").tolist()), sorted(X.tolist()), "population when no offspring can be found")
    ev.nontrivial()


# --------------------------------------------------------------------------------------- MOEA/D
@st.composite
def moead_case(draw):
    p = draw(problem((2, 2, 3)))
    m = len(p["centres"])
    n = draw(st.integers(3, 9))
    if m == 2:
        dirs = [[i / (n - 1), 1 - i / (n - 1)] for i in range(n)]
    else:
        dirs = [[i / 3, j / 3, (3 - i - j) / 3] for i in range(4) for j in range(4 - i)]
    return dict(p=p, dirs=dirs, neighbors=draw(st.sampled_from([1, 2, 3, 4, 20])), until=draw(st.sampled_from([None, None, 0.3, 1.0])),
                gens=draw(st.integers(2, 6)), seed=draw(st.integers(1, 1 << 20)), prob=draw(st.sampled_from([None, 0.0, 1.0])),
                decomp=draw(st.sampled_from([None, None, "other"])))


def moead(c):
    from pymoo.decomposition.pbi import PBI
    from pymoo.decomposition.tchebicheff import Tchebicheff

    prob = Smooth(c["p"])
    kw = {} if c["until"] is None else dict(perc_eps_until=c["until"])
    if c["prob"] is not None:
        kw["prob_neighbor_mating"] = c["prob"]
    cheb = (prob.n_obj <= 2) == (c["decomp"] is None)
    if c["decomp"]:
        kw["decomposition"] = Tchebicheff() if cheb else PBI()
    alg = ConstraintAwareMOEAD(ref_dirs=np.array(c["dirs"]), n_neighbors=c["neighbors"], **kw)
    alg.setup(prob, termination=("n_gen", c["gens"]), seed=c["seed"])
    return prob, alg, cheb


def decomposed(F, w, ideal, cheb):
    if cheb:
        return float(np.max(np.abs(F - ideal) * w))
    u = w / np.linalg.norm(w)
    d1 = float((F - ideal) @ u)
    return abs(d1) + 5 * float(np.linalg.norm((F - ideal) - d1 * u))


@sub("C25", "moead_replacement", moead_case(), 700, 10000, "runs of two to six generations on problems with and without constraints, neighbourhood "
     "sizes, decompositions, seeds, observed offspring by offspring; non-trivial: a neighbourhood of which the offspring replaces a part")
def moead_replacement(c, ev):
    prob, alg, cheb = moead(c)
    if c["neighbors"] < 2 and c["prob"] != 0.0 or (c["neighbors"] < 2 and len(c["dirs"]) < 2):
        # too few parents in a neighbourhood of one
        return
    W = np.array(c["dirs"])
    D = np.linalg.norm(W[:, None] - W[None], axis=2)
    init = alg.ask()
    alg.evaluator.eval(prob, init)
    alg.tell(infills=init)
    T = min(c["neighbors"], len(W))
    N = np.asarray(alg.neighbors)
    require(N.shape == (len(W), T), f"neighbours of shape {N.shape}")
    for k in range(len(W)):
        require(len(set(N[k].tolist())) == T, f"neighbours {N[k]}")
        rest = [j for j in range(len(W)) if j not in set(N[k].tolist())]
        require(not rest or D[k][N[k]].max() <= D[k][rest].min() + 1e-12, f"neighbours {N[k]} of direction {k} are not the nearest")
    require(len(alg.pop) == len(W), f"{len(alg.pop)} points for {len(W)} directions")
    mean = float(np.mean([i.CV[0] for i in init]))
    until = 0.8 if c["until"] is None else c["until"]

    seen, inner = [], alg.selection

    class Watch:
        def do(self, *a, **kw):
            seen.append(np.asarray(kw["neighbors"][0]).tolist())
            return inner.do(*a, **kw)

    alg.selection = Watch()
    ideal = np.min([i.F for i in init], axis=0)
    visited, gen_before = [], alg.n_gen
    while alg.has_next():
        before = list(alg.pop)
        # admissible violation at this point of the run
        eps = max(0.0, 1 - alg.termination.perc / until) * mean if prob.has_constraints() else 0.0
        inf = alg.ask()
        if inf is None:
            alg.tell()
            continue
        one = inf
        group = Population.create(one)
        alg.evaluator.eval(prob, group)
        off = group[0]
        mine = seen[-1] if seen else None
        # the next offspring is generated while this one is inserted
        alg.tell(infills=off)
        after = list(alg.pop)
        changed = {k for k, (a, b) in enumerate(zip(before, after)) if a is not b}
        require(all(after[k] is off for k in changed), "a member was replaced by something other than the offspring")
        ideal = np.minimum(ideal, off.F)
        must, may = set(), set()
        for k in range(len(W)):
            if mine is not None and k not in mine:
                continue
            old = before[k]
            if old is off:
                continue
            a, b = max(off.CV[0] - eps, 0.0), max(old.CV[0] - eps, 0.0)
            if not prob.has_constraints():
                a = b = 0.0
            if 0 < max(a, b) < 1e-9 or any(0 < abs(i.CV[0] - eps) < 1e-9 for i in (off, old)):
                may.add(k)
            elif a > 0 or b > 0:
                if abs(a - b) < 1e-9:
                    may.add(k)
                elif a < b:
                    must.add(k)
            else:
                fo, fn = decomposed(old.F, W[k], ideal, cheb), decomposed(off.F, W[k], ideal, cheb)
                if abs(fo - fn) <= 1e-9 * (1 + abs(fo)):
                    may.add(k)
                elif fn < fo:
                    must.add(k)
        require(changed <= must | may, f"the offspring {off.F.tolist()} (cv {off.CV.tolist()}) replaced {sorted(changed)}, allowed {sorted(must | may)}")
        if mine is not None:
            require(must <= changed, f"the offspring {off.F.tolist()} replaced {sorted(changed)}, better for {sorted(must)} of {mine}")
            ev.nontrivial(0 < len(must) < len(mine))
            visited.append(mine[0] if c["neighbors"] >= 1 else None)
        if eps > 0:
            ev.label("tolerated violation")
        if alg.n_gen != gen_before:
            require(alg.n_gen == gen_before + 1, "generations counted")
            gen_before = alg.n_gen
        require(len(alg.pop) == len(W), "size of the population")
    ev.label(f"{prob.n_obj} objectives", "constraints" if prob.has_constraints() else "")


@sub("C25", "moead_generations", moead_case(), 350, 5000, "the same runs, one call per generation; non-trivial: at least three generations")
def moead_generations(c, ev):
    if c["neighbors"] < 2:
        return
    runs = []
    for _ in range(2):
        prob, alg, cheb = moead(c)
        calls = 0
        while alg.has_next():
            count, g = len(prob.log), alg.n_gen
            alg.next()
            calls += 1
            require(len(prob.log) - count == len(c["dirs"]), f"{len(prob.log) - count} evaluations in call {calls}")
            require(g is None or alg.n_gen == g + 1, f"generation {g} -> {alg.n_gen}")
            X = alg.pop.get("X")
            require(len(X) == len(c["dirs"]), "size of the population")
            known = set(map(tuple, prob.log))
            require(all(tuple(x) in known for x in X.tolist()), "a member was never evaluated")
            require(np.all(X >= prob.xl) and np.all(X <= prob.xu), "a point outside the box")
        require(calls == c["gens"], f"{calls} calls for {c['gens']} generations")
        runs.append((prob.log, X.tolist()))
    equal(np.array(runs[0][0]), np.array(runs[1][0]), "decisions of two runs with the same seed")
    equal(np.array(runs[0][1]), np.array(runs[1][1]), "final populations of two runs with the same seed")
    ev.nontrivial(calls > 2)
