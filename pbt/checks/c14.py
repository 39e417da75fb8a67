"""C14..C17: the set-based optimizers, iteration by iteration, against reference steps."""
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref_hv, ref_mmd
from pbt.checks.c02 import derivatives as hv_derivatives
from pbt.checks.c02 import gap
from pbt.checks.c11 import BatchProblem, Problem
from pbt.core import arr, close, equal, require, sub
from pbt.maps import Quadratic, quadratic
from pbt.ref_match import MatchModel


# ------------------------------------------------------------------------------------ problems
@st.composite
def problems(draw, nmax=4, constrained=None, convex=None, mmax=3):
    nv, m = draw(st.integers(1, 3)), draw(st.integers(2, mmax))
    n = draw(st.integers(1, nmax))
    X = draw(gen.mat(gen.grid(-1.0, 1.0, 4000), n, nv))
    if nmax > 2 and draw(st.integers(0, 6)) == 0:  # a larger population
        X = draw(gen.cloud(draw(st.integers(nmax + 1, 3 * nmax)), nv, ("uniform",), -1.0, 1.0))
    cons = draw(st.booleans()) if constrained is None else constrained
    ne = draw(st.integers(0, 1)) if cons else 0
    ni = draw(st.integers(0 if ne else 1, 2)) if cons else 0
    f = draw(quadratic(m, nv))
    if draw(st.booleans()) if convex is None else convex:  # objectives with a unique minimum each
        f["Q"] = [[[4.0 * (i == j) + 0.5 * v for j, v in enumerate(r)] for i, r in enumerate(Q)] for Q in f["Q"]]
    return dict(nv=nv, m=m, f=f, h=draw(quadratic(ne, nv)) if ne else None, g=draw(quadratic(ni, nv)) if ni else None,
                style=draw(st.sampled_from(["batch", "bound", "plain", "scalar"])),
                X=X, iters=draw(st.integers(1, 3)), pre=draw(st.integers(0, 2)) == 0,
                dual=draw(gen.mat(gen.grid(-2.0, 2.0, 400), len(X), ne + ni)) if cons and draw(st.booleans()) else None)


def build(c):
    f = Quadratic(c["f"])
    h = Quadratic(c["h"]) if c["h"] else None
    g = Quadratic(c["g"]) if c["g"] else None
    P = (BatchProblem if c["style"] == "batch" else Problem)(f, h, g, c["style"])
    return f, h, g, P.callbacks()


def set_multipliers(o, c):
    """go on from other multipliers than the initial ones"""
    if c["dual"] is not None and len(c["dual"]) == o.N:
        o.state.update(np.c_[o.state.primal, np.array(c["dual"])])


class Lagrange:
    """constraints of one point: values, active set, Jacobians, curvature"""

    def __init__(self, c, f, h, g):
        self.h, self.g, self.nv = h, g, c["nv"]
        self.ne = h.n_obj if h else 0
        self.ni = g.n_obj if g else 0
        self.nd = self.ne + self.ni

    def at(self, x):
        n = self.nv
        v = np.r_[self.h.f(x) if self.h else np.zeros(0), self.g.f(x) if self.g else np.zeros(0)]
        J = np.concatenate((self.h.jac(x) if self.h else np.zeros((0, n)), self.g.jac(x) if self.g else np.zeros((0, n))))
        C = np.concatenate((self.h.hess(x) if self.h else np.zeros((0, n, n)),
                            self.g.hess(x) if self.g else np.zeros((0, n, n))))
        act = np.r_[np.ones(self.ne, bool), v[self.ne:] >= -1e-4]
        unsure = np.any(np.abs(v[self.ne:] + 1e-4) < 1e-8)
        feas = bool(np.all(np.abs(v[: self.ne]) <= 1e-4) and not act[self.ne:].any())
        unsure = unsure or np.any(np.abs(np.abs(v[: self.ne]) - 1e-4) < 1e-8)
        return v, J, C, act, feas, unsure


class Undecided(Exception):
    """a tie, a kink or bad conditioning: no reference step"""


def kkt_residual(L, X, grad):
    """residual matrix (N, nv + nd) and active sets for primal-dual X"""
    R = np.zeros(X.shape)
    acts = []
    for i, z in enumerate(X):
        v, J, C, act, _, unsure = L.at(z[: L.nv])
        if unsure:
            raise Undecided("a constraint at its activity tolerance")
        R[i, : L.nv] = grad[i] + z[L.nv:][act] @ J[act]
        R[i, L.nv:][act] = v[act]
        acts.append(act)
    return R, acts


def solve_kkt(L, X, R, acts, H, curvature):
    """the Newton direction of the active primal-dual system; H is (N nv, N nv)"""
    N, nv = len(X), L.nv
    K = H.copy()
    rows = []
    for i, z in enumerate(X):
        v, J, C, act, _, _ = L.at(z[:nv])
        b = slice(i * nv, (i + 1) * nv)
        if curvature:
            K[b, b] += np.einsum("k,kab->ab", z[nv:][act], C[act])
        for r in J[act]:
            row = np.zeros(N * nv)
            row[b] = r
            rows.append(row)
    B = np.array(rows).reshape(-1, N * nv)
    M = np.block([[K, B.T], [B, np.zeros((len(B), len(B)))]])
    rhs = np.r_[R[:, :nv].ravel(), np.concatenate([R[i, nv:][a] for i, a in enumerate(acts)])]
    if not np.all(np.isfinite(M)):
        raise Undecided("ill-conditioned Newton system")
    # variables without any equation do not move (the solution of least length)
    free = np.any(M != 0, axis=0) | np.any(M != 0, axis=1)
    d = np.zeros(len(M))
    if np.any(free):
        if np.linalg.cond(M[np.ix_(free, free)]) > 1e6:
            raise Undecided("ill-conditioned Newton system")
        d[free] = -np.linalg.solve(M[np.ix_(free, free)], rhs[free])
    step = np.zeros(X.shape)
    step[:, :nv] = d[: N * nv].reshape(N, nv)
    k = N * nv
    for i, a in enumerate(acts):
        step[i, nv:][a] = d[k : k + a.sum()]
        k += a.sum()
    return step


def precondition(H):
    """least-effort positive definite shift is the code's choice; only definite matrices are
    left alone for certain"""
    lo = np.linalg.eigvalsh((H + H.T) / 2)[0]
    if lo < 1e-6 * max(1.0, np.abs(H).max()):
        from hvd.utils import precondition_hessian  # its contract is checked under C13

        return precondition_hessian(H)
    return H


def common_checks(o, f, c, X0, ev):
    """what holds for every optimizer after every logged iteration"""
    close(o.state.Y, np.array([f.f(x) for x in o.state.primal]), 1e-9, "objectives of the current population")
    close(o.history_X[-1], o.state.primal, 0.0, "logged decisions")
    close(o.history_Y[-1], o.state.Y, 0.0, "logged objectives")


class Metric:
    """a performance metric of the user"""

    def __init__(self, a):
        self.a = a

    def compute(self, Y):
        Y = np.asarray(Y)
        return float(len(Y) + self.a * Y[0].sum() - Y[-1, 0])


def metrics():
    return dict(one=Metric(1.0), two=Metric(-3.0))


def start_without_points(make, c, f, cb, L, dual, ev):
    """no starting points: N of them are drawn from the box.  `make(N, seed, lo, hi, **kw)`"""
    n, nv = c["N"], c["nv"]
    lo, hi = np.array(c["lo"]), np.array(c["lo"]) + np.array(c["width"])
    np.random.seed(c["seed"])
    o = make(n, lo, hi)
    P = np.asarray(o.state.primal)
    require(P.shape == (n, nv), f"{P.shape} starting points instead of {(n, nv)}")
    require(o.N == n == o.state.N, f"{o.N} points instead of {n}")
    require(np.all(P >= lo) and np.all(P <= hi), f"starting points outside the box: {P.tolist()}")
    require(len(np.unique(P, axis=0)) == n, "starting points repeated")
    if n >= 40:
        u = (P - lo) / (hi - lo)
        require(np.all(u.min(0) < 0.4) and np.all(u.max(0) > 0.6), f"the starting points leave out parts of the box {lo}, {hi}")
        for a in range(nv):
            for b in range(a):
                require(abs(np.corrcoef(u[:, a], u[:, b])[0, 1]) < 0.9, "coordinates of the starting points coincide")
    if L.nd:
        close(o.state.dual, np.full((n, L.nd), dual), 1e-12, "starting multipliers")
    close(o.state.Y, np.array([f.f(x) for x in P]), 1e-9, "objectives of the starting points")
    np.random.seed(c["seed"])
    equal(make(n, lo, hi).state.primal, P, "starting points for the same random state")
    ev.label("constrained" if L.nd else "unconstrained")
    ev.nontrivial(n > 1)


@st.composite
def drawn_starts(draw, **kw):
    c = draw(problems(nmax=1, **kw))
    c["N"] = draw(st.sampled_from([1, 2, 3, 7, 40, 60]))
    c["seed"] = draw(st.integers(0, 1000))
    c["lo"] = draw(gen.vec(gen.grid(-3.0, 2.0, 50), c["nv"]))
    c["width"] = draw(gen.vec(gen.grid(0.1, 4.0, 39), c["nv"]))
    if draw(st.integers(0, 3)) == 0:
        c["lo"], c["width"] = [c["lo"][0]] * c["nv"], [c["width"][0]] * c["nv"]
    return c


def finish_run(o, c, iters, f, pair):
    X, Y, stop = pair
    for name, metric in metrics().items():
        close(o.history_metrics[name], [metric.compute(Y=y) for y in o.history_Y], 1e-9, f"history of the metric {name}")
    require(set(o.history_metrics) <= set(metrics()), f"metrics {list(o.history_metrics)}")
    require(stop.get("iter_count") == iters, f"stopped with {stop}, expected {iters} iterations")
    for name in ("history_X", "history_Y", "history_R_norm"):
        require(len(getattr(o, name)) == iters, f"{len(getattr(o, name))} entries in {name} after {iters} iterations")
    if np.all(np.isfinite(X)):
        close(Y, np.array([f.f(x) for x in X]).reshape(-1, c["m"]), 1e-9, "returned objectives")
    if iters:
        equal(np.asarray(o.history_X[-1]), np.asarray(X), "last logged decisions")


# ------------------------------------------------------------------------------------ C14: HVN
class HvModel:
    def __init__(self, c, f, L, ref):
        self.c, self.f, self.L, self.ref = c, f, L, np.array(ref, dtype=float)

    def derivs(self, P):
        Y = np.array([self.f.f(x) for x in P])
        if not np.all(np.isfinite(Y)) or gap(Y, self.ref) < 1e-7:
            raise Undecided("tied objective values")
        G, H = hv_derivatives(Y, self.ref)
        N, m = Y.shape
        return ref_mmd.chain(self.f, P, G, H.reshape(N, m, N, m).transpose(0, 2, 1, 3))

    def residual(self, Z):
        g, _ = self.derivs(Z[:, : self.L.nv])
        return kkt_residual(self.L, Z, g)[0]

    def partitions(self, Z):
        info = [self.L.at(z[: self.L.nv]) for z in Z]
        if any(i[5] for i in info):
            raise Undecided("a constraint at its tolerance")
        feas = [i for i, v in enumerate(info) if v[4]]
        if not feas:
            return [list(range(len(Z)))]
        rank = ref_hv.layers([self.f.f(Z[i, : self.L.nv]) for i in feas])
        groups = {}
        for i, r in zip(feas, rank):
            groups.setdefault(r, []).append(i)
        groups[0] = sorted(groups[0] + [i for i in range(len(Z)) if i not in feas])
        return [groups[k] for k in sorted(groups)]

    def step(self, Z, pre):
        nv = self.L.nv
        g, H = self.derivs(Z[:, :nv])
        R, acts = kkt_residual(self.L, Z, g)
        if pre:
            H = -precondition(-H)
        return solve_kkt(self.L, Z, R, acts, H, curvature=True), R

    def expected(self, Z, pre, limit, xl, xu):
        """the next primal-dual population"""
        out = Z.copy()
        for idx in self.partitions(Z):
            S = Z[idx]
            step, R = self.step(S, pre)
            top = 1.0
            if limit:
                P, d = S[:, : self.L.nv], step[:, : self.L.nv]
                with np.errstate(divide="ignore", invalid="ignore"):
                    room = np.where(d < 0, np.abs(P - xl) / np.abs(d), np.where(d > 0, np.abs(xu - P) / np.abs(d), np.inf))
                if np.any(d != 0):
                    top = min(1.0, 0.25 * room.min())
                    noise = (d != 0) & (np.abs(d) < 1e-10 * max(1.0, np.abs(step).max()))
                    if np.any(noise & (np.minimum(np.abs(P - xl), np.abs(xu - P)) < 1e-7)):
                        raise Undecided("a point on the box with a step of rounding noise")
            n0 = np.linalg.norm(R)
            if n0 == 0 and not np.any(step):  # no equation at all, e.g. beyond the reference point
                continue
            if n0 < 3e-8:  # the line search accepts anything there
                raise Undecided("already stationary")
            s = top
            for k in range(6):
                with np.errstate(all="ignore"):
                    v = np.linalg.norm(self.residual(S + s * step))
                bound = (1 - 1e-5 * s) * n0
                if abs(v - bound) < 1e-7 * n0:
                    raise Undecided("merit at the acceptance bound")
                if v <= bound:
                    break
                s *= 0.5
            out[idx] = S + s * step
        return out


@st.composite
def hvn_cases(draw, **kw):
    c = draw(problems(**kw))
    c["pad"] = draw(gen.vec(gen.grid(1.0, 20.0, 19), c["m"]))
    if draw(st.integers(0, 3)) == 0:  # points beyond the reference point
        c["pad"][draw(st.integers(0, c["m"] - 1))] = draw(gen.grid(-1.0, 0.5, 60))
    c["limit"] = draw(st.booleans())
    c["box"] = draw(st.sampled_from([1.0, 2.0, 5.0]))
    c["dup"] = draw(st.integers(0, 3)) == 0
    return c


def hvn(c, f, cb, X, xl, xu, **kw):
    from hvd import HVN

    ref = np.array([f.f(x) for x in np.array(c["X"])]).max(axis=0) + np.array(c["pad"])
    cons = {{"h_hess": "h_hessian", "g_hess": "g_hessian"}.get(k, k): v for k, v in cb.items() if k not in ("func", "jac")}
    return HVN(c["nv"], c["m"], cb["func"], cb["jac"], f.hess, ref, xl, xu, N=len(X), X0=X, verbose=False,
               preconditioning=c["pre"], limit_max_step_size=c["limit"], **cons, **kw), ref


@sub("C14", "newton_steps", hvn_cases(nmax=5), 500, 6000,
     "populations of quadratic problems with and without constraints, every iteration of short runs; non-trivial: an "
     "iteration of at least two points with a reference step")
def hvn_steps(c, ev):
    f, h, g, cb = build(c)
    X0 = np.array(c["X"])
    if c["dup"]:
        X0 = np.r_[X0, X0[:1]]
    src = X0.copy()
    xl, xu = -c["box"] * np.ones(c["nv"]), c["box"] * np.ones(c["nv"])
    o, ref = hvn(c, f, cb, src, -c["box"] if c["nv"] % 2 else xl.copy(), xu.copy())
    L = Lagrange(c, f, h, g)
    model = HvModel(c, f, L, ref)
    close(o.state.primal, X0, 0.0, "starting population")
    close(o.state.dual, np.full((len(X0), L.nd), 1.0 / len(X0)), 1e-12, "starting multipliers")
    set_multipliers(o, c)
    ev.label("constrained" if L.nd else "unconstrained", "preconditioned" if c["pre"] else "plain")
    for t in range(c["iters"]):
        Z = o.state.X.copy()
        Z = Z[[i for i in range(len(Z)) if not any(np.array_equal(Z[i, : c["nv"]], Z[j, : c["nv"]]) for j in range(i))]]
        D = np.linalg.norm(Z[:, None, : c["nv"]] - Z[None, :, : c["nv"]], axis=-1) + np.eye(len(Z))
        if D.min() < 1e-6:
            return ev.label("points closer than the duplicate tolerance")
        hv = ref_hv.hv([f.f(z[: c["nv"]]) for z in Z], ref)
        try:
            want = model.expected(Z, c["pre"], c["limit"], xl, xu)
        except Undecided as e:
            ev.label(f"no reference step: {e}")
            o.iterate()
            o.log()
            if not np.all(np.isfinite(o.state.X)):
                return
            continue
        o.iterate()
        o.log()
        require(o.N == len(Z) == o.state.N, f"{o.N} points, {len(Z)} distinct ones")
        close(o.history_indicator_value[-1], hv, 1e-8, "logged hypervolume of the population before the step", shape=False)
        close(o.state.X, want, 1e-5, f"primal-dual population after iteration {t}", scale=np.abs(want - Z).max())
        common_checks(o, f, c, X0, ev)
        require(o.iter_count == t + 1, f"iteration counter {o.iter_count} after {t + 1} iterations")
        ev.nontrivial(len(Z) > 1)
        if len(model.partitions(Z)) > 1:
            ev.label("several dominance layers")
    equal(src, X0, "the caller's starting points")


@sub("C14", "newton_steps_constrained", hvn_cases(nmax=4, constrained=True), 300, 4000, "constrained problems; as above")
def hvn_steps_constrained(c, ev):
    hvn_steps(c, ev)


@st.composite
def feasible_cases(draw):
    """points on a curved equality constraint, so that several layers of them have multipliers"""
    nv, m, n = draw(st.integers(2, 3)), draw(st.integers(2, 3)), draw(st.integers(2, 6))
    return dict(nv=nv, m=m, f=draw(quadratic(m, nv)), h=draw(quadratic(1, nv)), g=draw(quadratic(1, nv)) if draw(st.booleans()) else None,
                style=draw(st.sampled_from(["batch", "bound", "plain", "scalar"])), X=draw(gen.mat(gen.grid(-1.0, 1.0, 4000), n, nv)),
                iters=draw(st.integers(1, 2)), pre=draw(st.booleans()), dual=draw(gen.mat(gen.grid(-2.0, 2.0, 400), n, 1)),
                pad=draw(gen.vec(gen.grid(1.0, 20.0, 19), m)), limit=draw(st.booleans()), box=10.0, dup=False)


@sub("C14", "overdetermined", st.fixed_dictionaries(dict(seed=st.integers(0, 10**6))), 6, 60,
     "40 optimizers of one variable with up to four constraints, three iterations each, in a process of their own; "
     "non-trivial: all")
def hvn_overdetermined(c, ev):
    """a singular system takes the least-squares step; it does not kill the interpreter"""
    script = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "overdetermined.py")
    r = subprocess.run([sys.executable, "-W", "ignore", script, str(c["seed"]), "40"], capture_output=True, text=True)
    require(r.returncode == 0, f"more active constraints than variables: the process ended with {r.returncode} "
            f"{r.stdout[-300:]} {r.stderr[-500:]}")
    ev.nontrivial(True)


@sub("C14", "feasible_layers", feasible_cases(), 200, 3000,
     "points moved onto a curved equality constraint, with different multipliers; non-trivial: an iteration of at least two points "
     "with a reference step")
def hvn_feasible_layers(c, ev):
    h = Quadratic(c["h"])
    X = []
    for x in np.array(c["X"]):
        for _ in range(20):
            J = h.jac(x)[0]
            if J @ J < 1e-4:
                return ev.label("no feasible point found")
            x = x - J * h.f(x)[0] / (J @ J)
        if np.abs(h.f(x)[0]) > 1e-10 or np.abs(x).max() > 5:
            return ev.label("no feasible point found")
        X.append(x.tolist())
    if c["g"]:
        g = Quadratic(c["g"])
        c = dict(c, g=dict(c["g"], c=[c["g"]["c"][0] - max(g.f(np.array(x))[0] for x in X[:-1]) - 0.1]),
                 dual=[d + d for d in c["dual"]])
    hvn_steps(dict(c, X=X), ev)


@st.composite
def hvn_runs(draw):
    c = draw(hvn_cases(nmax=4, convex=True))
    c["iters"] = draw(st.integers(0, 6))
    c["scale"] = draw(st.sampled_from([1.0, 1.0, 3.0]))
    return c


@sub("C14", "runs", hvn_runs(), 150, 2000,
     "whole runs, also from starting points outside the box, twice; non-trivial: at least two iterations of several points")
def hvn_run(c, ev):
    f, h, g, cb = build(c)
    X0 = np.array(c["X"]) * c["scale"]
    xl, xu = -np.ones(c["nv"]), np.ones(c["nv"])
    out = []
    for _ in range(2):
        o, ref = hvn(c, f, cb, X0.copy(), xl, xu, max_iters=c["iters"], metrics=metrics())
        equal(o.state.primal, np.clip(X0, xl, xu), "starting points moved into the box")
        pair = o.run()
        finish_run(o, c, c["iters"], f, pair)
        require(len(o.history_indicator_value) == c["iters"], "indicator history")
        for t in range(1, c["iters"]):
            if np.all(np.isfinite(o.history_Y[t - 1])):
                close(o.history_indicator_value[t], ref_hv.hv(o.history_Y[t - 1], ref), 1e-8, "indicator history", shape=False)
        out.append(pair)
    equal(out[0][0], out[1][0], "a second run from the same start")
    ev.nontrivial(c["iters"] > 1 and len(X0) > 1)


@sub("C14", "drawn_start", drawn_starts(), 150, 1500,
     "no starting points given; non-trivial: more than one point")
def hvn_drawn_start(c, ev):
    from hvd import HVN

    f, h, g, cb = build(c)
    cons = {{"h_hess": "h_hessian", "g_hess": "g_hessian"}.get(k, k): v for k, v in cb.items() if k not in ("func", "jac")}
    start_without_points(
        lambda n, lo, hi: HVN(c["nv"], c["m"], cb["func"], cb["jac"], f.hess, np.full(c["m"], 100.0), lo, hi, N=n,
                              verbose=False, **cons), c, f, cb, Lagrange(c, f, h, g), 1.0 / c["N"], ev)


# ------------------------------------------------------------------------------------ C15: DpN
@st.composite
def dpn_cases(draw, **kw):
    c = draw(problems(**kw))
    m, n = c["m"], len(c["X"])
    comps = draw(st.sampled_from([1, 1, 1, 2]))
    c["ref"] = [[[a + 1.5 * k for a in p] for p in draw(gen.mat(gen.grid(-3.0, 1.0, 4000), n + draw(st.integers(0, 4)), m))]
                for k in range(comps)]
    c["type"] = draw(st.sampled_from(["igd", "gd", "deltap"]))
    c["box"] = draw(st.sampled_from([1.0, 1.5, 5.0, 50.0]))
    c["eta"] = draw(gen.mat(gen.grid(-1.0, -0.1, 9), comps, m))
    return c


def reference_set(c):
    from hvd.reference_set import ReferenceSet

    comps = {k: np.array(r) for k, r in enumerate(c["ref"])}
    eta = {k: np.array(v) for k, v in enumerate(c["eta"])}
    r = ReferenceSet({k: v.copy() for k, v in comps.items()}, eta={k: v.copy() for k, v in eta.items()})
    return r, MatchModel(comps, eta)


def assign(model, Y):
    """the unique optimal assignment of the current targets to Y, within components"""
    from scipy.optimize import linear_sum_assignment

    plan = model.plan(Y)
    if not plan or list(map(list, plan[0])) != list(map(list, model.groups)) or plan[1] != model.pairs:
        raise Undecided("components matched anew")
    T = np.zeros(Y.shape)
    for k, j in plan[1]:
        g = list(plan[0][j])
        D = np.linalg.norm(Y[g][:, None] - model.targets[g][None], axis=-1)
        r, s = linear_sum_assignment(D)
        best = D[r, s].sum()
        for a, b in zip(r, s):
            E = D.copy()
            E[a, b] += 1e-5
            rr, ss = linear_sum_assignment(E)
            if len(g) > 1 and E[rr, ss].sum() < best + 9e-6 and np.linalg.norm(model.targets[g][ss] - model.targets[g][s]) > 1e-9:
                raise Undecided("several optimal assignments")
        T[g] = model.targets[g][s]
    return T


def same_points(A, B, tol, what):
    """two sets of points, as sets"""
    from scipy.optimize import linear_sum_assignment

    B = np.asarray(B, dtype=float)
    A = arr(A, B.shape, what)
    D = np.abs(A[:, None] - B[None]).max(-1)
    r, s = linear_sum_assignment(np.nan_to_num(D, nan=1e300))
    require(np.all(D[r, s] <= tol), f"{what}: {A.tolist()}, expected {B.tolist()}")


def partition_stays(model, f, P, step, xl, xu):
    """no point of the rays P + s step, in the box, changes how the points are split into components"""
    if len(model.ref) == 1:
        return True
    want = (list(map(list, model.groups)), sorted(model.pairs))
    Y = np.array([f.f(x) for x in P])
    for i in range(len(P)):
        d = step[i].copy()
        d[((np.abs(P[i] - xl) < 1e-7) & (d < 0)) | ((np.abs(xu - P[i]) < 1e-7) & (d > 0))] = 0.0
        with np.errstate(divide="ignore", invalid="ignore"):
            room = np.where(d < 0, (P[i] - xl) / -d, np.where(d > 0, (xu - P[i]) / d, np.inf)).min()
        for v in np.linspace(0.0, min(1.0, room), 60):
            W = Y.copy()
            W[i] = f.f(P[i] + v * d)
            plan = model.plan(W)
            if not plan or (list(map(list, plan[0])), sorted(plan[1])) != want:
                return False
    return True


class DpModel:
    def __init__(self, c, f, L, model):
        self.c, self.f, self.L, self.model = c, f, L, model

    def point_derivs(self, P, kind):
        Y = np.array([self.f.f(x) for x in P])
        N = len(P)
        if kind == "igd":
            T, w = assign(self.model, Y), 2.0
        else:
            D = np.linalg.norm(Y[:, None] - self.model.targets[None], axis=-1)
            s = np.sort(D, axis=1)
            if N > 1 and np.min(s[:, 1] - s[:, 0]) < 1e-6:
                raise Undecided("two nearest reference points")
            T, w = self.model.targets[D.argmin(1)], 2.0 / N
        g, H = [], []
        for x, y, t in zip(P, Y, T):
            J = self.f.jac(x)
            g.append(w * J.T @ (y - t))
            H.append(w * (J.T @ J + np.einsum("k,kab->ab", y - t, self.f.hess(x))))
        return np.array(g), np.array(H)

    def residual(self, Z, kind):
        g, _ = self.point_derivs(Z[:, : self.L.nv], kind)
        return kkt_residual(self.L, Z, g)[0]

    def direction(self, Z, kind, pre):
        nv = self.L.nv
        g, H = self.point_derivs(Z[:, :nv], kind)
        R, acts = kkt_residual(self.L, Z, g)
        step = np.zeros(Z.shape)
        for i in range(len(Z)):
            Hi = precondition(H[i]) if pre else H[i]
            step[i] = solve_kkt(self.L, Z[i : i + 1], R[i : i + 1], acts[i : i + 1], Hi, curvature=True)[0]
        return step, R


def check_ray(delta, step, what):
    """delta = s * step for one s >= 0; returns s"""
    n = np.linalg.norm(step)
    s = float(delta @ step) / n**2
    if not np.linalg.norm(delta - s * step) <= 1e-5 * max(1e-3, np.linalg.norm(delta)):
        require(False, f"{what}: moved by {delta}, the Newton direction is {step}")
    require(s >= -1e-9, f"{what}: moved against the Newton direction {step} by {delta}")
    return s


@sub("C15", "newton_steps", dpn_cases(nmax=4), 450, 6000,
     "populations and clustered reference sets, three kinds of indicator, every iteration of short runs; non-trivial: an "
     "iteration with a reference step of at least two points")
def dpn_steps(c, ev):
    from hvd import DpN

    f, h, g, cb = build(c)
    X0 = np.array(c["X"])
    src, nv = X0.copy(), c["nv"]
    xl, xu = -c["box"] * np.ones(nv), c["box"] * np.ones(nv)
    ref, model = reference_set(c)
    cons = {{"h_hess": "h_hessian", "g_hess": "g_hessian"}.get(k, k): v for k, v in cb.items() if k not in ("func", "jac")}
    plan = model.plan(np.array([f.f(x) for x in X0]))
    if not plan:
        return ev.label("no matching")
    o = DpN(dim=nv, n_obj=c["m"], func=cb["func"], jac=cb["jac"], hessian=f.hess, ref=ref, xl=xl, xu=xu, type=c["type"],
            N=len(X0), x0=src, verbose=False, preconditioning=c["pre"], **cons)
    L = Lagrange(c, f, h, g)
    dp = DpModel(c, f, L, model)
    close(o.state.primal, X0, 0.0, "starting population")
    close(o.state.dual, np.zeros((len(X0), L.nd)), 0.0, "starting multipliers")
    set_multipliers(o, c)
    ev.label(c["type"], "constrained" if L.nd else "unconstrained")
    last_step, medoids = None, 0
    for t in range(c["iters"]):
        Z = o.state.X.copy()
        P = Z[:, :nv]
        Y = np.array([f.f(x) for x in P])
        # what the iteration starts from: match, then shift
        plan = model.plan(Y)
        if not plan:
            return ev.label("stopped: components matched anew")
        pts = model.points
        gd = np.sqrt((np.linalg.norm(Y[:, None] - pts[None], axis=-1).min(1) ** 2).mean())
        probe, _ = reference_set(c) if t == 0 else (None, None)
        try:
            if t == 0:
                probe.match(Y)  # which medoids: the code's choice, verified
                model.matched(Y, plan, probe.reference_set, "first match")
            T = assign(model, Y)
            igd = ((Y - T) ** 2).sum(1).mean()
            model.targets = T.copy()
            for k, j in model.pairs:
                model.medoids[k] = T[list(model.groups[j])].copy()
            moved = list(range(len(Y)))
            if t == 0:
                model.shift(0.08)
            else:
                d = np.linalg.norm(Y - T, axis=1)
                if np.any(np.abs(d - 1e-8) < 9e-9) or np.any(np.abs(last_step - 1e-8) < 9e-9):
                    raise Undecided("at the shift tolerance")
                moved = [i for i in moved if d[i] <= 1e-8 and last_step[i] <= 1e-8]
                model.shift(0.05, moved)
            if c["type"] == "deltap" and abs(gd - igd) < 1e-9:
                raise Undecided("both indicators equal")
            kind = c["type"] if c["type"] != "deltap" else ("gd" if gd > igd else "igd")
            step, R = dp.direction(Z, kind, c["pre"])
        except Undecided as e:
            o.newton_iteration()
            o.log()
            require(np.all(o.state.primal >= xl - 1e-9) and np.all(o.state.primal <= xu + 1e-9), "left the box")
            return ev.label(f"no reference step: {e}")
        o.newton_iteration()
        o.log()
        close(o.GD_value, gd, 1e-9, "reported GD", shape=False)
        close(o.IGD_value, igd, 1e-9, "reported IGD", shape=False)
        close(o.curr_indicator_value, max(gd, igd), 1e-9, "reported indicator", shape=False)
        N = o.state.X
        require(N.shape == Z.shape, f"population of shape {N.shape}")
        require(np.all(o.state.primal >= xl - 1e-9) and np.all(o.state.primal <= xu + 1e-9),
                f"left the box: {o.state.primal.tolist()}")
        if not partition_stays(model, f, Z[:, :nv], step[:, :nv], xl, xu):
            return ev.label("stopped: a trial point of the line search may change the components")
        same_points(o.ref.reference_set, model.targets, 1e-8, "targets")
        require(sum(map(len, o.history_medoids.values())) == medoids + len(moved),
                f"iteration {t}: {sum(map(len, o.history_medoids.values())) - medoids} shifted targets logged, {len(moved)} shifted")
        medoids += len(moved)
        if moved:
            close([o.history_medoids[k][-1] for k in moved], model.targets[moved], 1e-9, f"iteration {t}: logged targets")
        if t and moved:
            ev.label("all reached targets shifted" if len(moved) == len(Z) else "some targets shifted")
        last_step = np.zeros(len(Z))
        for i in range(len(Z)):
            p, d = Z[i, :nv], step[i, :nv].copy()
            out = ((np.abs(p - xl) < 1e-10) & (d < 0)) | ((np.abs(xu - p) < 1e-10) & (d > 0))
            what = f"iteration {t}, point {i} ({kind})"
            last_step[i] = np.linalg.norm(d)
            if np.any((np.abs(p - xl) < 1e-7) & (d < 1e-12) | (np.abs(xu - p) < 1e-7) & (d > -1e-12)):
                ev.label("at the boundary")
                last_step[i] = np.nan
                if out.sum() != 1 or nv == 1:
                    continue
                full = step[i].copy()
                full[:nv][out] = 0.0
                require(abs((N[i] - Z[i])[:nv][out][0]) < 1e-9, f"{what}: moved through the boundary")
                if np.linalg.norm(full) > 1e-6 and np.linalg.norm((N[i] - Z[i])) > 1e-12:
                    check_ray(N[i] - Z[i], full, what)
                continue
            with np.errstate(divide="ignore", invalid="ignore"):
                room = np.where(d < 0, (p - xl) / -d, np.where(d > 0, (xu - p) / d, np.inf)).min()
            top = min(1.0, room)
            if np.linalg.norm(step[i]) < 1e-7:
                continue
            s = check_ray(N[i] - Z[i], step[i], what)
            require(s <= top * (1 + 1e-5), f"{what}: step size {s}, at most {top}")
            n0 = np.linalg.norm(R[i])
            if n0 < 1e-7:
                continue

            def merit(a):
                W = Z.copy()
                W[i] = Z[i] + a * step[i]
                return np.linalg.norm(dp.residual(W, kind)[i])

            try:
                v1 = merit(top)
                if v1 < (1 - 1.1e-4 * top) * n0:
                    require(s > top * (1 - 1e-5), f"{what}: step size {s}, although {top} reduces the residual from {n0} to {v1}")
                elif v1 > (1 - 0.9e-4 * top) * n0 + 1e-9:
                    require(s < top * 0.61, f"{what}: step size {s}, although {top} gives {v1} from {n0}")
                    if s > top * 0.6**8 * 1.001:
                        v = merit(s)
                        require(v <= (1 - 0.9e-4 * s) * n0 + 1e-7, f"{what}: accepted step size {s} gives {v} from {n0}")
            except Undecided:
                ev.label("merit not decided")
        common_checks(o, f, c, X0, ev)
        ev.nontrivial(len(Z) > 1)
        if np.any(np.isnan(last_step)):
            edge = np.isnan(last_step)
            last_step[edge] = 1.0
            if np.any(np.linalg.norm(o.state.Y[edge][:, None] - model.targets[None], axis=-1) < 1e-6):
                return ev.label("stopped: shift condition not decided at the boundary")
    equal(src, X0, "the caller's starting points")
    require(o.iter_count == c["iters"], f"iteration counter {o.iter_count}")


@sub("C15", "newton_steps_constrained", dpn_cases(nmax=4, constrained=True), 300, 4000, "constrained problems; as above")
def dpn_steps_constrained(c, ev):
    dpn_steps(c, ev)


@st.composite
def linear_cases(draw):
    nv = draw(st.integers(2, 3))
    n = draw(st.integers(1, 4))
    A = [[draw(gen.grid(-0.3, 0.3, 60)) + (i == j) for j in range(nv)] for i in range(nv)]
    return dict(m=nv, nv=nv, f=dict(c=draw(gen.vec(gen.grid(-1.0, 1.0, 20), nv)), A=A, Q=None), h=None, g=None,
                X=draw(gen.mat(gen.grid(-1.0, 1.0, 2000), n, nv)), T=draw(gen.mat(gen.grid(-1.0, 1.0, 2000), n, nv)),
                style=draw(st.sampled_from(["batch", "bound", "plain"])), iters=draw(st.integers(1, 4)),
                type=draw(st.sampled_from(["igd", "gd"])), scale=draw(st.sampled_from([1.0, 3.0])),
                eta=[draw(gen.vec(gen.grid(-1.0, -0.2, 8), nv))])


@sub("C15", "linear_targets", linear_cases(), 250, 3000,
     "linear objectives: every point reaches its target in one iteration, and a reached target moves on; non-trivial: "
     "several points")
def linear_targets(c, ev):
    from hvd import DpN
    from hvd.reference_set import ReferenceSet

    f, _, _, cb = build(c)
    T, X0, nv = np.array(c["T"]), np.array(c["X"]), c["nv"]
    eta = np.array(c["eta"][0])
    ref = ReferenceSet(T.copy(), eta={0: eta.copy()})
    o = DpN(dim=nv, n_obj=nv, func=cb["func"], jac=cb["jac"], hessian=f.hess, ref=ref, xl=-1e3, xu=1e3, type=c["type"],
            x0=X0.copy(), N=len(X0), verbose=False, max_iters=c["iters"], metrics=metrics())
    X, Y, stop = o.run()
    finish_run(o, c, c["iters"], f, (X, Y, stop))
    targets = T + 0.08 * eta
    ev.nontrivial(len(X0) > 1)
    if c["type"] == "igd":
        same_points(o.history_Y[0], targets, 1e-7, "objectives after the first iteration: every target is taken by one point")
        same_points(Y, o.ref.reference_set, 1.0, "targets and points in the end")
    else:
        D = np.linalg.norm(np.array(o.history_Y[0])[:, None] - targets[None], axis=-1)
        require(D.min(1).max() < 1e-7, "a point did not reach its nearest target")


@st.composite
def reach_cases(draw):
    """targets of which the box cuts off some; linear objectives reach the others exactly"""
    c = draw(linear_cases())
    n = len(c["X"])
    if n == 1:
        c["X"], n = c["X"] + [[v / 2 + 0.1 for v in c["X"][0]]], 2
    c["ref"] = [draw(gen.mat(gen.grid(-3.0, 1.0, 400), n + draw(st.integers(0, 2)), c["nv"]))]
    c["type"] = draw(st.sampled_from(["igd", "igd", "gd", "deltap"]))
    return dict(c, box=draw(st.sampled_from([1.0, 1.5, 3.0, 50.0])), iters=draw(st.integers(3, 7)), pre=False, dual=None)


@sub("C15", "reached_targets", reach_cases(), 250, 3000,
     "linear objectives, targets within and outside what the box allows, several iterations: reached targets move on, others stay; "
     "non-trivial: an iteration with a reference step of at least two points")
def dpn_reached(c, ev):
    dpn_steps(c, ev)


@st.composite
def dpn_runs(draw):
    c = draw(dpn_cases(nmax=4))
    c["iters"] = draw(st.integers(0, 6))
    c["scale"] = draw(st.sampled_from([1.0, 1.0, 3.0]))
    c["box"] = 1.0
    return c


@sub("C15", "runs", dpn_runs(), 200, 2500,
     "whole runs, also from starting points outside the box, twice; non-trivial: at least two iterations of several points")
def dpn_run(c, ev):
    from hvd import DpN

    f, h, g, cb = build(c)
    X0 = np.array(c["X"]) * c["scale"]
    xl, xu = -np.ones(c["nv"]), np.ones(c["nv"])
    cons = {{"h_hess": "h_hessian", "g_hess": "g_hessian"}.get(k, k): v for k, v in cb.items() if k not in ("func", "jac")}
    _, model = reference_set(c)
    if not model.plan(np.array([f.f(x) for x in np.clip(X0, xl, xu)])):
        return ev.label("no matching")
    out = []
    for _ in range(2):
        ref, _ = reference_set(c)
        o = DpN(dim=c["nv"], n_obj=c["m"], func=cb["func"], jac=cb["jac"], hessian=f.hess, ref=ref, xl=-1.0, xu=xu.copy(),
                type=c["type"], x0=X0.copy(), N=len(X0), verbose=False, preconditioning=c["pre"], max_iters=c["iters"],
                metrics=metrics(), **cons)
        equal(o.state.primal, np.clip(X0, xl, xu), "starting points moved into the box")
        try:
            pair = o.run()
        except AssertionError:  # components matched anew to a group larger than the component
            if len(c["ref"]) == 1:
                raise
            return ev.label("component smaller than its group")
        finish_run(o, c, c["iters"], f, pair)
        for X in o.history_X:
            require(np.all(X >= xl - 1e-9) and np.all(X <= xu + 1e-9), f"left the box: {X.tolist()}")
        out.append(pair)
    equal(out[0][0], out[1][0], "a second run from the same start")
    ev.nontrivial(c["iters"] > 1 and len(X0) > 1)


@sub("C15", "drawn_start", drawn_starts(), 150, 1500,
     "no starting points given; non-trivial: more than one point")
def dpn_drawn_start(c, ev):
    from hvd import DpN
    from hvd.reference_set import ReferenceSet

    f, h, g, cb = build(c)
    cons = {{"h_hess": "h_hessian", "g_hess": "g_hessian"}.get(k, k): v for k, v in cb.items() if k not in ("func", "jac")}
    ref = ReferenceSet(np.random.default_rng(1).random((80, c["m"])), eta={0: -np.ones(c["m"])})
    start_without_points(
        lambda n, lo, hi: DpN(dim=c["nv"], n_obj=c["m"], func=cb["func"], jac=cb["jac"], hessian=f.hess, ref=ref, xl=lo, xu=hi,
                              N=n, verbose=False, **cons), c, f, cb, Lagrange(c, f, h, g), 0.0, ev)
