"""C16: the MMD Newton method, iteration by iteration, against reference steps."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref_mmd
from pbt.checks.c07 import THETAS, kink
from pbt.checks.c14 import (Lagrange, Undecided, assign, build, common_checks, drawn_starts, finish_run, kkt_residual, metrics,
                            precondition, problems, reference_set, same_points, set_multipliers, solve_kkt,
                            start_without_points)
from pbt.core import close, equal, require, sub


@st.composite
def cases(draw, kernels=ref_mmd.KERNELS, **kw):
    c = draw(problems(**kw))
    m, n = c["m"], len(c["X"])
    comps = draw(st.sampled_from([1, 1, 1, 2]))
    c["matching"] = draw(st.integers(0, 3)) > 0
    extra = draw(st.integers(0 if c["matching"] else 1 - n, 4))
    c["ref"] = [[[a + 1.5 * k for a in p] for p in draw(gen.mat(gen.grid(-3.0, 1.0, 4000), n + extra, m))]
                for k in range(comps)]
    c["eta"] = draw(gen.mat(gen.grid(-1.0, -0.1, 9), comps, m))
    c["box"] = draw(st.sampled_from([1.0, 5.0]))
    c["kernel"] = draw(st.sampled_from(kernels))
    c["theta"] = draw(st.sampled_from([t for t in THETAS if t <= 2.0]))
    return c


def optimizer(c, f, cb, X0, ref, **kw):
    from hvd import mmd
    from hvd.mmd_newton import MMDNewton

    cons = {k: v for k, v in cb.items() if k not in ("func", "jac", "h_hess", "g_hess")}
    b = c["box"] * np.ones(c["nv"])
    return MMDNewton(n_var=c["nv"], n_obj=c["m"], func=cb["func"], jac=cb["jac"], hessian=f.hess, ref=ref, xl=-b,
                     xu=c["box"] if c["nv"] % 2 else b, N=len(X0), X0=X0, verbose=False, preconditioning=c["pre"],
                     matching=c["matching"], kernel=getattr(mmd, c["kernel"]), theta=c["theta"], **cons, **kw)


class MmdModel:
    def __init__(self, c, f, L, model):
        self.c, self.f, self.L, self.model = c, f, L, model
        self.points = model.points.copy()  # without matching: the whole reference set, shifted as one

    def targets(self, Y):
        return assign(self.model, Y) if self.c["matching"] else self.points

    def value(self, Y):
        k, th = self.c["kernel"], self.c["theta"]
        if self.c["matching"]:
            return ref_mmd.matched_value(k, th, 0.25, Y, self.targets(Y))
        return ref_mmd.value(k, th, Y, self.points)

    def derivs(self, P):
        Y = np.array([self.f.f(x) for x in P])
        T, N = self.targets(Y), len(P)
        if kink(self.c, Y, T):
            raise Undecided("a kink of the kernel")
        pairs = [(i, t, 1 / N) for i, t in enumerate(T)] if self.c["matching"] else [
            (i, r, 1 / (N * len(T))) for i in range(N) for r in T]
        G, H = ref_mmd.y_derivatives(self.c["kernel"], self.c["theta"], Y, 0.25 if self.c["matching"] else 1.0, pairs)
        return ref_mmd.chain(self.f, P, G, H)

    def residual(self, Z):
        return kkt_residual(self.L, Z, self.derivs(Z[:, : self.L.nv])[0])[0]

    def direction(self, Z):
        g, H = self.derivs(Z[:, : self.L.nv])
        R, acts = kkt_residual(self.L, Z, g)
        if self.c["pre"]:
            H = precondition(H)
        return solve_kkt(self.L, Z, R, acts, H, curvature=False), R

    def expected(self, Z):
        """next primal-dual population and the step length taken"""
        step, R = self.direction(Z)
        med = abs(np.median(step[:, : self.L.nv]))
        if 5e-9 < med < 2e-8:
            raise Undecided("median of the step at the tolerance of the line search")
        if med <= 5e-9:
            return Z + step, step
        n0 = np.linalg.norm(R)
        if n0 < 3e-8:  # the line search accepts anything there
            raise Undecided("already stationary")
        s = 1.0
        for _ in range(6):
            v = np.linalg.norm(self.residual(Z + s * step))
            bound = (1 - 1e-6 * s) * n0
            if abs(v - bound) < 1e-8 * n0:
                raise Undecided("merit at the acceptance bound")
            if v <= bound:
                break
            s *= 0.5
        return Z + s * step, step

    def shift(self, c, which):
        if self.c["matching"]:
            self.model.shift(c, which)
        elif len(which):
            self.model.shift(c)
            self.points = self.model.points.copy()


def steps(c, ev):
    f, h, g, cb = build(c)
    X0 = np.array(c["X"])
    src, nv = X0.copy(), c["nv"]
    ref, model = reference_set(c)
    L = Lagrange(c, f, h, g)
    if c["matching"] and not model.plan(np.array([f.f(x) for x in X0])):
        return ev.label("no matching")
    o = optimizer(c, f, cb, src, ref)
    mm = MmdModel(c, f, L, model)
    close(o.state.primal, X0, 0.0, "starting population")
    close(o.state.dual, np.zeros((len(X0), L.nd)), 0.0, "starting multipliers")
    set_multipliers(o, c)
    ev.label(c["kernel"], "matched" if c["matching"] else "unmatched", "constrained" if L.nd else "unconstrained")
    prev, medoids = None, 0
    for t in range(c["iters"]):
        Z = o.state.X.copy()
        Y = np.array([f.f(x) for x in Z[:, :nv]])
        what = f"iteration {t}"
        try:
            if c["matching"]:
                plan = model.plan(Y)
                if not plan:
                    raise Undecided("components matched anew")
                if t == 0:
                    probe, _ = reference_set(c)
                    probe.match(Y)  # which medoids: the code's choice, verified
                    model.matched(Y, plan, probe.reference_set, "first match")
                T = assign(model, Y)
                model.targets = T.copy()
                for k, j in model.pairs:
                    model.medoids[k] = T[list(model.groups[j])].copy()
            value = mm.value(Y)
            if t == 0:
                which = list(range(len(Y)))
            else:
                d = np.linalg.norm(Y[:, None] - mm.targets(Y)[None], axis=-1).min(1)
                n = np.linalg.norm(prev[:, :nv], axis=1)
                if np.any(np.abs(d - 1e-8) < 9e-9) or np.any(np.abs(n - 1e-8) < 9e-9):
                    raise Undecided("at the shift tolerance")
                which = [i for i in range(len(Y)) if d[i] <= 1e-8 and n[i] <= 1e-8]
            mm.shift(0.08, which)
            want, prev = mm.expected(Z)
        except Undecided as e:
            o.newton_iteration()
            o.log()
            require(o.iter_count == t + 1, f"iteration counter {o.iter_count} after {t + 1} iterations")
            return ev.label(f"no reference step: {e}")
        o.newton_iteration()
        o.log()
        close(o.curr_indicator_value, value, 1e-9, f"{what}: indicator value", shape=False)
        close(o.history_indicator_value[-1], value, 1e-9, f"{what}: logged indicator value", shape=False)
        same_points(o.ref.reference_set, mm.points if not c["matching"] else model.targets, 1e-8, f"{what}: targets")
        close(o.state.X, want, 1e-5, f"{what}: primal-dual population", scale=np.abs(want - Z).max())
        common_checks(o, f, c, X0, ev)
        require(o.iter_count == t + 1, f"iteration counter {o.iter_count} after {t + 1} iterations")
        if c["matching"]:
            require(sum(map(len, o.history_medoids.values())) == medoids + len(which),
                    f"{what}: {sum(map(len, o.history_medoids.values())) - medoids} shifted targets logged, {len(which)} shifted")
            medoids += len(which)
            if which:
                close([o.history_medoids[k][-1] for k in which], model.targets[which], 1e-9, f"{what}: logged targets")
        ev.nontrivial(len(Z) > 1)
        if t:
            ev.label("a later iteration")
    equal(src, X0, "the caller's starting points")


RULE = ("populations and clustered reference sets, with and without matching, every iteration of short runs; "
        "non-trivial: an iteration with a reference step of at least two points")
for _k in ref_mmd.KERNELS:
    sub("C16", f"steps_{_k}", cases(kernels=(_k,), nmax=4), 120, 2500, RULE)(steps)
sub("C16", "steps_constrained", cases(nmax=3, constrained=True), 120, 2500, "constrained problems; as above")(steps)


@st.composite
def linear_cases(draw):
    nv, n = draw(st.integers(2, 3)), draw(st.integers(1, 3))
    A = [[draw(gen.grid(-0.3, 0.3, 60)) + (i == j) for j in range(nv)] for i in range(nv)]
    return dict(m=nv, nv=nv, f=dict(c=draw(gen.vec(gen.grid(-1.0, 1.0, 20), nv)), A=A, Q=None), h=None, g=None,
                T=draw(gen.mat(gen.grid(-1.0, 1.0, 2000), 1, nv)), X=draw(gen.mat(gen.grid(-0.2, 0.2, 200), 1, nv)),
                style=draw(st.sampled_from(["batch", "bound", "plain"])), iters=draw(st.integers(8, 14)), pre=False,
                eta=[draw(gen.vec(gen.grid(-1.0, -0.2, 8), nv))], kernel="rbf", theta=draw(st.sampled_from([0.2, 0.5])),
                matching=True, box=50.0, n=n)


@sub("C16", "reached_targets", linear_cases(), 60, 800,
     "one to three points far from each other, linear objectives, starts at or near their targets: Newton reaches the targets, which "
     "then move on by the shift, each on its own; non-trivial: a target was reached")
def reached_targets(c, ev):
    from hvd.reference_set import ReferenceSet

    f, _, _, cb = build(c)
    A, b, n = np.array(c["f"]["A"]), np.array(c["f"]["c"]), c["n"]
    eta = np.array(c["eta"][0])
    T = np.array([c["T"][0]] * n) + 60.0 * np.arange(n)[:, None]  # too far from each other to matter
    off = 0.3 * np.array(c["X"])
    first = T + 0.08 * eta
    X0 = np.array([np.linalg.solve(A, first[i] - b) + off[0] * [1.0, 0.0, 0.4][(i + c["iters"]) % 3] for i in range(n)])
    ref = ReferenceSet(T.copy(), eta={0: eta.copy()})
    o = optimizer(dict(c, box=1e4), f, cb, X0, ref, max_iters=c["iters"])
    prev = None
    for t in range(c["iters"]):
        Y0 = o.state.Y.copy()
        before = np.array(o.ref.reference_set).copy() if t else T
        D = np.linalg.norm(before[:, None] - Y0[None], axis=-1)
        own = D.argmin(0)  # target of every point
        require(sorted(own) == list(range(n)), "harness: points far from their targets")
        o.newton_iteration()
        o.log()
        after = np.array(o.ref.reference_set)
        if not np.all(np.isfinite(after)) or np.abs(o.state.Y - Y0).max() > 10:
            return ev.label("diverged")
        move = np.array([after[np.linalg.norm(after - before[own[i]], axis=1).argmin()] - before[own[i]] for i in range(n)])
        for i in range(n):
            d = D[own[i], i]
            if t == 0:
                close(move[i], 0.08 * eta, 1e-9, "first shift")
            elif prev[i] > 1e-7 or d > 1e-7:
                close(move[i], np.zeros(len(eta)), 1e-12, f"iteration {t}, point {i}: shift of a target that was not reached")
                if n > 1 and np.any((prev < 1e-9) & (D[own, np.arange(n)] < 1e-9)):
                    ev.label("some targets shifted")
            elif prev[i] < 1e-9 and d < 1e-9:
                close(move[i], 0.08 * eta, 1e-9, f"iteration {t}, point {i}: shift of a reached target")
                ev.nontrivial()
        prev = np.linalg.norm(o.step, axis=1)


@st.composite
def run_cases(draw):
    c = draw(cases(nmax=3, convex=True))
    c["iters"] = draw(st.integers(0, 5))
    c["scale"] = draw(st.sampled_from([1.0, 1.0, 3.0]))
    c["box"] = 1.0
    return c


@sub("C16", "runs", run_cases(), 70, 1000,
     "whole runs, also from starting points outside the box, twice; non-trivial: at least two iterations of several points")
def runs(c, ev):
    f, h, g, cb = build(c)
    X0 = np.array(c["X"]) * c["scale"]
    _, model = reference_set(c)
    if c["matching"] and not model.plan(np.array([f.f(x) for x in np.clip(X0, -1, 1)])):
        return ev.label("no matching")
    out = []
    for _ in range(2):
        ref, _ = reference_set(c)
        o = optimizer(c, f, cb, X0.copy(), ref, max_iters=c["iters"], metrics=metrics())
        equal(o.state.primal, np.clip(X0, -1, 1), "starting points moved into the box")
        try:
            pair = o.run()
        except AssertionError:  # components matched anew to a group larger than the component
            if len(c["ref"]) == 1:
                raise
            return ev.label("component smaller than its group")
        finish_run(o, c, c["iters"], f, pair)
        require(len(o.history_indicator_value) == c["iters"], "indicator history")
        out.append(pair)
    equal(out[0][0], out[1][0], "a second run from the same start")
    ev.nontrivial(c["iters"] > 1 and len(X0) > 1)


@sub("C16", "drawn_start", drawn_starts(), 150, 1500,
     "no starting points given; non-trivial: more than one point")
def drawn_start(c, ev):
    from hvd.mmd_newton import MMDNewton
    from hvd.reference_set import ReferenceSet

    f, h, g, cb = build(c)
    cons = {k: v for k, v in cb.items() if k not in ("func", "jac", "h_hess", "g_hess")}
    ref = ReferenceSet(np.random.default_rng(1).random((80, c["m"])), eta={0: -np.ones(c["m"])})
    start_without_points(
        lambda n, lo, hi: MMDNewton(n_var=c["nv"], n_obj=c["m"], func=cb["func"], jac=cb["jac"], hessian=f.hess, ref=ref, xl=lo,
                                    xu=hi, N=n, verbose=False, **cons), c, f, cb, Lagrange(c, f, h, g), 0.0, ev)
