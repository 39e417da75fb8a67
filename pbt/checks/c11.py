"""C11: population states over histories; C12: feasibility and first-order optimality."""
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import arr, close, equal, require, scratch, sub
from pbt.maps import Quadratic, quadratic


class Problem:
    """Callbacks with batch variants (as bound methods), a subset of them, or plain functions."""

    def __init__(self, f, h, g, style):
        self.f, self.hq, self.gq, self.style = f, h, g, style

    def objective(self, x):
        return self.f.f(x)

    def objective_jac(self, x):
        return self.f.jac(x)

    def eq(self, x):
        v = self.hq.f(x)
        return float(v[0]) if self.style == "scalar" and len(v) == 1 else v

    def eq_jac(self, x):
        v = self.hq.jac(x)
        return v[0] if self.style == "scalar" and len(v) == 1 else v

    def eq_hess(self, x):
        return self.hq.hess(x)

    def ieq(self, x):
        v = self.gq.f(x)
        return float(v[0]) if self.style == "scalar" and len(v) == 1 else v

    def ieq_jac(self, x):
        return self.gq.jac(x)

    def ieq_hess(self, x):
        return self.gq.hess(x)

    def callbacks(self):
        names = dict(func="objective", jac="objective_jac", h="eq", h_jac="eq_jac", h_hess="eq_hess", g="ieq",
                     g_jac="ieq_jac", g_hess="ieq_hess")
        out = {}
        for k, n in names.items():
            if k[0] == "h" and self.hq is None or k[0] == "g" and self.gq is None:
                continue
            m = getattr(self, n)
            out[k] = (lambda m: lambda x: m(x))(m) if self.style == "plain" else m
        return out


def _batched(name):
    def method(self, X):
        X = np.asarray(X)
        assert X.ndim == 2
        return np.stack([np.asarray(getattr(self, name)(x)) for x in X])

    return method


class BatchProblem(Problem):
    pass


for _n in ("objective", "objective_jac", "eq", "eq_jac", "eq_hess", "ieq", "ieq_jac", "ieq_hess"):
    setattr(BatchProblem, _n + "_batch", _batched(_n))


@st.composite
def states(draw, nmax=6):
    nv, m = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    ne, ni = draw(st.integers(0, 2)), draw(st.integers(0, 3))
    return dict(f=draw(quadratic(m, nv)), h=draw(quadratic(ne, nv)) if ne else None,
                g=draw(quadratic(ni, nv)) if ni else None, nv=nv,
                style=draw(st.sampled_from(["batch", "bound", "plain", "scalar"])), hess=draw(st.booleans()),
                X=draw(population(nv + ne + ni, draw(st.integers(1, nmax)))))


@st.composite
def population(draw, dim, n):
    return draw(gen.mat(gen.grid(-1.5, 1.5, 600), n, dim))


def build(c):
    from hvd.base import State

    f = Quadratic(c["f"])
    h = Quadratic(c["h"]) if c["h"] else None
    g = Quadratic(c["g"]) if c["g"] else None
    P = (BatchProblem if c["style"] == "batch" else Problem)(f, h, g, c["style"])
    cb = P.callbacks()
    if not c["hess"]:
        cb = {k: v for k, v in cb.items() if not k.endswith("_hess")}
    ne, ni = (h.n_obj if h else 0), (g.n_obj if g else 0)
    return State(c["nv"], ne, ni, **cb), f, h, g, ne, ni


class Expect:
    """what a state of the population X must show"""

    def __init__(self, c, f, h, g, ne, ni):
        self.c, self.f, self.h, self.g, self.ne, self.ni = c, f, h, g, ne, ni

    def row(self, x):
        p = x[: self.c["nv"]]
        n = len(p)
        H = self.h.f(p) if self.h else np.zeros(0)
        G = self.g.f(p) if self.g else np.zeros(0)
        dH = self.h.jac(p) if self.h else np.zeros((0, n))
        dG = self.g.jac(p) if self.g else np.zeros((0, n))
        ddH = self.h.hess(p) if self.h else np.zeros((0, n, n))
        ddG = self.g.hess(p) if self.g else np.zeros((0, n, n))
        hess = np.concatenate((ddH, ddG)) if self.c["hess"] else np.zeros((self.ne + self.ni, n, n))
        return dict(X=x, Y=self.f.f(p), J=self.f.jac(p), cstr_value=np.r_[H, G],
                    active_indices=np.r_[np.ones(self.ne, bool), G >= -1e-4],
                    cstr_grad=np.concatenate((dH, dG)), cstr_hess=hess)

    def check(self, s, X, what, have_jac=True, have_hess=True):
        rows = [self.row(x) for x in X]
        N = len(X)
        require(s.N == N, f"{what}: size {s.N}, expected {N}")
        for name in rows[0] if rows else ():
            if name == "J" and not have_jac:
                require(s.J is None, f"{what}: Jacobians were not asked for but are there")
                continue
            if name == "cstr_hess" and not have_hess:
                require(s.cstr_hess is None, f"{what}: constraint Hessians were not asked for but are there")
                continue
            want = np.array([r[name] for r in rows])
            got = arr(getattr(s, name), want.shape, f"{what}: {name}")
            if name == "active_indices":
                v = np.array([r["cstr_value"] for r in rows])
                sure = np.abs(v + 1e-4) > 1e-9
                require(np.array_equal(got.astype(bool)[sure | (np.arange(v.shape[1]) < self.ne)],
                                       want[sure | (np.arange(v.shape[1]) < self.ne)]), f"{what}: active constraints")
            else:
                close(got, want, 1e-10, f"{what}: {name}")
        X = np.array(X)
        equal(s.primal, X[:, : self.c["nv"]], f"{what}: primal part")
        equal(s.dual, X[:, self.c["nv"]:], f"{what}: dual part")
        close(s.H, np.array([r["cstr_value"][: self.ne] for r in rows]), 1e-10, f"{what}: equality values")
        close(s.G, np.array([r["cstr_value"][self.ne:] for r in rows]), 1e-10, f"{what}: inequality values")


@st.composite
def histories(draw):
    c = draw(states())
    dim, n = len(c["X"][0]), len(c["X"])
    ops, full = [], True
    for _ in range(draw(st.integers(0, 8))):
        k = draw(st.integers(0, 9))
        if k == 0:
            n = draw(st.integers(1, 6))
            ops.append(["update", draw(population(dim, n))])
            full = True
        elif k == 1 and full:
            ops.append(["update_no_gradient", draw(population(dim, n))])
            full = False
        elif k == 2:
            ops.append(["update_no_hessian", draw(population(dim, n))])
            full = False
        elif k <= 5 and full:
            ops.append(["update_one", draw(gen.vec(gen.grid(-1.5, 1.5, 600), dim)), draw(st.integers(0, n - 1))])
        elif k == 6:
            m = draw(st.lists(st.booleans(), min_size=n, max_size=n).filter(any))
            ops.append(["mask", m, draw(st.booleans())])
            if ops[-1][2]:
                n = sum(m)
        elif k == 7:
            ix = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n))
            ops.append(["index", ix, draw(st.booleans())])
            if ops[-1][2]:
                n = len(ix)
        elif k == 8 and draw(st.booleans()):
            a, b, step = draw(st.integers(0, n - 1)), draw(st.integers(1, n)), draw(st.sampled_from([1, 1, 2, -1]))
            a, b = min(a, b - 1), max(a + 1, b)
            keep = draw(st.booleans())
            ops.append(["slice", [a, b, step], keep])
            if keep:
                n = len(range(a, b, abs(step)))
        elif k == 8:
            ops.append(["evaluate", draw(gen.vec(gen.grid(-1.5, 1.5, 600), c["nv"]))])
        else:
            ops.append(["save"])
    c["ops"] = ops
    if c["g"]:  # inequality values next to the activity threshold, at points of the history
        at = c["X"] + [op[1] for op in ops if op[0] in ("update_one", "evaluate")] + [x for op in ops if op[0] == "update" for x in op[1]]
        for k in range(len(c["g"]["c"])):
            if draw(st.booleans()):
                x = np.array(draw(st.sampled_from(at))[: c["nv"]])
                c["g"]["c"][k] += draw(st.sampled_from([0.0, 1e-5, -1e-5, -5e-5, -9e-5, -1.1e-4, -1e-3])) - float(Quadratic(c["g"]).f(x)[k])
    return c


RULE = ("histories of full and partial updates, single-point updates, slices, evaluations and saves with four kinds of "
        "callbacks; non-trivial: at least two points, a constraint, and a slice or a single-point update")


def counters(s, c, exp):
    return s.n_jac_evals, s.n_cstr_jac_evals, s.n_cstr_hess_evals


@sub("C11", "histories", histories(), 700, 9000, RULE)
def histories_check(c, ev):
    from hvd.base import State

    s, f, h, g, ne, ni = build(c)
    exp = Expect(c, f, h, g, ne, ni)
    X = [np.array(x) for x in c["X"]]
    src = np.array(X)
    s.update(src)
    src[:] = 99.0
    cg = int(h is not None or g is not None)
    ch = int(cg and c["hess"])
    jac, hess = True, True
    want = [len(X), cg * len(X), ch * len(X)]
    exp.check(s, X, "after the first update")
    ev.label(c["style"], f"eq={ne} ieq={ni}")
    for n, op in enumerate(c["ops"]):
        what = f"step {n} ({op[0]})"
        if op[0].startswith("update") and op[0] != "update_one":
            X = [np.array(x) for x in op[1]]
            jac, hess = op[0] != "update_no_gradient", op[0] != "update_no_hessian"
            s.update(np.array(X), compute_gradient=jac, compute_hessian=hess)
            want[0] += jac * len(X)
            want[1] += cg * len(X)
            want[2] += ch * hess * len(X)
        elif op[0] == "update_one":
            if not (jac and hess):
                continue
            x, k = np.array(op[1]), op[2]
            X[k] = x.copy()
            s.update_one(x, k)
            x[:] = 99.0
            want[0] += 1
            want[1] += cg
            want[2] += ch
            ev.nontrivial(len(X) > 1 and cg)
        elif op[0] in ("mask", "index", "slice"):
            if op[0] == "slice":
                a, b, k = op[1]
                sl = slice(a, b, k) if k > 0 else slice(b - 1, a - 1 if a else None, k)
                t, idx = s[sl], np.arange(len(X))[sl]
            else:
                idx = np.array(op[1])
                t = s[idx]
            Z = [X[i].copy() for i in (np.nonzero(idx)[0] if op[0] == "mask" else idx)]
            exp.check(t, Z, what + " slice", jac, hess)
            require(list(counters(t, c, exp)) == want, f"{what}: the slice counts {counters(t, c, exp)}, expected {want}")
            ev.nontrivial(len(X) > 1 and cg)
            if op[2]:
                s, X = t, Z
            else:  # the slice is independent of its source
                if jac and hess:
                    t.update_one(Z[0] + 0.5, 0)
                    s.update_one(X[-1] - 0.5, len(X) - 1)
                    want = [want[0] + 1, want[1] + cg, want[2] + ch]
                    X[-1] = X[-1] - 0.5
                    exp.check(t, [Z[0] + 0.5] + Z[1:], what + " slice after a change of one point")
                    exp.check(s, X, what + " after a change of one point of the slice")
                t.update(np.array(Z) + 0.25)
                exp.check(t, [z + 0.25 for z in Z], what + " slice after an update")
                for a in ("X", "Y", "cstr_value", "cstr_grad"):
                    getattr(t, a)[:] = -7.0
        elif op[0] == "evaluate":
            x = np.array(op[1])
            r = exp.row(np.r_[x, np.zeros(ne + ni)])
            close(s.eval_jac(x), r["J"], 1e-10, f"{what}: Jacobian at one point")
            v, a = s.eval_cstr(x)
            close(v, r["cstr_value"], 1e-10, f"{what}: constraints at one point")
            sure = np.abs(r["cstr_value"] + 1e-4) > 1e-9
            sure[:ne] = True
            equal(np.asarray(a, dtype=bool)[sure], r["active_indices"][sure], f"{what}: active constraints at one point")
            close(s.eval_cstr_jac(x), r["cstr_grad"], 1e-10, f"{what}: constraint Jacobian at one point")
            close(s.eval_cstr_hess(x), r["cstr_hess"], 1e-10, f"{what}: constraint Hessian at one point")
            B = np.array([x, x + 0.5, x - 0.5])
            close(s.eval_jac(B), np.array([f.jac(b) for b in B]), 1e-10, f"{what}: Jacobians of a batch")
            close(s.eval_cstr(B)[0], np.array([exp.row(np.r_[b, np.zeros(ne + ni)])["cstr_value"] for b in B]), 1e-10,
                  f"{what}: constraints of a batch")
            want[0] += 4
            want[1] += cg
            want[2] += ch
        else:
            with scratch() as d:
                path = os.path.join(d, "state")
                s.save(path)
                t = State.load(path + ".pkl")
            exp.check(t, X, what + " loaded", jac, hess)
            require(list(counters(t, c, exp)) == want, f"{what}: the loaded state counts {counters(t, c, exp)}")
            require(t.n_var == c["nv"] and t.n_eq == ne and t.n_ieq == ni, f"{what}: dimensions changed")
        exp.check(s, X, what, jac, hess)
        require(list(counters(s, c, exp)) == want, f"{what}: counters {counters(s, c, exp)}, expected {want}")


@st.composite
def integer_states(draw):
    c = draw(states())
    c["X"] = draw(gen.mat(st.integers(-2, 2), len(c["X"]), len(c["X"][0])))
    return dict(c, x=draw(gen.vec(gen.grid(-1.5, 1.5, 600), len(c["X"][0]))), k=draw(st.integers(0, len(c["X"]) - 1)),
                form=draw(st.sampled_from(["list", "array"])))


@sub("C11", "integers", integer_states(), 150, 2000, "populations given as integers, in a list or an array, then a point replaced; non-trivial: a "
     "replacement that is not whole", group="evaluation")
def integers(c, ev):
    s, f, h, g, ne, ni = build(c)
    exp = Expect(c, f, h, g, ne, ni)
    s.update(c["X"] if c["form"] == "list" else np.array(c["X"]))
    X = [np.array(x, dtype=float) for x in c["X"]]
    exp.check(s, X, "integers")
    X[c["k"]] = np.array(c["x"])
    s.update_one(np.array(c["x"]), c["k"])
    exp.check(s, X, "integers after a replacement")
    ev.nontrivial(np.any(np.array(c["x"]) % 1))


@st.composite
def evaluations(draw):
    nv = draw(st.integers(1, 4))
    return dict(kind=draw(st.sampled_from(["vector", "scalar", "matrix", "none"])), nv=nv,
                style=draw(st.sampled_from(["batch", "bound", "plain"])), q=draw(quadratic(2, nv)),
                X=draw(gen.mat(gen.grid(-1.5, 1.5, 600), draw(st.integers(1, 5)), nv)), single=draw(st.booleans()))


@sub("C11", "evaluation", evaluations(), 400, 5000,
     "one callback at one point or a population, with the shape given; non-trivial: a population of several points")
def evaluation(c, ev):
    from hvd.base import State

    q = Quadratic(c["q"])
    calls = []

    class Owner:
        def fun(self, x):
            calls.append("one")
            v = q.f(x)
            return v if c["kind"] == "vector" else float(v[0]) if c["kind"] == "scalar" else q.jac(x)

    if c["style"] == "batch":
        def fun_batch(self, X):
            out = np.array([self.fun(x) for x in X])
            calls.append("batch")
            return out

        Owner.fun_batch = fun_batch
    o = Owner()
    fn = (lambda x: o.fun(x)) if c["style"] == "plain" else o.fun
    one = {"vector": (2,), "scalar": (1,), "matrix": (2, c["nv"]), "none": (3,)}[c["kind"]]
    ref = {"vector": q.f, "scalar": lambda x: q.f(x)[:1], "matrix": q.jac, "none": lambda x: np.zeros(3)}[c["kind"]]
    x = np.array(c["X"][0]) if c["single"] else np.array(c["X"])
    ev.nontrivial(not c["single"] and len(c["X"]) > 1)
    ev.label(c["kind"], c["style"])
    got = State.evaluate(None if c["kind"] == "none" else fn, x, one)
    want = ref(x) if c["single"] else np.array([ref(r) for r in x])
    close(got, np.asarray(want).reshape(want.shape), 1e-12, "value")
    if c["style"] == "batch" and c["kind"] != "none":
        require(("batch" in calls) == (not c["single"]), f"calls made: {calls}")


# ------------------------------------------------------------------------------------------ C12
@st.composite
def feasibility(draw):
    ne, ni = draw(st.integers(0, 3)), draw(st.integers(0, 4))
    n = draw(st.integers(1, 6))
    e = st.sampled_from([0.0, 5e-5, -5e-5, 2e-4, -2e-4, 0.5, -0.5, 1e-9, -3.0, -0.9, 9e-5, -9e-5, 1.5e-4, -1.5e-4])
    h = st.sampled_from([0.0, 5e-5, -5e-5, 0.0, 0.0, 2e-4, -2e-4, 0.5, -0.5, 9e-5, -9e-5, 1.5e-4])
    return dict(H=draw(gen.mat(h, n, ne)), G=draw(gen.mat(e, n, ni)), style=draw(st.sampled_from(["plain", "scalar"])))


@sub("C12", "feasible", feasibility(), 700, 8000,
     "constraint values around the 1e-4 tolerance; non-trivial: both feasible and infeasible points")
def feasible(c, ev):
    from hvd.base import State

    H, G = np.array(c["H"]).reshape(len(c["H"]), -1), np.array(c["G"]).reshape(len(c["G"]), -1)
    n, ne, ni = len(H), H.shape[1], G.shape[1]

    def pick(V):
        def fun(x):
            v = V[int(round(x[0]))]
            return float(v[0]) if c["style"] == "scalar" and len(v) == 1 else v
        return fun

    s = State(1, ne, ni, func=lambda x: x, jac=lambda x: np.eye(1), h=pick(H) if ne else None, g=pick(G) if ni else None)
    s.update(np.arange(n, dtype=float).reshape(-1, 1))
    want = np.all(np.abs(H) <= 1e-4, axis=1) & np.all(G < -1e-4, axis=1)
    ev.nontrivial(want.any() and not want.all())
    equal(arr(s.is_feasible(), (n,), "feasibility", dtype=bool), want, "feasibility")
    act = arr(s.active_indices, (n, ne + ni), "active constraints", dtype=bool)
    equal(act[:, :ne], np.ones((n, ne), bool), "equality constraints are always active")
    equal(act[:, ne:], G >= -1e-4, "active inequality constraints")


@st.composite
def kkt(draw):
    nv, m = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    ne, ni = draw(st.integers(0, 2)), draw(st.integers(0, 3))
    e = gen.grid(-2.0, 2.0, 40)
    vals = [0.0, -5e-5, -0.5, -2.0, 5e-5, 0.3, -2e-4, -0.02, 0.02]
    point = st.fixed_dictionaries(dict(
        J=gen.mat(e, m, nv), dH=gen.mat(e, ne, nv), dG=gen.mat(e, ni, nv),
        H=st.lists(st.sampled_from([0.0, 0.0, 0.0, 5e-5, -5e-5, 2e-4, 0.3, 0.02]), min_size=ne, max_size=ne),
        G=st.lists(st.sampled_from(vals), min_size=ni, max_size=ni), solve=st.booleans(),
        lam=gen.vec(gen.grid(0.05, 1.0, 20), m), nu=gen.vec(gen.grid(-2.0, 2.0, 20), ne), mu=gen.vec(gen.grid(0.0, 2.0, 20), ni)))
    tol = st.sampled_from([1e-4, 1e-4, 1e-2, 0.3, 0.1])
    return dict(nv=nv, points=draw(st.lists(point, min_size=1, max_size=3)), tol=draw(tol), feas=draw(tol), act=draw(tol))


def stationarity(nv, J, dH, dG):
    """the least infinity norm of the stationarity residual, by an independent formulation"""
    from scipy.optimize import linprog

    # variables: lam >= 0 (sum 1), nu+, nu- >= 0, mu >= 0, t
    A = np.hstack([J.T, dH.T, -dH.T, dG.T])
    k = A.shape[1]
    one = np.ones((nv, 1))
    res = linprog(np.r_[np.zeros(k), 1.0], A_ub=np.vstack([np.hstack([A, -one]), np.hstack([-A, -one])]),
                  b_ub=np.zeros(2 * nv), A_eq=np.r_[np.ones(len(J)), np.zeros(k - len(J)), 0.0][None], b_eq=[1.0],
                  bounds=[(0, None)] * (k + 1), method="highs-ds")
    return res.x[-1] if res.success else None


@sub("C12", "kkt", kkt(), 900, 10000,
     "random gradients, half of them built to be stationary for chosen multipliers, one to three points, tolerances; non-trivial: "
     "a feasible point with an active constraint or several objectives")
def kkt_check(c, ev):
    from hvd.base import State

    nv, pts, want = c["nv"], [], []
    for p in c["points"]:
        J, dH, dG = (np.array(p[k], dtype=float).reshape(-1, nv) for k in ("J", "dH", "dG"))
        H, G, mu = np.array(p["H"]), np.array(p["G"]), np.array(p["mu"])
        act = G >= -c["act"]
        if p["solve"]:  # make the last objective's gradient complete a stationary combination
            lam = np.array(p["lam"])
            r = lam[:-1] @ J[:-1] + np.array(p["nu"]) @ dH + np.where(act, mu, 0.0) @ dG
            J[-1] = -r / lam[-1]
        pts.append((J, dH, dG, H, G))
        feas = bool(np.all(np.abs(H) <= c["feas"]) and np.all(G <= c["feas"]))
        t = stationarity(nv, J, dH, dG[act])
        if t is None or abs(t - c["tol"]) < 1e-6 * max(1.0, t):
            return ev.label("undecided")
        want.append(feas and t <= c["tol"])
        if p["solve"]:
            require(t < 1e-7, "harness: the construction is not stationary")
        ev.nontrivial(feas and (len(J) > 1 or np.any(act) or len(H)))
        ev.label("stationary" if t <= c["tol"] else "not stationary", "feasible" if feas else "infeasible")
    ne, ni = len(pts[0][3]), len(pts[0][4])
    at = lambda k: lambda x: pts[int(round(x[0]))][k]  # noqa: E731
    s = State(nv, ne, ni, func=lambda x: np.zeros(len(pts[0][0])), jac=at(0), h=at(3) if ne else None, h_jac=at(1) if ne else None,
              g=at(4) if ni else None, g_jac=at(2) if ni else None)
    X = np.zeros((len(pts), nv + ne + ni))
    X[:, 0] = np.arange(len(pts))
    s.update(X)
    kw = dict(stationarity_tol=c["tol"], feasibility_tol=c["feas"], active_tol=c["act"])
    got = arr(s.check_KKT(**{k: v for k, v in kw.items() if v != 1e-4}), (len(pts),), "verdict", dtype=bool)
    equal(got, np.array(want), "first-order optimality")
