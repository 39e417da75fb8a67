"""C26: caller data stays untouched, equal inputs give equal results, in double precision."""
import copy
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from hvd import mmd as mmd_module
from hvd.base import State
from hvd.delta_p import GenerationalDistance, InvertedGenerationalDistance
from hvd.exact import ExactHypervolume
from hvd.gradient_based import Lara
from hvd.hypervolume import hypervolume
from hvd.hypervolume_derivatives import HypervolumeDerivatives, hypervolume_improvement
from hvd.mmd import MMD, MMDMatching
from hvd.mmd_newton import MMDNewton
from hvd.mmd_newton import Nd_vector_to_matrix as nd2
from hvd.newton import HVN, DpN
from hvd.reference_set import ReferenceSet
from hvd.rsg import RSG, ComponentDetection, interpolate_tst
from hvd.utils import (
    Nd_vector_to_matrix,
    compute_chim,
    get_non_dominated,
    handle_box_constraint,
    is_dominate,
    matrix_to_Nd_vector,
    non_domin_sort,
    precondition_hessian,
    preprocess_reference_set,
    set_bounds,
)
from pbt import env, gen, ref_problems
from pbt.checks import c18
from pbt.core import HarnessError, Violation, arr, equal, require, scratch, sub
from pbt.maps import Quadratic, quadratic


def freeze(v):
    """a value to compare later, bit by bit"""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("o", v.shape, [freeze(i) for i in v.ravel()])
        return ("a", v.shape, str(v.dtype), v.tobytes())
    if isinstance(v, dict):
        return ("d", [(k, freeze(i)) for k, i in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [freeze(i) for i in v])
    if isinstance(v, set):
        return ("s", sorted(v))
    if isinstance(v, (float, int, bool, str, type(None), np.generic)):
        return (type(v).__name__, repr(v))
    if hasattr(v, "__array__"):
        return freeze(np.asarray(v))
    return ("other", type(v).__name__)


def flatten(v):
    """all numbers of a result"""
    if v is None:
        return []
    if isinstance(v, dict):
        return [x for k in sorted(v, key=str) for x in flatten(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for i in v for x in flatten(i)]
    if isinstance(v, (set, str)):
        return [len(v)]
    return np.asarray(v, dtype=float).ravel().tolist()


def same(a, b, what):
    a, b = np.array(flatten(a)), np.array(flatten(b))
    require(a.shape == b.shape, f"{what}: {a.shape} numbers, first {b.shape}")
    # a compiled function may be recompiled for other layouts, so allow the last digits
    ok = (np.abs(a - b) <= 1e-9 * np.maximum(1, np.abs(b))) | (a == b) | ((a != a) & (b != b))
    require(np.all(ok), f"{what}: {a[~ok][:3].tolist()}, first {b[~ok][:3].tolist()}")


class Memo:
    """a callback that returns the same array object whenever it is asked for the same decision"""

    def __init__(self, f):
        self.f, self.store = f, {}

    def __call__(self, x):
        key = np.asarray(x, dtype=float).tobytes()
        if key not in self.store:
            v = np.array(self.f(np.array(x, dtype=float)))
            self.store[key] = (v, v.copy())
        return self.store[key][0]

    def check(self, what):
        for v, old in self.store.values():
            equal(v, old, f"{what}: an array returned by a callback")


class Pool:
    """the caller's data, shared by all calls of a case"""

    def __init__(self, c):
        self.m, self.nv = c["m"], c["nv"]
        q = Quadratic(c["f"])
        if self.m == 2 and self.nv >= 2:
            q.Q = q.Q + np.eye(self.nv)[None]  # mostly convex
        self.q = q
        self.func, self.jac, self.hess = Memo(q.f), Memo(q.jac), Memo(q.hess)
        self.h, self.h_jac, self.h_hess = (Memo(lambda x: np.array([x @ x - 0.5])), Memo(lambda x: 2 * x[None]), Memo(lambda x: 2 * np.eye(len(x))[None]))
        self.g, self.g_jac, self.g_hess = (Memo(lambda x: np.array([x[0] - 0.6, -x[-1] - 0.9])), Memo(lambda x: np.array([np.eye(len(x))[0], -np.eye(len(x))[-1]])),
                                           Memo(lambda x: np.zeros((2, len(x), len(x)))))
        d = self.data = {}
        d["X"] = np.array(c["X"])
        d["Y"] = np.array(c["Y"])
        d["R"] = np.array(c["R"])
        d["Rdict"] = {0: np.array(c["R"]), 1: np.array(c["R"]) + 2.0}
        d["eta"] = {0: -np.ones(self.m) / np.sqrt(self.m), 1: -np.ones(self.m) / np.sqrt(self.m)}
        d["ref"] = np.full(self.m, 5.0)
        d["reflist"] = [5.0] * self.m
        d["Ylist"] = [list(y) for y in c["Y"]]
        d["xl"], d["xu"] = np.full(self.nv, -1.0), np.full(self.nv, 1.0)
        d["xllist"], d["xulist"] = [-1.0] * self.nv, [1.0] * self.nv
        d["J"] = np.array([q.jac(x) for x in d["X"]])
        d["FX"] = np.array([q.f(x) for x in d["X"]])
        d["HX"] = np.array([q.hess(x) for x in d["X"]])
        A = np.array(c["S"])
        d["S"] = (A + A.T) / 2
        d["far"] = 3.0 * d["X"]
        d["active"] = np.ones((len(d["X"]), 1), dtype=bool)
        d["active"][::2] = False
        d["active_all"] = np.c_[np.ones(d["X"].shape, dtype=bool), d["active"]]
        d["Z"] = np.c_[d["X"], np.ones(len(d["X"]))]
        d["Yidx"] = [np.arange(1, len(d["X"]), 2)[::-1].copy(), np.arange(0, len(d["X"]), 2)[::-1].copy()] if len(d["X"]) > 1 else None
        d["int"] = np.round(np.array(c["Y"]) * 3).astype(int)
        d["front"] = np.c_[np.linspace(0, 1, 25), 1 - np.linspace(0, 1, 25) ** 2] + 0.0 * len(d["X"])
        if c["order"] == "F":
            for k, v in d.items():
                if isinstance(v, np.ndarray):
                    d[k] = np.asfortranarray(v)

    def __getattr__(self, k):
        try:
            return self.__dict__["data"][k]
        except KeyError:
            raise AttributeError(k) from None

    def memos(self):
        return [self.func, self.jac, self.hess, self.h, self.h_jac, self.h_hess, self.g, self.g_jac, self.g_hess]


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def hvobj(p, minimization=True):
    return HypervolumeDerivatives(p.nv, p.m, p.ref, p.func, p.jac, p.hess, minimization=minimization)


@op
def hv_value(p):
    return [hypervolume(p.Y, p.ref), hypervolume(p.Ylist, p.reflist), hypervolume(p.Y, np.zeros(p.m) + 5), hvobj(p).compute(X=p.X), hvobj(p).compute(Y=p.Y)]


@op
def hv_max(p):
    o = HypervolumeDerivatives(p.nv, p.m, p.eta[0], p.func, p.jac, p.hess, minimization=False)
    return [o.compute(Y=p.Y), o.compute(X=p.X), o.compute_derivatives(X=p.X), o.compute_derivatives(X=p.X, Y=p.FX, YdX=p.J)]


@op
def hv_derivatives(p):
    o = hvobj(p)
    return [o.compute_derivatives(X=p.X), o.compute_derivatives(X=p.X, Y=p.FX, YdX=p.J), o.hypervolume_dY(p.Y, p.ref)]


@op
def hv_given(p):
    o = HypervolumeDerivatives(p.m, p.m, p.reflist)
    return o.compute_derivatives(X=p.Y)


@op
def hv_improvement(p):
    return hypervolume_improvement(p.Y[0], p.Y[1:], p.ref) if len(p.Y) > 1 else None


@op
def hv_tracked(p):
    h = ExactHypervolume(p.ref).add(p.Y)
    if len(p.Y) > 1:
        h.delete(0)
    return [h.hv, h.hvc]


@op
def sorting(p):
    out = [non_domin_sort(p.Y, only_front_indices=True), non_domin_sort(p.int, only_front_indices=True)]
    fronts = non_domin_sort(p.Ylist)
    return [list(map(sorted, [list(v) for v in o.values()])) for o in out] + [len(fronts)]


@op
def filtering(p):
    return [get_non_dominated(p.Y), get_non_dominated(p.Y, return_index=True), get_non_dominated(p.int, weakly_dominated=False),
            is_dominate(p.Y[0], p.Y[-1]), is_dominate(p.Ylist[0], p.Ylist[-1])]


@op
def gd(p):
    o = GenerationalDistance(p.R, p.func, p.jac, p.hess, p=3)
    return [o.compute(X=p.X), o.compute(Y=p.Y), o.compute_derivatives(X=p.X), o.compute_derivatives(X=p.X, Y=p.FX, Jacobian=p.J)]


@op
def igd(p):
    o = InvertedGenerationalDistance(p.R, p.func, p.jac, p.hess)
    return [o.compute(X=p.X), o.compute(Y=p.Y), o.compute_derivatives(X=p.X), o.compute_derivatives(X=p.X, Y=p.FX, Jacobian=p.J)]


@op
def igd_matching(p):
    o = InvertedGenerationalDistance(p.R, p.func, p.jac, p.hess, matching=True)
    return [o.compute(X=p.X), o.compute_derivatives(X=p.X)]


def mmds(p, kernel, cls, **kw):
    o = cls(p.nv, p.m, ReferenceSet(p.R), p.func, p.jac, p.hess, kernel=getattr(mmd_module, kernel), theta=0.7, **kw)
    return [o.compute(X=p.X), o.compute(Y=p.FX), o.compute_derivatives(X=p.X), o.compute_derivatives(X=p.X, Y=p.FX, jacobian=p.J),
            o.compute_gradient(X=p.X), o.compute_hessian(X=p.X)]


@op
def mmd_plain(p):
    return mmds(p, "rbf", MMD)


@op
def mmd_matched(p):
    return mmds(p, "rational_quadratic", MMDMatching, beta=0.3)


@op
def matching(p):
    r = ReferenceSet(p.R)
    r.match(p.FX)
    a = np.array(r.reference_set)
    r.shift(0.1)
    b = np.array(r.reference_set)
    r.shift(0.2, np.array([0]))
    r.match(p.FX)
    r.set_medoids(p.Y[0], 0)
    return [a, b, np.array(r.reference_set)]


@op
def matching_components(p):
    r = ReferenceSet(p.Rdict, eta=p.eta)
    out = [np.array(r.reference_set)]
    r.shift(0.3)
    out.append(np.array(r.reference_set))
    r.match(p.FX)
    r.shift(0.05)
    r.shift(0.05, [0])
    return out + [np.array(r.reference_set)]


@op
def matching_given(p):
    if p.Yidx is None:
        return None
    r = ReferenceSet(p.Rdict, Y_idx=p.Yidx)
    r.match(p.FX)
    r.shift(0.1, [len(p.X) - 1])
    r.match(p.FX)
    return np.array(r.reference_set)


@op
def shift_unmatched(p):
    r = ReferenceSet(p.R, eta=p.eta)
    r.shift(0.5)
    return np.array(r.reference_set)


def new_state(p):
    return State(p.nv, 1, 2, p.func, p.jac, p.h, p.h_jac, p.h_hess, p.g, p.g_jac, p.g_hess)


@op
def state(p):
    s = new_state(p)
    s.update(p.X)
    out = [np.array(v) for v in (s.X, s.Y, s.J, s.cstr_value, s.cstr_grad, s.cstr_hess, s.is_feasible())]
    s.update_one(p.X[-1], 0)
    t = s[[0]]
    t.update_one(p.far[-1], 0)
    s.update_one(p.far[0], len(p.X) - 1)
    return out + [np.array(v) for v in (s.X, s.Y, s.J, s.cstr_value, s.cstr_hess, t.X, t.Y)]


@op
def state_evaluate(p):
    return [State.evaluate(p.func, p.X), State.evaluate(p.func, p.X[0]), State.evaluate(p.g, p.X, (2,)), State.evaluate(None, p.X, (0,))]


@op
def kkt(p):
    s = new_state(p)
    s.update(p.X)
    return s.check_KKT()


@op
def boxes(p):
    return [handle_box_constraint(p.far, p.xl, p.xu), handle_box_constraint(p.far[0], p.xl, p.xu), set_bounds(p.xllist, p.nv), set_bounds(p.xl, p.nv)]


@op
def precondition(p):
    return precondition_hessian(p.S)


@op
def chim(p):
    return compute_chim(p.Y) if len(p.Y) >= p.m and np.linalg.matrix_rank(p.Y[p.Y.argmin(0)][1:] - p.Y[p.Y.argmin(0)][0]) == p.m - 1 else None


@op
def layout(p):
    v = matrix_to_Nd_vector(p.Z, p.nv, p.active)
    v = np.array(v).ravel()
    keep = v.copy()
    out = [v, Nd_vector_to_matrix(v, len(p.Z), p.nv + 1, p.nv, p.active), nd2(v, len(p.Z), p.nv + 1, p.nv, p.active_all)]
    equal(v, keep, "the stacked vector")
    return out


@op
def cleaning(p):
    return preprocess_reference_set(p.front)


@op
def filling(p):
    return [RSG(p.front, 12), ComponentDetection(p.front, 0.1, 2), interpolate_tst(p.front, 7)]


def run(p, o):
    X, Y, stop = o.run()
    return [X, Y, o.history_Y, o.history_X]


def cons(p, hess=True):
    kw = dict(h=p.h, h_jac=p.h_jac, g=p.g, g_jac=p.g_jac)
    return dict(kw, h_hessian=p.h_hess, g_hessian=p.g_hess) if hess else kw


@op
def hvn(p):
    return run(p, HVN(p.nv, p.m, p.func, p.jac, p.hess, p.ref, p.xl, p.xu, N=len(p.X), X0=p.X, max_iters=2, verbose=False))


@op
def hvn_constrained(p):
    return run(p, HVN(p.nv, p.m, p.func, p.jac, p.hess, p.reflist, p.xllist, p.xulist, N=len(p.X), X0=p.far, max_iters=2, verbose=False,
                      preconditioning=True, limit_max_step_size=True, **cons(p)))


@op
def dpn(p):
    return run(p, DpN(p.nv, p.m, p.func, p.jac, p.hess, ReferenceSet(p.R), p.xl, p.xu, N=len(p.X), x0=p.X, max_iters=2, verbose=False))


@op
def dpn_constrained(p):
    return run(p, DpN(p.nv, p.m, p.func, p.jac, p.hess, ReferenceSet(p.R, eta=p.eta), p.xllist, p.xulist, type="igd", N=len(p.X), x0=p.far, max_iters=2,
                      verbose=False, preconditioning=True, **cons(p)))


@op
def mmdn(p):
    return run(p, MMDNewton(p.nv, p.m, p.func, p.jac, p.hess, ReferenceSet(p.R), p.xl, p.xu, N=len(p.X), X0=p.X, max_iters=2, verbose=False))


@op
def mmdn_plain(p):
    return run(p, MMDNewton(p.nv, p.m, p.func, p.jac, p.hess, ReferenceSet(p.R, eta=p.eta), p.xllist, p.xulist, N=len(p.X), X0=p.far, max_iters=2, verbose=False,
                            matching=False, preconditioning=True, **cons(p, False)))


@op
def lara(p):
    return run(p, Lara(p.nv, p.m, p.func, p.jac, p.xl, p.xu, N=len(p.X), X0=p.far, max_iters=3, verbose=False))


# state of the library that calls could leave behind is probed by repeating calls in other orders
SLOW = {"mmd_plain", "mmd_matched", "mmdn", "mmdn_plain"}


@st.composite
def session(draw, names, most=6):
    m = 2
    nv = draw(st.sampled_from([2, 2, 3]))
    n = draw(st.integers(1, 4))
    return dict(m=m, nv=nv, f=draw(quadratic(m, nv)), X=draw(gen.mat(gen.grid(-0.9, 0.9, 36), n, nv)), Y=draw(gen.mat(gen.coarse(0.0, 4.0, 16), n, m)),
                R=draw(gen.front_position(draw(st.integers(max(n, 3), 7)), m)), S=draw(gen.mat(gen.grid(-1.0, 1.0, 20), nv, nv)),
                ops=draw(st.lists(st.sampled_from(names), min_size=1, max_size=most)), order=draw(st.sampled_from(["C", "F"])),
                seeds=draw(gen.vec(st.integers(0, 1000), 2)))


def guarded(f, p):
    """the result, or the error: some generated starts are degenerate for some of the optimizers"""
    try:
        return f(p)
    except (np.linalg.LinAlgError, AssertionError) as e:
        return type(e).__name__


def run_session(c, ev):
    if len(np.unique(np.array(c["X"]), axis=0)) < len(c["X"]):
        ev.label("repeated points")
    p = Pool(c)
    before = {k: freeze(v) for k, v in p.data.items()}

    def intact(what):
        for k, v in p.data.items():
            if freeze(v) != before[k]:
                raise Violation(f"{what} changed the caller's {k}")
        for memo in p.memos():
            memo.check(what)

    first = {}
    np.random.seed(c["seeds"][0])
    for name in c["ops"]:
        out = guarded(OPS[name], p)
        intact(name)
        out = copy.deepcopy(out) if not isinstance(out, str) else out
        if name in first:
            same(out, first[name], f"a second call of {name}")
        else:
            first[name] = out
    # once more, on equal data of another caller, in the opposite order and with other random numbers
    p2 = Pool(c)
    np.random.seed(c["seeds"][1])
    for name in reversed(c["ops"]):
        same(guarded(OPS[name], p2), first[name], f"{name} on equal data")
        ev.label(name)
    ev.nontrivial(len(set(c["ops"])) > 1)


@sub("C26", "sessions", session(sorted(set(OPS) - SLOW)), 1200, 15000, "sessions of one to six public calls on shared data (value, derivatives, sorting, "
     "matching, states, helpers, optimizers), in both memory layouts; non-trivial: two different calls", group="sessions")
def sessions(c, ev):
    run_session(c, ev)


@sub("C26", "sessions_mmd", session(sorted(SLOW) + ["matching", "hv_value", "dpn"], 3), 30, 400, "sessions with the MMD and its Newton method; "
     "non-trivial: two different calls", group="mmd")
def sessions_mmd(c, ev):
    run_session(c, ev)


# ------------------------------------------------------------------------------------ problems
METHODS = ["objective", "objective_jacobian", "objective_hessian", "eq_constraint", "eq_jacobian", "eq_hessian", "ieq_constraint", "ieq_jacobian", "ieq_hessian"]


@st.composite
def problem_case(draw):
    fam = draw(st.sampled_from(sorted(c18.FAMILIES)))
    name = draw(st.sampled_from(c18.FAMILIES[fam]))
    return dict(name=name, seed=draw(st.integers(0, 1 << 16)), calls=draw(st.lists(st.tuples(st.sampled_from(METHODS), st.booleans()), min_size=1, max_size=5)),
                boundary=draw(st.booleans()))


@sub("C26", "problems", problem_case(), 60, 1200, "sessions of up to five evaluations of benchmark problems, single and batch; non-trivial: two different calls",
     group="problems")
def problems(c, ev):
    spec = ref_problems.SPECS[c["name"]]
    rng = np.random.default_rng(c["seed"])
    prob = ref_problems.make(c["name"], spec.nvars[c["seed"] % 2 if len(spec.nvars) > 1 else 0], spec.nobjs[-1], boundary=c["boundary"])
    xl, xu = np.array(prob.xl, dtype=float), np.array(prob.xu, dtype=float)
    X = xl + (xu - xl) * rng.uniform(0.05, 0.95, (2, len(xl)))
    keep = X.copy()
    first = {}
    for t in range(2):
        for name, batch in c["calls"]:
            f = getattr(prob, name + ("_batch" if batch else ""), None)
            if f is None:
                continue
            if name.startswith("eq") and not prob.n_eq_constr or name.startswith("ieq") and not prob.n_ieq_constr:
                continue
            out = np.array(f(X if batch else X[0]), dtype=float)
            equal(X, keep, f"decisions after {c['name']}.{name}")
            equal(prob.xl, xl, "lower bounds")
            equal(prob.xu, xu, "upper bounds")
            if (name, batch) in first:
                same(out, first[name, batch], f"{c['name']}.{name} again")
            else:
                first[name, batch] = out
    ev.nontrivial(len(first) > 1)
    ev.label(c["name"])


# ------------------------------------------------------------------------- import order, precision
SCRIPT = r"""
import sys, json, os
sys.path[:0] = json.loads(sys.argv[2])
import importlib
for name in json.loads(sys.argv[1]):
    importlib.import_module(name)
import numpy as np
from hvd.mmd import MMD, MMDMatching, rbf
from hvd.reference_set import ReferenceSet
from hvd.hypervolume_derivatives import HypervolumeDerivatives
from hvd.problems import DTLZ2, ZDT1, CF1
Y = np.array([[0.1, 0.9], [0.4, 0.5], [0.8000000001, 0.2]])
R = np.array([[0.0, 0.8], [0.3, 0.3], [0.7, 0.0], [0.9, -0.1]])
out = {}
o = MMD(2, 2, ReferenceSet(R), kernel=rbf)
out["mmd"] = [o.compute(Y=Y), o.compute_derivatives(X=Y, Y=Y)]
o = MMDMatching(2, 2, ReferenceSet(R))
out["matched"] = [o.compute(Y=Y), o.compute_derivatives(X=Y, Y=Y)]
h = HypervolumeDerivatives(2, 2, np.array([1.1, 1.1]))
out["hv"] = h.compute_derivatives(X=Y)
out["hv_ad"] = h.compute_automatic_differentiation(Y)
for P in (ZDT1, DTLZ2, CF1):
    p = P()
    x = np.linspace(0.11, 0.83, len(p.xl)) * (p.xu - p.xl) + p.xl
    out[P.__name__] = [p.objective(x), p.objective_jacobian(x), p.objective_hessian(x)]
def flat(v):
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in flat(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for i in v for x in flat(i)]
    a = np.asarray(v)
    assert a.dtype == np.float64 or a.dtype.kind in "iub" or a.dtype == float, (a.dtype, a)
    return a.astype(float).ravel().tolist()
print("RESULT " + json.dumps({k: flat(v) for k, v in out.items()}))
"""

ORDERS = [["hvd"], ["jax", "hvd"], ["jax.numpy"], ["hvd.problems"], ["hvd.mmd"], ["jax", "hvd.mmd"], ["hvd.newton"], ["hvd.mmd_newton"], ["jax", "hvd.problems"],
          ["pymoo.core.problem", "hvd.problems"], ["jax", "numpy", "hvd.hypervolume_derivatives"], ["hvd.reference_set", "jax"], ["hvd.moea"], ["hvd.bootstrap"],
          ["hvd.rsg"], ["hvd.exact"], ["hvd.base"], ["hvd.delta_p"], ["hvd.gradient_based"], ["hvd.utils"], ["scipy", "jax", "hvd.gradient_based"]]


def fresh(order, extra=None):
    e = env.child_env()
    e.update(extra or {})
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", SCRIPT, json.dumps(order), json.dumps([env.REPO] + sys.path)], capture_output=True, text=True, env=e, timeout=300)
    lines = [line for line in r.stdout.splitlines() if line.startswith("RESULT ")]
    if r.returncode or not lines:
        if "/hvd/" in r.stderr or "AssertionError" in r.stderr:
            raise Violation(f"importing {order} and evaluating failed: {r.stderr[-600:]}")
        raise HarnessError(f"fresh process: {r.stderr[-2000:]}")
    return json.loads(lines[0][7:])


BASE = {}


def orders(tier):
    extra = [{}] if tier == "quick" else [{}, {"JAX_ENABLE_X64": "0"}, {"JAX_ENABLE_X64": "1"}]
    n = 9 if tier == "quick" else len(ORDERS)
    return [dict(order=o, env=e) for e in extra for o in ORDERS[:n]] + ([dict(order=["jax", "hvd"], env={"JAX_ENABLE_X64": "0"})] if tier == "quick" else [])


@sub("C26", "imports", orders, 0, 0, "fresh processes importing the package, its modules and JAX in different orders; every case is non-trivial", group="imports", enum=True)
def imports(c, ev):
    if not BASE:
        BASE.update(fresh(["hvd"]))
    out = fresh(c["order"], c["env"])
    require(sorted(out) == sorted(BASE), "results")
    for k, v in BASE.items():
        a, b = arr(out[k]), arr(v)
        require(a.shape == b.shape, f"{k}: shape")
        s = max(1.0, float(np.abs(b).max()))
        require(np.all(np.abs(a - b) <= 1e-12 * s), f"{k} after importing {c['order']}: off by {np.abs(a - b).max()}")
    # single precision would show in the fourth decimal of 1e-10
    ev.nontrivial()
