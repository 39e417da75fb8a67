"""C23: native and pymoo problems."""
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from hvd.problems import CMOP, MOP, get_pymoo_problem, pymoo_problem_names
from pbt import env, gen, ref_problems
from pbt.checks.c18 import FAMILIES, compare, custom, custom_problem, decode, numeric, points, slack
from pbt.core import Violation, arr, close, equal, require, sub
from pbt.maps import Quadratic, quadratic, quadratic_jnp


def evaluations(q, X):
    """what pymoo sees of the population, of its members and of a population of one"""
    names = ["F"] + (["G"] if q.n_ieq_constr else []) + (["H"] if q.n_eq_constr else [])

    def run(Z):
        out = q.evaluate(Z, return_values_of=names)
        return dict(zip(names, out if len(names) > 1 else [out]))

    return run(X), [run(x) for x in X], run(X[:1])


def compare_pymoo(p, q, X, want, tol, what):
    for a in ("n_var", "n_obj"):
        require(getattr(q, a) == getattr(p, a), f"{what}: {a} {getattr(q, a)}, not {getattr(p, a)}")
    for a in ("n_ieq_constr", "n_eq_constr"):
        require(getattr(q, a) == getattr(p, a, 0), f"{what}: {a} {getattr(q, a)}, not {getattr(p, a, 0)}")
    equal(q.xl, p.xl, f"{what}: xl")
    equal(q.xu, p.xu, f"{what}: xu")
    before = X.copy()
    pop, members, one = evaluations(q, X)
    equal(X, before, f"{what}: the caller's population")
    for k, w in want.items():
        fin = np.where(np.isfinite(w), w, 0.0)
        scale = max(1.0, np.abs(fin).max())
        for got, ref, name in ((pop.get(k), w, "of a population"), (np.array([m.get(k) for m in members], dtype=float), w, "of its members"),
                               (one.get(k), w[:1], "of a population of one")):
            got = arr(got, ref.shape, f"{what}: {k} {name}")
            bad = ~(np.abs(got - ref) <= tol * scale) & np.isfinite(ref)
            require(not bad.any(), f"{what}: {k} {name}: {got.tolist()}, not {ref.tolist()}")
    require(set(pop) == set(want), f"{what}: pymoo reports {sorted(pop)}, not {sorted(want)}")


@sub("C23", "native_custom", custom(), 60, 900, "user-defined problems with quadratic objectives and constraints seen through pymoo; "
     "non-trivial: constrained")
def native_custom(c, ev):
    p, f, h, g, lo, hi = custom_problem(c)
    X = np.array(c["X"])
    want = dict(F=np.array([f.f(x) for x in X]))
    if g or c["boundary"]:
        want["G"] = np.array([np.r_[g.f(x) if g else [], np.r_[lo - x, x - hi] if c["boundary"] else []] for x in X])
    if h:
        want["H"] = np.array([h.f(x) for x in X])
    ev.nontrivial(len(want) > 1)
    q = p.as_pymoo_problem()
    compare_pymoo(p, q, X, want, 1e-10, "user-defined problem")
    close(q.evaluate(X, return_values_of=["F"]), want["F"], 1e-10, "objectives alone")
    equal(p.xl, lo, "lower bounds of the original")
    require(MOP.from_pymoo(p) is p, "from_pymoo does not return a native problem as it is")


@st.composite
def names_points(draw):
    return draw(points(FAMILIES[draw(st.sampled_from(sorted(FAMILIES)))], small=True))


@sub("C23", "native_named", names_points(), 250, 4000, "all native problems seen through pymoo; non-trivial: at least two decisions")
def native_named(c, ev):
    s, lo, hi, X = decode(c)
    name, n, M = c["name"], c["n"], c["M"]
    p = ref_problems.make(name, n, M, boundary=c["boundary"])
    ev.label(name)
    ev.nontrivial(len(X) > 1)
    want = dict(F=np.array([np.asarray(s.f(x, M), float) for x in X]))
    if any(slack(name, x, f) for x, f in zip(X, want["F"])) or name == "WFG1":
        want["F"] = np.array([p.objective(x) for x in X])
    if getattr(p, "n_ieq_constr", 0):
        want["G"] = np.array([p.ieq_constraint(x) for x in X])
        if name == "CF10" or name in ("CF8", "CF9"):
            want["G"][np.abs(1 - want["F"][:, 2] ** 2) < 1e-2] = np.nan
    if getattr(p, "n_eq_constr", 0):
        want["H"] = np.array([s.h(x, M) for x in X])
    compare_pymoo(p, p.as_pymoo_problem(), X, want, 1e-7, name)


@sub("C23", "fronts", st.fixed_dictionaries(dict(name=st.sampled_from(["ZDT1", "ZDT2", "ZDT4", "UF1", "CF4", "DTLZ1", "DTLZ2", "IDTLZ1", "DENT", "UF8"]),
                                                 size=st.integers(5, 60))), 40, 400, "fronts asked through pymoo; non-trivial: all")
def fronts(c, ev):
    from pbt.checks.c21 import size_args

    s = ref_problems.SPECS[c["name"]]
    p = ref_problems.make(c["name"], s.nvars[0] if "DTLZ" not in c["name"] else 7, s.nobjs[0])
    kw = size_args(p.get_pareto_front, c["size"])
    ev.nontrivial()
    equal(p.as_pymoo_problem().pareto_front(**kw), np.array(p.get_pareto_front(**kw)), f"{c['name']}: front through pymoo")


# -------------------------------------------------------------------------- pymoo -> native
@st.composite
def foreign_case(draw):
    c = draw(custom())
    c["style"] = draw(st.sampled_from(["stack", "stack", "flat", "return", "elementwise", "elementwise", "element_list"]))
    c["boundary"] = draw(st.sampled_from([True, False, None]))
    if c["style"] == "return":
        c["h"] = c["g"] = None
    return c


def foreign(c):
    """a pymoo problem with the quadratic maps of the case, in one of the usual styles"""
    import jax
    import jax.numpy as jnp
    from pymoo.core.problem import ElementwiseProblem, Problem

    maps = {k: Quadratic(c[k]) for k in "fgh" if c[k]}
    style = c["style"]
    row = {k: (lambda x, q=q: quadratic_jnp(q, x)) for k, q in maps.items()}

    class Vectorised(Problem):
        def _evaluate(self, X, out, *args, **kwargs):
            vals = {k: jax.vmap(r)(X) for k, r in row.items()}
            if style == "return":
                return vals["f"]
            for k, v in vals.items():
                out[k.upper()] = v[:, 0] if style == "flat" and v.shape[1] == 1 else jnp.column_stack([v[:, j] for j in range(v.shape[1])])

    class Element(ElementwiseProblem):
        def _evaluate(self, x, out, *args, **kwargs):
            for k, r in row.items():
                v = r(jnp.stack([x[i] for i in range(c["nv"])]))
                out[k.upper()] = [v[j] for j in range(v.shape[0])] if style == "element_list" else v

    lo = np.array(c["lo"])
    hi = lo + np.array(c["width"])
    if c["scalar"]:
        lo, hi = np.full(c["nv"], lo[0]), np.full(c["nv"], hi[0])
    cls = Element if style.startswith("element") else Vectorised
    q = cls(n_var=c["nv"], n_obj=c["m"], xl=lo[0] if c["scalar"] else lo.copy(), xu=hi[0] if c["scalar"] else hi.copy(),
            n_ieq_constr=maps["g"].n_obj if "g" in maps else 0, n_eq_constr=maps["h"].n_obj if "h" in maps else 0)
    return q, maps, lo, hi


@sub("C23", "foreign", foreign_case(), 60, 1500, "user-defined pymoo problems (vectorised, elementwise, returning or storing) with quadratic "
     "objectives and constraints; non-trivial: constrained")
def foreign_problem(c, ev):
    q, maps, lo, hi = foreign(c)
    n, X = c["nv"], np.array(c["X"])
    ev.label(c["style"])
    kw = {} if c["boundary"] is None else dict(boundary_constraints=c["boundary"])
    box = c["boundary"] is not False
    before = (q.n_var, q.n_obj, q.n_ieq_constr, q.n_eq_constr, np.array(q.xl).tolist(), np.array(q.xu).tolist())
    p = MOP.from_pymoo(q, **kw)
    require(isinstance(p, CMOP), "not a constrained native problem")
    require((p.n_var, p.n_obj) == (n, c["m"]), f"sizes {p.n_var}, {p.n_obj}")
    equal(p.xl, lo, "lower bounds")
    equal(p.xu, hi, "upper bounds")
    ng = maps["g"].n_obj if "g" in maps else 0
    require(p.n_ieq_constr == ng + (2 * n if box else 0), f"{p.n_ieq_constr} inequality constraints")
    require(p.n_eq_constr == (maps["h"].n_obj if "h" in maps else 0), f"{p.n_eq_constr} equality constraints")
    z = np.zeros
    jobs = [("objective", maps["f"].f, maps["f"].jac, maps["f"].hess, p.n_obj)]
    if "h" in maps:
        jobs.append(("eq", maps["h"].f, maps["h"].jac, maps["h"].hess, p.n_eq_constr))
    if p.n_ieq_constr:
        g = maps.get("g")
        I = np.eye(n)  # noqa: E741
        jobs.append(("ieq",
                     lambda x: np.r_[g.f(x) if g else [], np.r_[lo - x, x - hi] if box else []],
                     lambda x: np.concatenate([g.jac(x) if g else z((0, n)), np.r_[-I, I] if box else z((0, n))]),
                     lambda x: np.concatenate([g.hess(x) if g else z((0, n, n)), z((2 * n if box else 0, n, n))]), p.n_ieq_constr))
    ev.nontrivial(len(maps) > 1)
    for kind, f, jac, hess, k in jobs:
        value = kind if kind == "objective" else f"{kind}_constraint"
        for x in X:
            close(getattr(p, value)(x), f(x), 1e-10, f"{value} of a pymoo problem")
        close(getattr(p, f"{value}_batch")(X), np.array([f(x) for x in X]), 1e-10, f"{value} of a pymoo problem, in a population")
        close(getattr(p, f"{kind}_jacobian")(X[0]), jac(X[0]), 1e-9, f"{kind} Jacobian of a pymoo problem")
        close(getattr(p, f"{kind}_hessian")(X[0]), hess(X[0]), 1e-9, f"{kind} Hessian of a pymoo problem")
    after = (q.n_var, q.n_obj, q.n_ieq_constr, q.n_eq_constr, np.array(q.xl).tolist(), np.array(q.xu).tolist())
    require(before == after, f"the pymoo problem changed from {before} to {after}")
    want = {"F": np.array([maps["f"].f(x) for x in X])}
    if p.n_ieq_constr:
        want["G"] = np.array([jobs[-1][1](x) for x in X])
    if "h" in maps:
        want["H"] = np.array([maps["h"].f(x) for x in X])
    compare_pymoo(p, p.as_pymoo_problem(), X, want, 1e-10, "pymoo problem there and back")
    xl = np.asarray(q.xl)
    require(not np.shares_memory(p.xl, xl), "bounds are shared with the pymoo problem")


@st.composite
def reject_case(draw):
    return dict(kind=draw(st.sampled_from(["none", "text", "number", "array", "function", "class", "list", "F", "G", "H"])),
                bc=draw(st.sampled_from([True, False, None])), nv=draw(st.integers(1, 4)), which=draw(st.integers(0, 2)))


@sub("C23", "rejected", reject_case(), 80, 800, "objects that are no problems and problems whose objective, inequality or equality "
     "constraints cannot be traced; non-trivial: all")
def rejected(c, ev):
    import jax.numpy as jnp
    from pymoo.core.problem import Problem

    class P(Problem):
        def _evaluate(self, X, out, *args, **kwargs):
            for i, k in enumerate("FGH"):
                Z = X
                if c["kind"] == k:  # noqa
                    if c["which"] == 0:
                        Z = np.asarray(X)
                    elif c["which"] == 1:
                        Z = X * (1.0 if float(X[0, 0]) > 0 else 2.0)
                    elif bool(jnp.any(X > 0)):
                        Z = X + 1
                out[k] = jnp.asarray(Z).sum(axis=1, keepdims=True) * (i + 1)

    thing = dict(none=None, text="zdt1", number=3, array=np.zeros((2, 2)), function=lambda x: x, list=[1], **{"class": P}).get(c["kind"])
    if c["kind"] in "FGH":
        thing = P(n_var=c["nv"], n_obj=1, n_ieq_constr=1, n_eq_constr=1, xl=-1.0, xu=1.0)
    ev.nontrivial()
    ev.label(c["kind"])
    kw = {} if c["bc"] is None else dict(boundary_constraints=c["bc"])
    try:
        MOP.from_pymoo(thing, **kw)
    except TypeError:
        return
    raise Violation(f"from_pymoo accepts {c['kind']} (variant {c['which']})")


# -------------------------------------------------------------------------- named problems
NAMES = ["bnh", "osy", "srn", "tnk"] + [f"zdt{k}" for k in (1, 2, 3, 4, 6)] + [f"dtlz{k}" for k in range(1, 8)]


def bnh(x):
    return ([4 * x[0] ** 2 + 4 * x[1] ** 2, (x[0] - 5) ** 2 + (x[1] - 5) ** 2],
            [((x[0] - 5) ** 2 + x[1] ** 2 - 25) / 25, -((x[0] - 8) ** 2 + (x[1] + 3) ** 2 - 7.7) / 7.7])


def srn(x):
    return ([2 + (x[0] - 2) ** 2 + (x[1] - 1) ** 2, 9 * x[0] - (x[1] - 1) ** 2],
            [x[0] ** 2 + x[1] ** 2 - 225, x[0] - 3 * x[1] + 10])


def osy(x):
    return ([-(25 * (x[0] - 2) ** 2 + (x[1] - 2) ** 2 + (x[2] - 1) ** 2 + (x[3] - 4) ** 2 + (x[4] - 1) ** 2), (x**2).sum()],
            [-(x[0] + x[1] - 2) / 2, -(6 - x[0] - x[1]) / 6, -(2 - x[1] + x[0]) / 2, -(2 - x[0] + 3 * x[1]) / 2,
             -(4 - (x[2] - 3) ** 2 - x[3]) / 4, -((x[4] - 3) ** 2 + x[5] - 4) / 4])


def tnk(x):
    return ([x[0], x[1]], [-(x[0] ** 2 + x[1] ** 2 - 1 - 0.1 * np.cos(16 * np.arctan2(x[0], x[1]))),
                           2 * ((x[0] - 0.5) ** 2 + (x[1] - 0.5) ** 2) - 1])


CON = dict(bnh=(bnh, [0, 0], [5, 3]), srn=(srn, [-20, -20], [20, 20]), tnk=(tnk, [0, 1e-30], [np.pi, np.pi]),
           osy=(osy, [0, 0, 1, 0, 1, 0], [10, 10, 5, 6, 5, 10]))


@st.composite
def factory_case(draw):
    name = draw(st.sampled_from(NAMES))
    upper = draw(st.lists(st.booleans(), min_size=5, max_size=5))
    n, M = (len(CON[name][1]), 2) if name in CON else (draw(st.integers(2, 7)), 2)
    if "dtlz" in name:
        M = draw(st.integers(2, 4))
        n = draw(st.integers(M, M + 5))
    return dict(name=name, upper=upper, n=n, M=M, bc=draw(st.sampled_from([True, False, None])),
                U=draw(st.lists(gen.vec(gen.grid(0.02, 0.98, 4801), n), min_size=1, max_size=3)))


@sub("C23", "factory", factory_case(), 80, 1500, "named pymoo problems in any spelling and size against their formulas; values, bounds and "
     "derivatives; non-trivial: at least two decisions or constrained")
def factory(c, ev):
    import pymoo.gradient as gradient

    name, n, M = c["name"], c["n"], c["M"]
    ev.label(name)
    toolbox = gradient.TOOLBOX
    kw = {} if c["bc"] is None else dict(boundary_constraints=c["bc"])
    if name not in CON:
        kw["n_var"] = n
        if "dtlz" in name:
            kw["n_obj"] = M
    spelled = "".join(a.upper() if u else a for a, u in zip(name, c["upper"]))
    p = get_pymoo_problem(spelled, **kw)
    require(gradient.TOOLBOX == toolbox, f"pymoo's backend became {gradient.TOOLBOX}")
    require((p.n_var, p.n_obj) == (n, M), f"{name}: {p.n_var} variables, {p.n_obj} objectives")
    if name in CON:
        fun, lo, hi = CON[name]
        f, g = (lambda x: np.array(fun(x)[0], float)), (lambda x: np.array(fun(x)[1], float))
        ng = len(g(np.ones(n)))
    else:
        s = ref_problems.SPECS[name.upper()]
        lo, hi = s.bounds(n)
        f, ng = (lambda x: np.asarray(s.f(x, M), float)), 0
    lo, hi = np.array(lo, float), np.array(hi, float)
    equal(p.xl, lo, f"{name}: xl")
    equal(p.xu, hi, f"{name}: xu")
    box = c["bc"] is not False
    require(p.n_eq_constr == 0 and p.n_ieq_constr == ng + 2 * n * box, f"{name}: {p.n_ieq_constr} inequality constraints")
    X = lo + np.array(c["U"]) * (hi - lo)
    ev.nontrivial(len(X) > 1 or ng)
    close([p.objective(x) for x in X], np.array([f(x) for x in X]), 1e-8, f"{name}: objectives")
    close(p.objective_batch(X), np.array([f(x) for x in X]), 1e-8, f"{name}: objectives of a population")
    x = X[0]
    scale = np.minimum(1.0, np.minimum(x - lo, hi - x) * 10)
    compare(p.objective_jacobian(x), numeric(f, x, scale), 1e-4, f"{name}: Jacobian at {x.tolist()}")
    compare(p.objective_hessian(x), numeric(lambda z: np.array(p.objective_jacobian(z)), x, scale), 1e-4, f"{name}: Hessian")
    if p.n_ieq_constr:
        want = lambda x: np.r_[g(x) if ng else [], np.r_[lo - x, x - hi] if box else []]  # noqa: E731
        close([p.ieq_constraint(x) for x in X], np.array([want(x) for x in X]), 1e-9, f"{name}: constraints")
        close(p.ieq_constraint_batch(X), np.array([want(x) for x in X]), 1e-9, f"{name}: constraints of a population")
        compare(p.ieq_jacobian(x), numeric(want, x, scale), 1e-4, f"{name}: Jacobian of the constraints at {x.tolist()}")


@sub("C23", "unknown", st.fixed_dictionaries(dict(name=st.one_of(
    st.text(max_size=8), st.sampled_from(["zdt5", "zdt", "ZDT1 ", " zdt1", "zdt11", "wfg1", "dtlz8", "dtlz", "", "bn", "kursawe"])))),
    150, 2000, "names that are not registered; non-trivial: all")
def unknown(c, ev):
    require(sorted(pymoo_problem_names()) == sorted(NAMES), f"names {pymoo_problem_names()}")
    if c["name"].lower() in NAMES:
        return
    ev.nontrivial()
    try:
        get_pymoo_problem(c["name"])
    except ValueError as e:
        require("zdt1" in str(e), f"the error for {c['name']!r} does not list the available problems: {e}")
        return
    raise Violation(f"{c['name']!r} accepted")


# -------------------------------------------------------------------------- the backend of pymoo, in fresh processes
SCRIPT = """
import json, sys, warnings
warnings.simplefilter("ignore")
case = json.loads(sys.argv[1])
import importlib
import pymoo.gradient as gradient
out = []
if case["backend"]:
    gradient.activate(case["backend"])
for step in case["pre"]:
    importlib.import_module(step)
from hvd.problems import get_pymoo_problem
for name, kw in case["calls"]:
    before = gradient.TOOLBOX
    try:
        p = get_pymoo_problem(name, **kw)
        r = [p.n_var, p.n_obj]
    except Exception as e:
        r = type(e).__name__
    toolbox = importlib.import_module("pymoo.gradient.toolbox").__name__
    out.append([before, r, gradient.TOOLBOX, toolbox])
print("RESULT" + json.dumps(out))
"""


def backend_cases(tier):
    zdt, dtlz, bnh_ = (["zdt1", dict(n_var=4)], [4, 2]), (["DTLZ2", dict(n_var=5, n_obj=3)], [5, 3]), (["bnh", {}], [2, 2])
    bad = (["zdt1", dict(n_obj=2)], "TypeError")
    none = (["zdt7", {}], "ValueError")
    F = {"zdt": "pymoo.problems.multi.zdt", "dtlz": "pymoo.problems.many.dtlz"}
    late = lambda k: (k[0], "RuntimeError")  # noqa: E731
    cases = [dict(backend=None, pre=[], calls=[zdt, none, dtlz, bnh_, zdt]),
             dict(backend=None, pre=[], calls=[bad, none, zdt, dtlz]),
             dict(backend=None, pre=[F["dtlz"]], calls=[late(dtlz), none]),
             dict(backend="numpy", pre=[], calls=[none, bad, dtlz, bnh_]),
             dict(backend="jax.numpy", pre=[], calls=[zdt, none, dtlz, bad]),
             dict(backend="jax.numpy", pre=[F["zdt"]], calls=[zdt, dtlz, none])]
    if tier == "thorough":
        cases += [dict(backend=b, pre=[], calls=calls) for b in (None, "numpy", "jax.numpy")
                  for calls in ([dtlz, zdt, bnh_], [bad, bad, zdt], [none, bnh_, none, dtlz])]
        cases += [dict(backend="numpy", pre=[F["dtlz"]], calls=[late(dtlz), late(dtlz)])]
    return [dict(backend=c["backend"], pre=c["pre"], calls=[k[0] for k in c["calls"]], want=[k[1] for k in c["calls"]]) for c in cases]


@sub("C23", "backend", backend_cases, 6, 17, "fresh processes with every backend of pymoo, problems imported earlier or not, failing calls in "
     "between; non-trivial: all", enum=True)
def backend(c, ev):
    e = dict(os.environ, PYTHONPATH=env.REPO, JAX_PLATFORMS="cpu")
    r = subprocess.run([sys.executable, "-c", SCRIPT, json.dumps(c)], capture_output=True, text=True, env=e, cwd="/", timeout=300)
    line = [x for x in r.stdout.splitlines() if x.startswith("RESULT")]
    require(line, f"get_pymoo_problem in a fresh process: {r.stderr[-500:]}")
    ev.nontrivial()
    for call, want, (before, got, toolbox, module) in zip(c["calls"], c["want"], json.loads(line[0][6:])):
        require(got == want, f"{call} with backend {c['backend']} and {c['pre']} imported: {got}, not {want}")
        require(before == toolbox == module, f"{call}: pymoo's backend {before} became {toolbox}, its toolbox {module}")
    # (the oracle above is the documented contract: the previous backend is in force again after every call)


# -------------------------------------------------------------------------- modified objectives
@st.composite
def modified_case(draw):
    c = draw(custom())
    return c


@sub("C23", "modified", modified_case(), 40, 500, "objectives mixed with their mean (ModifiedObjective) on user-defined problems; "
     "non-trivial: at least two objectives")
def modified(c, ev):
    from hvd.problems.misc import ModifiedObjective

    p, f, h, g, lo, hi = custom_problem(c)
    X = np.array(c["X"])
    q = ModifiedObjective(p.as_pymoo_problem())
    F = np.array([f.f(x) for x in X])
    want = dict(F=0.98 * F + 0.02 * F.mean(axis=1, keepdims=True))
    if g or c["boundary"]:
        want["G"] = np.array([np.r_[g.f(x) if g else [], np.r_[lo - x, x - hi] if c["boundary"] else []] for x in X])
    if h:
        want["H"] = np.array([h.f(x) for x in X])
    ev.nontrivial(F.shape[1] > 1)
    compare_pymoo(p, q, X, want, 1e-10, "modified problem")
