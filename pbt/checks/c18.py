"""C18: objectives, C19: constraints, C20: derivatives of the benchmark problems."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref_problems
from pbt.core import Violation, arr, close, equal, require, sub
from pbt.maps import Quadratic, quadratic, quadratic_jnp

FAMILIES = {
    "zdt": [f"ZDT{k}" for k in (1, 2, 3, 4, 6)] + ["DENT"],
    "dtlz": [f"DTLZ{k}" for k in range(1, 8)],
    "idtlz": [f"IDTLZ{k}" for k in range(1, 5)],
    "eqdtlz": [f"Eq1{i}DTLZ{k}" for i in ("", "I") for k in range(1, 5)],
    "uf": [f"UF{k}" for k in range(1, 11)],
    "cf": [f"CF{k}" for k in range(1, 11)],
    "wfg": [f"WFG{k}" for k in range(1, 10)],
    "conv": ["CONV3", "CONV4", "CONV4_2F"],
}
FRAC = st.one_of(gen.grid(0.0, 1.0), gen.grid(0.0, 1.0, 1000), st.sampled_from([0.0, 0.5, 1.0, 0.25, 0.35]))
INNER = gen.grid(0.02, 0.98, 4801)


@st.composite
def config(draw, names, small=False):
    name = draw(st.sampled_from(names))
    s = ref_problems.SPECS[name]
    nvars = s.nvars[:3] if small else s.nvars
    nobjs = s.nobjs[:2] if small else s.nobjs
    return name, draw(st.sampled_from(nvars)), draw(st.sampled_from(nobjs))


def valid(name, n, M):
    if name.startswith("WFG"):
        k = 4 if M == 2 else 2 * (M - 1)
        return n > k and n >= M and not (name in ("WFG2", "WFG3") and (n - k) % 2)
    if "DTLZ" in name:
        return n >= M
    return True


@st.composite
def points(draw, names, small=False, elem=FRAC, rows=4):
    name, n, M = draw(config(names, small).filter(lambda c: valid(*c)))
    return dict(name=name, n=n, M=M, U=draw(st.lists(gen.vec(elem, n), min_size=1, max_size=rows)),
                boundary=draw(st.booleans()))


def own_box(c):
    """bounds of one's own, as keyword arguments, within the usual ones"""
    lo, hi = ref_problems.SPECS[c["name"]].bounds(c["n"])
    if not c.get("box"):
        return {}, lo, hi
    kind, a, b = c["box"]
    rng = np.random.default_rng(c["seed"])
    if kind == "vector":
        a, b = a * rng.random(c["n"]), b * rng.random(c["n"])
    new = lo + a * (hi - lo), hi - b * (hi - lo)
    if kind == "lower":
        return dict(xl=new[0]), new[0], hi
    if kind == "upper":
        return dict(xu=new[1]), lo, new[1]
    if kind == "scalar":
        l, u = float(new[0].max()), float(new[1].min())
        if l > u:
            return dict(xl=new[0], xu=new[1]), *new
        return dict(xl=l, xu=u), np.full(c["n"], l), np.full(c["n"], u)
    return dict(xl=new[0], xu=new[1]), *new


def built(c, **kw):
    return ref_problems.make(c["name"], c["n"], c["M"], fresh=c.get("fresh", False), **own_box(c)[0], **kw)


def decode(c):
    s = ref_problems.SPECS[c["name"]]
    _, lo, hi = own_box(c)
    return s, lo, hi, np.clip(lo + np.array(c["U"]) * (hi - lo), lo, hi)


def slack(name, x, F):
    """how far the documented smoothing of ZDT and DTLZ6 near their singularities may move a value"""
    if name == "ZDT6" and np.mean(x[1:]) < 1e-11:
        return 2e-2
    if name in ("ZDT1", "ZDT3", "ZDT4") and x[0] < 1e-9:
        return 2e-6 * max(1.0, F[1])
    if name == "DTLZ6" and np.min(np.abs(x)) < 1e-28:
        return 2e-3 * len(x)
    return 0.0


def sensitive(name, x):
    """WFG1 raises a difference to the power 0.02; a rounding error there is visible"""
    if name != "WFG1":
        return False
    y = np.asarray(x) / (2 * np.arange(1, len(x) + 1))
    return bool(np.any(np.abs(y - 0.35) < 1e-6))


def each(f, X):
    """f at every row, always handed over in the same array"""
    buf, out = np.empty(X.shape[1]), []
    for x in X:
        buf[:] = x
        out.append(np.array(f(buf)))
    return out


def check_values(p, s, c, X, ev):
    single = each(p.objective, X)
    batch = p.objective_batch(X.copy())
    arr(batch, (len(X), c["M"]), "objectives of a population")
    for x, v, b in zip(X, single, batch):
        if sensitive(c["name"], x):
            continue
        want = np.asarray(s.f(x, c["M"]), dtype=float)
        if not np.all(np.isfinite(want)):
            continue
        tol = 1e-8 * max(1.0, np.abs(want).max()) + slack(c["name"], x, want)
        what = f"{c['name']}(n_var={c['n']}, n_obj={c['M']}) at {x.tolist()}"
        close(v, want, tol, f"objectives of {what}", scale=1.0)
        close(b, want, tol, f"objectives, in a population, of {what}", scale=1.0)
        ev.nontrivial(len(set(x.tolist())) > 1)


def objectives(c, ev):
    s, lo, hi, X = decode(c)
    p = built(c)
    require((p.n_var, p.n_obj) == (c["n"], c["M"]), f"{c['name']} has n_var={p.n_var}, n_obj={p.n_obj}")
    equal(p.xl, lo, f"lower bounds of {c['name']}")
    equal(p.xu, hi, f"upper bounds of {c['name']}")
    ev.label(c["name"])
    check_values(p, s, c, X, ev)


for _f, _names in reversed(FAMILIES.items()):
    sub("C18", f"objectives_{_f}", points(_names), 300 if _f == "wfg" else 500, 8000,
        f"decision vectors of the box, ends and special values included, for {', '.join(_names)}; non-trivial: not all "
        "variables equal")(objectives)


@st.composite
def wfg_k(draw):
    name = draw(st.sampled_from(FAMILIES["wfg"]))
    M = draw(st.integers(2, 4))
    k = (M - 1) * draw(st.integers(-(-4 // (M - 1)), 6 // (M - 1) + 1))
    n = k + 2 * draw(st.integers(1, 2)) + (0 if name in ("WFG2", "WFG3") else draw(st.integers(0, 1)))
    return dict(name=name, n=max(n, M), M=M, k=k, U=draw(st.lists(gen.vec(FRAC, max(n, M)), min_size=1, max_size=3)))


@sub("C18", "wfg_parameters", wfg_k(), 150, 2500, "WFG problems with an explicit number of position parameters; as above")
def wfg_parameters(c, ev):
    n, k, M = c["n"], c["k"], c["M"]
    if k < 4:
        return
    s, lo, hi, X = decode(c)
    p = ref_problems.make(c["name"], n, M, k=k, l=n - k)
    ev.label(f"k={k}, M={M}")
    for x in X:
        if not sensitive(c["name"], x):
            close(p.objective(x), ref_problems.SPECS[c["name"]].f(x, M, k), 1e-8, f"{c['name']} with k={k} at {x.tolist()}")
            ev.nontrivial(len(set(x.tolist())) > 1)


@st.composite
def sizes(draw, names, top=60, rows=(1, 2, 5)):
    """sizes beyond the usual ones; decisions from a seed"""
    name = draw(st.sampled_from(names))
    s = ref_problems.SPECS[name]
    n, M = s.nvars[0], s.nobjs[0]
    if not s.fixed:
        if len(s.nobjs) > 1:
            M = draw(st.integers(2, 7))
        low = 2 * (M - 1) + 1 if name.startswith("WFG") else M if "DTLZ" in name else min(s.nvars)
        n = draw(st.one_of(st.integers(low, low + 8), st.integers(low, max(low, top))))
    if name.startswith("WFG"):
        n = max(n, M, 6)
        k = 4 if M == 2 else 2 * (M - 1)
        n = max(n, k + 2)
        n += (n - k) % 2
    return dict(name=name, n=n, M=M, rows=draw(st.sampled_from(rows)), seed=draw(st.integers(0, 1 << 16)),
                grid=draw(st.sampled_from([0, 0, 2, 4, 20])), boundary=draw(st.booleans()), out=[])


def unfold(c):
    if "U" in c:
        return c
    U = np.random.default_rng(c["seed"]).random((c["rows"], c["n"]))
    if c["grid"]:
        U = np.round(U * c["grid"]) / c["grid"]
    return dict(c, U=U.tolist(), fresh=True)


def objectives_sizes(c, ev):
    objectives(unfold(c), ev)


@st.composite
def boxed(draw, names):
    """a WFG problem is scaled by its upper bounds: the others do not depend on them"""
    c = draw(sizes(names, 20, (1, 3)))
    c["box"] = [draw(st.sampled_from(["lower", "upper", "vector", "scalar"])), draw(gen.grid(0.0, 0.45, 20)), draw(gen.grid(0.0, 0.45, 20))]
    return c


ALL = [n for ns in FAMILIES.values() for n in ns]
WFG = FAMILIES["wfg"]
for _i, _names in enumerate(([n for n in ALL if n not in WFG], WFG)):
    sub("C18", f"sizes_{_i}", sizes(_names), (90, 40)[_i], (1500, 600)[_i],
        "all sizes up to 60 variables and 7 objectives; non-trivial: not all variables equal")(objectives_sizes)
sub("C18", "own_bounds", boxed([n for n in ALL if n not in WFG]), 50, 1200,
    "bounds of one's own within the usual ones; non-trivial: not all variables equal")(objectives_sizes)
sub("C18", "populations", sizes(ALL, 12, (6, 17, 64, 100, 128, 200, 257, 500)), 50, 800,
    "populations of 6 to 500 decisions; non-trivial: not all variables equal")(objectives_sizes)


# ------------------------------------------------------------------------------------ C19
def constraints(c, ev):
    s, lo, hi, X = decode(c)
    name, n, M = c["name"], c["n"], c["M"]
    p = built(c, boundary=c["boundary"])
    bc = c["boundary"] and s.boundary
    ng = {"CF6": 2, "CF7": 2}.get(name, 1) if s.g else 0
    nh = 1 if s.h else 0
    require(getattr(p, "n_ieq_constr", 0) == ng + (2 * n if bc else 0), f"{name}: n_ieq_constr={getattr(p, 'n_ieq_constr', 0)}")
    require(getattr(p, "n_eq_constr", 0) == nh, f"{name}: n_eq_constr={getattr(p, 'n_eq_constr', 0)}")
    ev.label(name, "with box constraints" if bc else "native constraints")
    if bc and c["out"]:  # a little outside the box
        X = X + np.resize(np.array(c["out"]), X.shape) * (hi - lo)
    inside = np.all((X >= lo) & (X <= hi), axis=1)
    if nh:
        vals = [arr(v).ravel() for v in each(p.eq_constraint, X)]
        batch = arr(p.eq_constraint_batch(X.copy())).reshape(len(X), -1)
        for x, v, b in zip(X, vals, batch):
            close(v, s.h(x, M), 1e-9, f"{name}: equality constraint at {x.tolist()}")
            close(b, s.h(x, M), 1e-9, f"{name}: equality constraint, in a population, at {x.tolist()}")
            ev.nontrivial(len(set(x.tolist())) > 1)
    if ng or bc:
        vals = [arr(v, (ng + (2 * n if bc else 0),), f"{name}: inequality constraints") for v in each(p.ieq_constraint, X)]
        batch = arr(p.ieq_constraint_batch(X.copy()), (len(X), len(vals[0])), f"{name}: inequality constraints of a population")
        for x, v, b, i in zip(X, vals, batch, inside):
            at = f"{name} at {x.tolist()}"
            want = np.zeros(0)
            if ng and i:
                with np.errstate(all="ignore"):
                    F = s.f(x, M)
                    want = s.g(x, F)
                ill = name in ("CF8", "CF9", "CF10") and abs(1 - F[2] ** 2) < 1e-2
                if not ill and np.all(np.isfinite(want)):
                    close(v[:ng], want, 1e-7, f"inequality constraints of {at}")
                    close(b[:ng], want, 1e-7, f"inequality constraints, in a population, of {at}")
                    ev.nontrivial(len(set(x.tolist())) > 1)
            if bc:
                box = np.r_[lo - x, x - hi]
                close(v[ng:], box, 1e-12, f"box constraints of {at}")
                close(b[ng:], box, 1e-12, f"box constraints, in a population, of {at}")
                require(bool(np.all(v[ng:] <= 0)) == bool(i), f"box constraints of {at} do not tell the box")
                ev.nontrivial(len(set(x.tolist())) > 1)


@st.composite
def cons_points(draw, names):
    c = draw(points(names))
    c["out"] = draw(st.one_of(st.just([]), gen.vec(gen.grid(-0.4, 0.4, 8), c["n"])))
    if any(ref_problems.SPECS[n].g is None and ref_problems.SPECS[n].h is None for n in names):
        c["boundary"] = True
    return c


for _f in ("dtlz", "idtlz", "eqdtlz", "uf", "cf", "wfg", "conv"):
    sub("C19", f"constraints_{_f}", cons_points(FAMILIES[_f]), 400, 6000,
        f"decision vectors inside and around the box for {', '.join(FAMILIES[_f])}; non-trivial: a constraint compared at a "
        "vector with different entries")(constraints)


def constraints_sizes(c, ev):
    constraints(unfold(c), ev)


CONSTRAINED = [n for n in ALL if n[:2] in ("CF", "Eq")]
sub("C19", "sizes", sizes(CONSTRAINED), 60, 1000,
    "all sizes up to 60 variables and 7 objectives; non-trivial: not all variables equal")(constraints_sizes)
sub("C19", "own_bounds", boxed(CONSTRAINED), 50, 1000,
    "bounds of one's own within the usual ones; non-trivial: not all variables equal")(constraints_sizes)
sub("C19", "populations", sizes(CONSTRAINED, 12, (6, 17, 64, 100, 128, 200, 257, 500)), 40, 600,
    "populations of 6 to 500 decisions; non-trivial: not all variables equal")(constraints_sizes)
sub("C19", "boxes", sizes([n for n in ALL if ref_problems.SPECS[n].boundary], 60, (1, 3)).map(lambda c: dict(c, boundary=True)), 50, 800,
    "box constraints of all problems in all sizes; non-trivial: not all variables equal")(constraints_sizes)


@st.composite
def custom(draw):
    nv, m = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    ne, ni = draw(st.integers(0, 2)), draw(st.integers(0, 2))
    lo = draw(gen.vec(gen.grid(-2.0, 0.0, 8), nv))
    return dict(nv=nv, m=m, f=draw(quadratic(m, nv)), h=draw(quadratic(ne, nv)) if ne else None,
                g=draw(quadratic(ni, nv)) if ni else None, lo=lo, scalar=draw(st.booleans()),
                width=draw(gen.vec(gen.grid(0.0, 3.0, 6), nv)), boundary=draw(st.booleans()),
                X=draw(st.lists(gen.vec(gen.grid(-3.0, 3.0, 600), nv), min_size=1, max_size=4)))


def custom_problem(c):
    from hvd.problems import CMOP

    f, h, g = (Quadratic(c[k]) if c[k] else None for k in ("f", "h", "g"))

    class Custom(CMOP):
        def _objective(self, x):
            return quadratic_jnp(f, x)

        def _eq_constraint(self, x):
            return quadratic_jnp(h, x)

        def _ieq_constraint(self, x):
            return quadratic_jnp(g, x)

    lo = np.array(c["lo"])
    hi = lo + np.array(c["width"])
    if c["scalar"]:
        lo, hi = np.full(c["nv"], lo[0]), np.full(c["nv"], hi[0])
    a = (float(lo[0]), float(hi[0])) if c["scalar"] else (lo.tolist(), hi.copy())
    p = Custom(n_var=c["nv"], n_obj=c["m"], xl=a[0], xu=a[1], n_eq_constr=h.n_obj if h else 0,
               n_ieq_constr=g.n_obj if g else 0, boundary_constraints=c["boundary"])
    return p, f, h, g, lo, hi


CUSTOM_RULE = "problems defined by a user with random quadratic objectives and constraints; non-trivial: constrained"


@sub("C19", "custom", custom(), 60, 900, CUSTOM_RULE)
def custom_constraints(c, ev):
    p, f, h, g, lo, hi = custom_problem(c)
    X = np.array(c["X"])
    equal(p.xl, lo, "lower bounds")
    equal(p.xu, hi, "upper bounds")
    ni = (g.n_obj if g else 0) + (2 * c["nv"] if c["boundary"] else 0)
    require(p.n_ieq_constr == ni and p.n_eq_constr == (h.n_obj if h else 0), "numbers of constraints")
    for x in X:
        close(p.objective(x), f.f(x), 1e-10, "objectives")
        if h:
            close(p.eq_constraint(x), h.f(x), 1e-10, "equality constraints")
        if ni:
            want = np.r_[g.f(x) if g else np.zeros(0), np.r_[lo - x, x - hi] if c["boundary"] else np.zeros(0)]
            close(p.ieq_constraint(x), want, 1e-10, "inequality constraints")
    if h:
        close(p.eq_constraint_batch(X), np.array([h.f(x) for x in X]), 1e-10, "equality constraints of a population")
    ev.nontrivial(h is not None or ni)


# ------------------------------------------------------------------------------------ C20
def stencil(f, x, i, h):
    e = np.zeros(len(x))
    e[i] = h
    return (8 * (f(x + e) - f(x - e)) - (f(x + 2 * e) - f(x - 2 * e))) / (12 * h)


def kink(f, x, i, h, slope):
    """second differences shrink with the step, not with its square: the one-sided slopes differ"""
    e = np.zeros(len(x))
    e[i] = h
    one, two = (np.abs(f(x + k * e) - 2 * f(x) + f(x - k * e)) for k in (1, 2))
    return bool(np.any((one > 1e-3 * h * np.maximum(1.0, np.abs(slope).max())) & (two < 3 * one)))


def numeric(f, x, scale):
    """columns of the numerical derivative; NaN where two step sizes disagree (kinks, jumps)"""
    cols = []
    with np.errstate(all="ignore"):
        for i in range(len(x)):
            a, b = (stencil(f, x, i, k * scale[i]) for k in (2e-4, 1e-4))
            tol = 1e-5 * max(1.0, np.abs(b).max())
            ok = np.all(np.isfinite(b)) and np.abs(a - b).max() < tol and not kink(f, x, i, 1e-4 * scale[i], b)
            cols.append(np.where(ok, b, np.nan) if ok else np.full(np.shape(b), np.nan))
    return np.stack(cols, axis=-1)


def compare(got, num, tol, what):
    got = arr(got, num.shape, what)
    m = np.isfinite(num)
    if not m.any():
        return False
    s = max(1.0, np.abs(num[m]).max())
    bad = np.abs(got - num)[m] > tol * s
    if bad.any() or not np.all(np.isfinite(got[m])):
        i = np.argwhere(m & ~(np.abs(got - num) <= tol * s))[0]
        raise Violation(f"{what}: got {got[tuple(i)]!r} at {tuple(int(k) for k in i)}, numerically {num[tuple(i)]!r}")
    return True


def derivatives(c, ev):
    s, lo, hi, X = decode(c)
    name, n, M = c["name"], c["n"], c["M"]
    p = ref_problems.make(name, n, M, boundary=True, fresh=c.get("fresh", False))
    x = X[0]
    scale = np.minimum(1.0, np.minimum(x - lo, hi - x) * 10)
    ev.label(name)
    J = arr(p.objective_jacobian(x.copy()), (M, n), f"{name}: Jacobian")
    H = arr(p.objective_hessian(x.copy()), (M, n, n), f"{name}: Hessian")
    ok = compare(J, numeric(lambda z: np.asarray(s.f(z, M), float), x, scale), 1e-4, f"{name}: Jacobian at {x.tolist()}")
    ok &= compare(H, numeric(lambda z: np.array(p.objective_jacobian(z)), x, scale), 1e-4, f"{name}: Hessian at {x.tolist()}")
    ev.nontrivial(ok)
    for kind in ("eq", "ieq"):
        k = getattr(p, f"n_{kind}_constr", 0)
        if not k:
            continue
        if kind == "ieq" and k == 2 * n and c["skip"]:
            continue
        fun = lambda z: arr(getattr(p, f"{kind}_constraint")(z)).reshape(k)  # noqa: B023,E731
        jac = lambda z: arr(getattr(p, f"{kind}_jacobian")(z), (k, n), f"{name}: {kind} Jacobian")  # noqa: B023,E731
        compare(jac(x.copy()), numeric(fun, x, scale), 1e-4, f"{name}: {kind} constraint Jacobian at {x.tolist()}")
        compare(arr(getattr(p, f"{kind}_hessian")(x.copy()), (k, n, n), "Hessian"), numeric(jac, x, scale), 1e-4,
                f"{name}: {kind} constraint Hessian at {x.tolist()}")
        ev.label(f"{name} {kind}")


@st.composite
def diff_points(draw, names):
    c = draw(points(names, small=True, elem=INNER, rows=1))
    c["skip"] = draw(st.integers(0, 2)) > 0
    return c


SLOW_FIRST = sorted(FAMILIES, key=lambda f: ("wfg", "cf", "eqdtlz", "uf").index(f) if f in ("wfg", "cf", "eqdtlz", "uf") else 9)
sub("C20", "populations", sizes(ALL, 8, (6, 17, 64, 100, 130, 257)), 16, 300,
    "populations of 6 to 257 interior vectors; non-trivial: all")(lambda c, ev: batches(inner(c), ev))
for _f in SLOW_FIRST:
    _names = FAMILIES[_f]
    for _part in range(2):
        if _names[_part::2]:
            sub("C20", f"derivatives_{_f}_{_part}", diff_points(_names[_part::2]), 60, 900,
                f"interior decision vectors for {', '.join(_names[_part::2])}; non-trivial: a derivative entry with "
                "agreeing numerical estimates")(derivatives)


@sub("C20", "custom", custom(), 50, 800, CUSTOM_RULE)
def custom_derivatives(c, ev):
    p, f, h, g, lo, hi = custom_problem(c)
    X, nv = np.array(c["X"]), c["nv"]
    z = np.zeros((2 * nv, nv, nv))
    box = (lambda x: (np.r_[-np.eye(nv), np.eye(nv)], z)) if c["boundary"] else (lambda x: (np.zeros((0, nv)), z[:0]))
    jobs = [("objective", f.jac, f.hess)]
    if h:
        jobs.append(("eq", h.jac, h.hess))
    if g or c["boundary"]:
        jobs.append(("ieq", lambda x: np.concatenate([g.jac(x) if g else np.zeros((0, nv)), box(x)[0]]),
                     lambda x: np.concatenate([g.hess(x) if g else np.zeros((0, nv, nv)), box(x)[1]])))
    for k, jac, hess in jobs:
        want_j, want_h = np.array([jac(x) for x in X]), np.array([hess(x) for x in X])
        close(each(getattr(p, f"{k}_jacobian"), X), want_j, 1e-9, f"{k} Jacobian")
        close(each(getattr(p, f"{k}_hessian"), X), want_h, 1e-9, f"{k} Hessian")
        P = X.copy()
        for _ in range(2):  # the same array, its rows reversed in place
            close(getattr(p, f"{k}_jacobian_batch")(P), want_j, 1e-9, f"{k} Jacobians of a population")
            close(getattr(p, f"{k}_hessian_batch")(P), want_h, 1e-9, f"{k} Hessians of a population")
            P[:], want_j, want_h = X[::-1], want_j[::-1], want_h[::-1]
    ev.nontrivial(h is not None or g is not None or c["boundary"])


def batches(c, ev):
    s, lo, hi, X = decode(c)
    p = ref_problems.make(c["name"], c["n"], c["M"], boundary=True, fresh=c.get("fresh", False))
    kinds = ["objective"] + [k for k in ("eq", "ieq") if getattr(p, f"n_{k}_constr", 0)]
    ev.label(c["name"])
    ev.nontrivial(len(X) > 1)
    for k in kinds:
        n_out = c["M"] if k == "objective" else getattr(p, f"n_{k}_constr")
        for what, shape in (("jacobian", (n_out, c["n"])), ("hessian", (n_out, c["n"], c["n"]))):
            one = np.array([arr(v, shape, f"{c['name']}: {k} {what}") for v in each(getattr(p, f"{k}_{what}"), X)])
            many = arr(getattr(p, f"{k}_{what}_batch")(X.copy()), (len(X), *shape), f"{c['name']}: {k} {what} of a population")
            fin = np.isfinite(one)
            require(np.array_equal(np.isfinite(many), fin), f"{c['name']}: {k} {what} finite in one form only")
            t = 1e-7 * np.maximum(1.0, np.where(fin, np.abs(one), 0).max(axis=tuple(range(1, one.ndim)), keepdims=True))
            require(np.all(np.where(fin, np.abs(many - one), 0) <= t),
                    f"{c['name']}: {k} {what} of a population differs from that of its members at {X.tolist()}")


for _f in SLOW_FIRST:
    _names = FAMILIES[_f]
    sub("C20", f"batches_{_f}", points(_names, small=True, elem=INNER, rows=4), 30 if _f in ("wfg", "cf") else 50, 800,
        f"populations of interior vectors for {', '.join(_names)}; non-trivial: at least two members",
        group=f"derivatives_{_f}_0" if _f in ("zdt", "conv", "idtlz") else None)(batches)


def inner(c):
    c = unfold(dict(c, grid=0, skip=True))
    return dict(c, U=(0.02 + 0.96 * np.array(c["U"])).tolist())


@sub("C20", "sizes", sizes([n for n in ALL if n not in WFG], 24, (1,)), 16, 300,
     "all sizes up to 24 variables and 7 objectives; non-trivial: a derivative entry with agreeing numerical estimates",
     group="derivatives_conv_0")
def derivatives_sizes(c, ev):
    derivatives(inner(c), ev)

