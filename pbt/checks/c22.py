"""C22: constructors of problems."""
import warnings

import numpy as np
from hypothesis import strategies as st

from hvd.problems import CMOP, MOP  # isort: skip
import jax.numpy as jnp
from pbt import gen, ref_problems
from pbt.core import Violation, arr, close, equal, require, sub

NATIVE = sorted(ref_problems.SPECS)
NUM = gen.grid(-4.0, 4.0, 32)


class Toy(MOP):
    def __init__(self, n_var=2, n_obj=2, xl=0.0, xu=1.0):
        super().__init__(n_var=n_var, n_obj=n_obj, xl=xl, xu=xu)

    def _objective(self, x):
        return jnp.sum((x - self.xl) ** 2) * jnp.arange(1.0, self.n_obj + 1)


class ToyC(CMOP):
    def __init__(self, n_var=2, n_obj=2, xl=0.0, xu=1.0, n_eq_constr=0, n_ieq_constr=0, boundary_constraints=False):
        super().__init__(n_var=n_var, n_obj=n_obj, xl=xl, xu=xu, n_eq_constr=n_eq_constr, n_ieq_constr=n_ieq_constr,
                         boundary_constraints=boundary_constraints)

    def _objective(self, x):
        return jnp.sum((x - self.xl) ** 2) * jnp.arange(1.0, self.n_obj + 1)

    def _eq_constraint(self, x):
        return jnp.sum(x) * jnp.arange(1.0, self.n_eq_constr + 1)

    def _ieq_constraint(self, x):
        return jnp.sum(x**2) - jnp.arange(1.0, self.n_ieq_constr_native + 1)

    n_ieq_constr_native = 0


def bad_number(draw):
    return draw(st.sampled_from([["int", 0], ["int", -1], ["int", -7], ["bool", 1], ["bool", 0], ["npbool", 1], ["float", 2.0],
                                 ["float", 2.5], ["npfloat", 3.0], ["float", float("inf")], ["str", "2"], ["npint", 0],
                                 ["array", 3], ["list", 3]]))


def number(spec):
    kind, v = spec
    return dict(int=int, bool=bool, npbool=np.bool_, float=float, npfloat=np.float64, str=str, npint=np.int32,
                array=lambda v: np.array([v]), list=lambda v: [v], npint64=np.int64, none=lambda v: None)[kind](v)


def bound(kind, values):
    """the values (one, or one per variable) as the given kind of argument"""
    if kind == "scalar":
        return values[0]
    if kind == "int":
        return int(np.floor(values[0]))
    if kind == "npscalar":
        return np.float64(values[0])
    if kind == "one":
        return [values[0]]
    if kind == "zerod":
        return np.array(values[0])
    return dict(list=list, tuple=tuple, array=np.array, f32=lambda v: np.array(v, dtype=np.float32),
                ints=lambda v: np.floor(np.array(v)).astype(int),
                strided=lambda v: np.repeat(np.array(v), 2)[::2])[kind](values)


KINDS = ["scalar", "int", "npscalar", "one", "zerod", "list", "tuple", "array", "f32", "ints", "strided"]


@st.composite
def bounds_case(draw):
    n = draw(st.integers(1, 6))
    c = dict(n=n, m=draw(st.integers(1, 4)), ntype=draw(st.sampled_from(["int", "npint", "npint64"])),
             lo=[draw(st.sampled_from(KINDS)), draw(gen.vec(NUM, n))], hi=[draw(st.sampled_from(KINDS)), draw(gen.vec(NUM, n))],
             toyc=draw(st.booleans()), bc=draw(st.booleans()), order=draw(st.sampled_from(["free", "sorted", "sorted", "touch"])),
             x=draw(gen.vec(NUM, n)), bend=draw(st.integers(0, n - 1)))
    if c["order"] != "free":  # otherwise reversed bounds are the rule
        a, b = np.sort([c["lo"][1], c["hi"][1]], axis=0)
        if c["lo"][0] in ("scalar", "int", "npscalar", "one", "zerod"):
            a = np.full(n, a.min())
        if c["hi"][0] in ("scalar", "int", "npscalar", "one", "zerod"):
            b = np.full(n, np.ceil(b.max()))
        b = np.ceil(b)
        if c["order"] == "touch" and c["hi"][0] not in ("scalar", "int", "npscalar", "one", "zerod"):
            b[c["bend"]] = a[c["bend"]] = np.floor(a[c["bend"]])
        c["lo"][1], c["hi"][1] = a.tolist(), b.tolist()
    return c


@sub("C22", "bounds", bounds_case(), 1500, 20000, "all kinds of bound arguments (scalars, lists, arrays, integers, reversed, touching), "
     "types of sizes; non-trivial: at least one bound given per variable")
def bounds(c, ev):
    n = c["n"]
    lo, hi = bound(*c["lo"]), bound(*c["hi"])
    want_lo, want_hi = (np.broadcast_to(np.asarray(v, dtype=float), (n,)).copy() for v in (lo, hi))
    cls = ToyC if c["toyc"] else Toy
    kw = dict(boundary_constraints=c["bc"]) if c["toyc"] else {}
    reversed_ = bool(np.any(want_lo > want_hi))
    ev.label("reversed" if reversed_ else "valid")
    try:
        p = cls(number([c["ntype"], n]), number([c["ntype"], c["m"]]), lo, hi, **kw)
    except ValueError:
        require(reversed_, f"bounds {lo!r}, {hi!r} rejected")
        return
    require(not reversed_, f"reversed bounds {lo!r}, {hi!r} accepted")
    require(type(p.n_var) is int and p.n_var == n and type(p.n_obj) is int and p.n_obj == c["m"],
            f"sizes {p.n_var!r}, {p.n_obj!r} for {n}, {c['m']}")
    for got, want, given, w in ((p.xl, want_lo, lo, "xl"), (p.xu, want_hi, hi, "xu")):
        equal(got, want, w)
        require(got.dtype == np.float64 and got.shape == (n,), f"{w} of type {got.dtype}, shape {got.shape}")
        if isinstance(given, np.ndarray) and given.ndim == 1:
            ev.nontrivial()
            require(not np.shares_memory(got, given), f"{w} shares memory with the caller's array")
            keep = given.copy()
            given[c["bend"] % len(given)] += 11  # the caller goes on using the array
            equal(got, want, f"{w} after the caller changed the array")
            given[...] = keep
    require(got.flags.writeable and not np.shares_memory(p.xl, p.xu), "xl and xu share memory")
    if isinstance(lo, np.ndarray) and isinstance(hi, np.ndarray):
        keep = np.array(lo), np.array(hi)
        equal(lo, keep[0], "caller's lower bound")
    if c["toyc"]:
        require(p.n_ieq_constr == (2 * n if c["bc"] else 0) and p.n_eq_constr == 0, f"{p.n_ieq_constr} inequality constraints")
        if c["bc"] and c["m"] == 1:  # (compiles)
            x = np.array(c["x"])
            close(p.ieq_constraint(x), np.r_[want_lo - x, x - want_hi], 1e-12, "boundary constraints")


@st.composite
def shapes_case(draw):
    n = draw(st.integers(2, 6))
    k = draw(st.integers(2, 8).filter(lambda k: k != n))
    kind = draw(st.sampled_from(["len", "matrix", "column", "empty", "ragged", "text"]))
    return dict(n=n, k=k, kind=kind, which=draw(st.sampled_from(["xl", "xu"])), toyc=draw(st.booleans()),
                array=draw(st.booleans()))


@sub("C22", "bad_shapes", shapes_case(), 300, 4000, "bounds that are neither scalar nor one per variable; non-trivial: all")
def bad_shapes(c, ev):
    n, k = c["n"], c["k"]
    base = 0.0 if c["which"] == "xl" else 1.0
    v = {"len": [base] * k, "matrix": [[base] * n] * 2, "column": [[base]] * n, "empty": [], "ragged": [[base], [base, base]],
         "text": "low"}[c["kind"]]
    if c["array"] and c["kind"] not in ("ragged", "text"):
        v = np.array(v)
    ev.nontrivial()
    try:
        p = (ToyC if c["toyc"] else Toy)(n_var=n, n_obj=2, **{c["which"]: v})
    except ValueError:
        return
    raise Violation(f"{c['which']}={v!r} accepted for {n} variables: {getattr(p, c['which'])}")


@st.composite
def sizes_case(draw):
    name = draw(st.sampled_from(["Toy", "ToyC"] + [n for n in NATIVE if not ref_problems.SPECS[n].fixed]))
    which = draw(st.sampled_from(["n_var", "n_obj"]))
    if name not in ("Toy", "ToyC") and len(ref_problems.SPECS[name].nobjs) < 2:
        which = "n_var"
    c = dict(name=name, which=which, value=bad_number(draw))
    if name in ("Toy", "ToyC"):
        c["positional"] = draw(st.booleans())
    return c


@sub("C22", "bad_sizes", sizes_case(), 400, 6000, "numbers of variables and objectives that are not positive integers, on user-defined "
     "and all native problems; non-trivial: all")
def bad_sizes(c, ev):
    v = number(c["value"])
    ev.nontrivial()
    ev.label(c["value"][0])
    toy = c["name"] in ("Toy", "ToyC")
    cls = dict(Toy=Toy, ToyC=ToyC).get(c["name"]) or ref_problems.cls(c["name"])
    ok = ValueError if toy else (ValueError, TypeError)
    try:
        if c.get("positional"):
            p = cls(v) if c["which"] == "n_var" else cls(2, v)
        else:
            p = cls(**{c["which"]: v})
    except ok:
        return
    except Exception as e:  # noqa: BLE001
        if toy or c["value"][0] == "int":
            raise
        ev.label(type(e).__name__)
        return
    raise Violation(f"{c['name']}({c['which']}={v!r}) accepted, {c['which']} = {getattr(p, c['which'])!r}")


@st.composite
def counts_case(draw):
    return dict(ne=draw(st.integers(-3, 3)), ni=draw(st.integers(-3, 3)), bc=draw(st.booleans()), n=draw(st.integers(1, 4)),
                x=draw(gen.vec(NUM, 4)))


@sub("C22", "constraint_counts", counts_case(), 150, 1500, "numbers of constraints, negative ones included; non-trivial: some constraint")
def constraint_counts(c, ev):
    class T(ToyC):
        n_ieq_constr_native = max(c["ni"], 0)

    bad = c["ne"] < 0 or c["ni"] < 0
    n = c["n"]
    try:
        p = T(n_var=n, n_obj=2, xl=-1.0, xu=2.0, n_eq_constr=c["ne"], n_ieq_constr=c["ni"], boundary_constraints=c["bc"])
    except ValueError:
        require(bad, f"{c['ne']} equality and {c['ni']} inequality constraints rejected")
        return
    require(not bad, f"{c['ne']} equality and {c['ni']} inequality constraints accepted")
    total = c["ni"] + (2 * n if c["bc"] else 0)
    ev.nontrivial(total + c["ne"] > 0)
    require(p.n_eq_constr == c["ne"] and p.n_ieq_constr == total, f"{p.n_eq_constr} and {p.n_ieq_constr} constraints")
    x = np.array(c["x"][:n])
    if c["ne"]:
        close(p.eq_constraint(x), x.sum() * np.arange(1, c["ne"] + 1), 1e-12, "equality constraints")
    if total:
        want = (x**2).sum() - np.arange(1, c["ni"] + 1)
        if c["bc"]:
            want = np.r_[want, -1 - x, x - 2]
        close(p.ieq_constraint(x), want, 1e-12, "inequality constraints")
        J = arr(p.ieq_jacobian(x), (total, n), "Jacobian of the inequality constraints")
        want = np.tile(2 * x, (c["ni"], 1))
        if c["bc"]:
            want = np.r_[want, -np.eye(n), np.eye(n)]
        close(J, want, 1e-12, "Jacobian of the inequality constraints")


@st.composite
def fixed_case(draw):
    name = draw(st.sampled_from(NATIVE))
    s = ref_problems.SPECS[name]
    c = dict(name=name, n_obj=draw(st.one_of(st.none(), st.integers(-2, 12))), bc=draw(st.booleans()))
    c["n_var"] = draw(st.one_of(st.none(), st.integers(-2, 12))) if s.fixed else None
    return c


@sub("C22", "fixed", fixed_case().filter(lambda c: len(ref_problems.SPECS[c["name"]].nobjs) == 1), 300, 3000,
     "every problem of fixed size, any requested or no size; non-trivial: a size is requested")
def fixed(c, ev):
    s = ref_problems.SPECS[c["name"]]
    kw = {k: c[k] for k in ("n_obj", "n_var") if c[k] is not None}
    ev.nontrivial(kw)
    if s.boundary:
        kw["boundary_constraints"] = c["bc"]
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        p = ref_problems.cls(c["name"])(**kw)
    rec = [w for w in rec if issubclass(w.category, UserWarning) and "fixed" in str(w.message)]
    require(p.n_obj == s.nobjs[0], f"{c['name']}: {p.n_obj} objectives")
    if s.fixed:
        require(p.n_var == s.nvars[0], f"{c['name']}: {p.n_var} variables")
    want = sorted(k for k in ("n_obj", "n_var") if k in kw)
    require(len(rec) == len(want), f"{c['name']}({kw}): {len(rec)} warnings, expected one for each of {want}")
    for k in want:
        require(any(k in str(w.message) for w in rec), f"{c['name']}({kw}): no warning about {k}")
    require(getattr(p, "n_ieq_constr", 0) == (1 if s.g and c["name"] not in ("CF6", "CF7") else 2 if s.g else 0)
            + (2 * p.n_var if c["bc"] and s.boundary else 0), f"{c['name']}: {getattr(p, 'n_ieq_constr', 0)} inequality constraints")


def smallest(name, M):
    """the least number of variables with which a problem is defined"""
    if name[:2] in ("UF", "CF"):
        k = int(name[2:])
        return 5 if k >= 8 else 3 if name[:2] == "UF" or k <= 3 else 2 if k <= 5 else 4
    if "DTLZ" in name:
        return M if name == "DTLZ7" else max(M - 1, 1)
    return 2 if name[:3] == "ZDT" and name != "ZDT4" else 1


@st.composite
def native_case(draw):
    name = draw(st.sampled_from(NATIVE))
    s = ref_problems.SPECS[name]
    n = draw(st.integers(4, 14)) if not s.fixed else s.nvars[0]
    if not s.fixed and name[:3] != "WFG" and draw(st.booleans()):
        n = draw(st.integers(0, 6))
    M = draw(st.integers(2, 4)) if len(s.nobjs) > 1 else s.nobjs[0]
    default = draw(st.booleans())
    return dict(name=name, n=n, M=M, bc=draw(st.booleans()), default=default, kinds=draw(st.lists(st.sampled_from(
        ["default", "scalar", "list", "array"]), min_size=2, max_size=2)), vals=draw(gen.vec(gen.grid(0.0, 1.0, 32), 14)),
        x=draw(gen.vec(gen.grid(0.0, 1.0), 14)))


@sub("C22", "native", native_case(), 500, 6000, "every native problem with its own or given sizes and bounds; "
     "non-trivial: bounds given per variable", group="native")
def native(c, ev):
    name, n, M = c["name"], c["n"], c["M"]
    s = ref_problems.SPECS[name]
    kw, want = {}, []
    if not s.fixed:
        kw["n_var"] = n
        if len(s.nobjs) > 1:
            kw["n_obj"] = M
    if s.boundary:
        kw["boundary_constraints"] = c["bc"]
    for (w, k, base, sign) in (("xl", c["kinds"][0], 0, -1.0), ("xu", c["kinds"][1], 1, 1.0)):
        d = np.asarray(s.bounds(max(n, 3))[base], dtype=float)[:n]
        v = d + sign * np.array((c["vals"] * 2)[:n])  # never reversed
        if k == "scalar" and n:
            kw[w] = float(v.min() if sign < 0 else v.max())
            want.append(np.full(n, kw[w]))
        elif k in ("list", "array"):
            kw[w] = v.tolist() if k == "list" else v.copy()
            want.append(v)
            ev.nontrivial()
        else:
            want.append(d)
    least = smallest(name, M)
    if name[:3] == "WFG":
        k = 4 if M == 2 else 2 * (M - 1)
        if n - k < 1 or (name in ("WFG2", "WFG3") and (n - k) % 2):
            least = n + 1
    try:
        p = ref_problems.cls(name)(**kw)
    except ValueError:
        if name == "ZDT4" and n == 1 or "DTLZ" in name and n == M - 1:
            return  # computable, but not a published size
        require(n < least, f"{name}({kw}) rejected")
        ev.label("rejected")
        return
    require(n >= least, f"{name}({kw}) accepted")
    ev.label("accepted")
    require((p.n_var, p.n_obj) == (n, M), f"{name}({kw}): {p.n_var} variables, {p.n_obj} objectives")
    equal(p.xl, want[0], f"{name}: xl")
    equal(p.xu, want[1], f"{name}: xu")
    for w in ("xl", "xu"):
        if isinstance(kw.get(w), np.ndarray):
            require(not np.shares_memory(getattr(p, w), kw[w]), f"{name}: {w} shares memory with the caller's array")
            keep = kw[w].copy()
            kw[w] += 5
            equal(getattr(p, w), keep, f"{name}: {w} after the caller changed the array")
    require(getattr(p, "n_eq_constr", 0) == (1 if s.h else 0), f"{name}: {getattr(p, 'n_eq_constr', 0)} equality constraints")


@st.composite
def small_case(draw):
    name = draw(st.sampled_from([k for k in NATIVE if not ref_problems.SPECS[k].fixed]))
    M = draw(st.integers(2, 5)) if len(ref_problems.SPECS[name].nobjs) > 1 else ref_problems.SPECS[name].nobjs[0]
    return dict(name=name, n=draw(st.integers(4, 9) if name[:3] == "WFG" else st.integers(1, 6)), M=M,
                x=draw(gen.vec(gen.grid(0.05, 0.95), 9)))


@sub("C22", "usable", small_case(), 60, 600, "every native problem of variable size with few variables: rejected, or its objectives and "
     "constraints are numbers, one for each; non-trivial: accepted with the smallest size", group="wfg_parameters")
def usable(c, ev):
    name, n, M = c["name"], c["n"], c["M"]
    s = ref_problems.SPECS[name]
    try:
        p = ref_problems.cls(name)(n_var=n, **({} if len(s.nobjs) == 1 else dict(n_obj=M)))
    except ValueError:
        return ev.label("rejected")
    ev.label("accepted")
    ev.nontrivial(n == smallest(name, M) or name[:3] == "WFG")
    x = p.xl + (p.xu - p.xl) * np.array(c["x"][:n])
    y = arr(p.objective(x), (M,), f"{name}(n_var={n}, n_obj={M}): objectives")
    require(np.all(np.isfinite(y)), f"{name}(n_var={n}): objectives {y}")
    for k, fn in (("n_eq_constr", "eq_constraint"), ("n_ieq_constr", "ieq_constraint")):
        if getattr(p, k, 0):
            v = arr(np.ravel(getattr(p, fn)(x)), (getattr(p, k),), f"{name}(n_var={n}): {fn}")
            require(np.all(np.isfinite(v)), f"{name}(n_var={n}): {fn} {v}")


@sub("C22", "independent", native_case().filter(lambda c: c["name"][:3] != "WFG" and c["n"] >= 5 and c["n"] >= c["M"]), 40, 500,
     "objectives, boundary constraints and CPU time of one problem while others of the same class with other sizes and bounds are "
     "built and used; non-trivial: all")
def independent(c, ev):
    name, n, M = c["name"], c["n"], c["M"]
    s = ref_problems.SPECS[name]
    lo, hi = (np.asarray(b, float)[:n] for b in s.bounds(n))
    x = lo + np.array((c["x"] * 2)[:n]) * (hi - lo) * 0.9 + 0.01 * (hi - lo)
    kw = {} if s.fixed else dict(n_var=n, **(dict(n_obj=M) if len(s.nobjs) > 1 else {}))
    bc = {"boundary_constraints": True} if s.boundary else {}
    cls = ref_problems.cls(name)
    p = cls(**kw)
    ev.nontrivial()
    f0 = np.array(p.objective(x))
    t0 = p.CPU_time
    p.objective_jacobian(x)
    require(p.CPU_time > t0 >= 0, f"{name}: CPU time {p.CPU_time} after {t0}")
    t0 = p.CPU_time
    other = dict(kw)
    if not s.fixed:
        other["n_var"] = n + 2
    y = np.resize(x, other.get("n_var", n))
    wide = dict(xl=np.resize(lo, len(y)) - 1.0, xu=np.resize(hi, len(y)) + 1.0)
    q = cls(**other, **wide, **bc)
    q.objective(y)
    if s.boundary:
        k = getattr(q, "n_ieq_constr")
        G = arr(q.ieq_constraint(y), (k,), f"{name}: inequality constraints")
        close(G[-2 * len(y):], np.r_[wide["xl"] - y, y - wide["xu"]], 1e-12, f"{name}: boundary constraints")
        q.ieq_jacobian(y)
        require(q.CPU_time > 0, f"{name}: CPU time of the constraints is not counted")
    require(p.CPU_time == t0, f"{name}: CPU time counted on another instance")
    equal(np.array(p.objective(x)), f0, f"{name}: objectives after using another instance")
    equal(cls(**kw).objective(x), f0, f"{name}: objectives of a second instance")
    equal(p.xl, lo, f"{name}: xl after building another instance")


@st.composite
def wfg_case(draw):
    opt = lambda lo, hi: st.one_of(st.none(), st.integers(lo, hi))  # noqa: E731
    return dict(name=f"WFG{draw(st.integers(1, 9))}", n=draw(st.integers(1, 16)), M=draw(st.integers(0, 5)),
                k=draw(opt(-1, 13)), l=draw(opt(-1, 13)))


@sub("C22", "wfg_parameters", wfg_case(), 600, 8000, "all combinations of variables, objectives, position and distance parameters; "
     "non-trivial: accepted")
def wfg_parameters(c, ev):
    n, M = c["n"], c["M"]
    k = c["k"] if c["k"] is not None else 4 if M == 2 else 2 * (M - 1)
    l = c["l"] if c["l"] is not None else n - k
    ok = M >= 2 and k >= 4 and k % (M - 1) == 0 and k + l == n and l >= 1 and n >= M
    ok = ok and not (c["name"] in ("WFG2", "WFG3") and l % 2)
    try:
        p = ref_problems.cls(c["name"])(n_var=n, n_obj=M, k=c["k"], l=c["l"])
    except ValueError:
        require(not ok, f"{c} rejected")
        return
    require(ok, f"{c} accepted")
    ev.nontrivial()
    require((p.n_var, p.n_obj) == (n, M), f"{c}: {p.n_var} variables, {p.n_obj} objectives")
    equal(p.xu, 2.0 * np.arange(1, n + 1), f"{c}: upper bound")


@sub("C22", "dtlz_default_size", st.fixed_dictionaries(dict(name=st.sampled_from([n for n in NATIVE if "DTLZ" in n and n[:3] != "Eq1"]),
                                                           M=st.integers(1, 8))), 60, 300,
     "DTLZ problems without a number of variables; non-trivial: all")
def dtlz_default_size(c, ev):
    ev.nontrivial()
    p = ref_problems.cls(c["name"])(n_var=None, n_obj=c["M"])
    require((p.n_var, p.n_obj) == (c["M"] + 8, c["M"]), f"{c}: {p.n_var} variables, {p.n_obj} objectives")
