"""C21: Pareto fronts and sets."""
import inspect

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref_fronts, ref_problems
from pbt.core import Violation, arr, equal, require, sub

FAMILIES = {
    "zdt": ["ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6", "DENT"],
    "dtlz": [f"DTLZ{k}" for k in range(1, 8)],
    "idtlz": [f"IDTLZ{k}" for k in range(1, 5)],
    "eqdtlz": [f"Eq1{i}DTLZ{k}" for i in ("", "I") for k in range(1, 5)],
    "uf": [f"UF{k}" for k in range(1, 11)],
    "cf": [f"CF{k}" for k in range(1, 11)],
    "wfg": [f"WFG{k}" for k in range(1, 10)],
    "conv": ["CONV3", "CONV4", "CONV4_2F"],
}
NO_FRONT = {"DTLZ5", "DTLZ6", "DTLZ7"}  # read from the network
COUNTED = {"ZDT1", "ZDT2", "ZDT4", "ZDT6", "DENT", "UF1", "UF2", "UF3", "UF4", "UF7", "CF4", "CF5", "CF6", "CF7", "CONV3",
           "CONV4", "CONV4_2F"}
# where the front lies, in terms of its first objective (isolated points left out)
CURVES = {"ZDT3": [[0, 0.0830015349], [0.182228780, 0.2577623634], [0.4093136748, 0.4538821041],
                   [0.6183967944, 0.6525117038], [0.8233317983, 0.8518328654]],
          "ZDT6": [[0.2807753191, 1]], "UF6": [[0.25, 0.5], [0.75, 1]], "CF2": [[1 / 16, 1 / 4], [9 / 16, 1]],
          "CF3": [[0.5, 0.5**0.5], [0.75**0.5, 1]]}
for _n in ("ZDT1", "ZDT2", "ZDT4", "UF1", "UF2", "UF3", "UF4", "UF7", "CF4", "CF5", "CF6", "CF7"):
    CURVES[_n] = [[0, 1]]


@st.composite
def cases(draw, names):
    name = draw(st.sampled_from(names))
    s = ref_problems.SPECS[name]
    n, M = draw(st.sampled_from(s.nvars)), draw(st.sampled_from(s.nobjs))
    if name.startswith("WFG") and (n <= (4 if M == 2 else 2 * (M - 1)) or n < M):
        n = 10
    if "DTLZ" in name and n < M:
        n = M + 3
    return dict(name=name, n=n, M=M, size=draw(st.integers(10, 300)), seed=draw(st.integers(0, 2**31 - 1)),
                pick=draw(st.lists(st.integers(0, 10**6), min_size=12, max_size=12)),
                steps=draw(st.lists(st.tuples(gen.grid(-1.0, 1.0, 200), st.integers(0, 5), st.integers(0, 60)),
                                    min_size=30, max_size=30)))


def size_args(method, size):
    """the size is called differently, and some fronts have a fixed size"""
    par = [p for p in inspect.signature(method).parameters if p in ("N", "n", "n_pareto_points", "n_points")]
    return {par[0]: size} if par else {}


def batch(fun, X):
    """the rows of a population, in populations of a few sizes only: every size is compiled anew"""
    n = len(X)
    size = 32 if n <= 32 else 512 * -(-n // 512)
    Z = np.concatenate([X, np.repeat(X[:1], size - n, axis=0)])
    return np.array(fun(Z), dtype=float).reshape(size, -1)[:n]


def constraints(p, X):
    G = np.zeros((len(X), 0))
    H = np.zeros((len(X), 0))
    if getattr(p, "n_ieq_constr", 0):
        G = batch(p.ieq_constraint_batch, X)
    if getattr(p, "n_eq_constr", 0):
        H = batch(p.eq_constraint_batch, X)
    return G, H


def some(A, c, most=700):
    """all points, or a sample of many"""
    return A if len(A) <= most else A[np.sort(np.random.default_rng(c["seed"]).choice(len(A), most, replace=False))]


def slack(name, F):
    if name == "ZDT6":
        return 0.02
    if name in ("ZDT1", "ZDT3", "ZDT4") and F[0] < 1e-6:
        return 2e-6
    return 1e-7


def in_box(p, X, what):
    lo, hi = np.asarray(p.xl), np.asarray(p.xu)
    require(np.all(np.isfinite(X)) and np.all(X >= lo - 1e-12) and np.all(X <= hi + 1e-12), f"{what} leaves the box")
    return np.clip(X, lo, hi)


def feasible(p, name, X, F, what):
    G, H = constraints(p, X)
    for x, f, g, h in zip(X, F, G, H):
        tol = 1e-7
        if name in ("CF8", "CF9", "CF10"):
            if 1 - f[2] ** 2 < 1e-4:
                continue
            tol /= 1 - f[2] ** 2
        require(np.all(g <= tol) and np.all(np.abs(h) <= 1e-6),
                f"{what}: {x.tolist()} is infeasible, inequality {g.tolist()}, equality {h.tolist()}")


def no_domination(A, B, what, key=None, margin=1e-5):
    for i in range(0, len(A), 500):
        D = np.all(A[i : i + 500, None] < B[None] - margin, axis=2)
        if D.any():
            a, b = np.argwhere(D)[0]
            raise Violation(f"{what}: {B[b].tolist()} is dominated by {A[i + a].tolist()}", key=key)


def attackers(p, X, c):
    """decisions near optimal ones, and decisions with the distance variables moved"""
    lo, hi = np.asarray(p.xl, float), np.asarray(p.xu, float)
    out = []
    for i, (d, scale, where) in enumerate(c["steps"]):
        x = X[c["pick"][i % len(c["pick"])] % len(X)].copy()
        k = where % (len(x) + 2)
        if "Eq1" in c["name"]:  # the constraint allows moving the distance variables only
            first = c["M"] - 1
            k = first + where % (len(x) - first + 1)
        step = d * 10.0**-scale
        if k < len(x):
            x[k] += step * (hi - lo)[k]
        else:
            first = min(c["M"] - 1, len(x) - 1)
            x[first:] += step * (hi - lo)[first:]
        out.append(np.clip(x, lo, hi))
    return np.array(out)


def check(c, ev):
    name, n, M = c["name"], c["n"], c["M"]
    p = ref_problems.make(name, n, M)
    ev.label(name)
    X, fronts = [], []
    known = f"{name}-dominated"
    if hasattr(p, "get_pareto_set"):
        kw = size_args(p.get_pareto_set, c["size"])
        np.random.seed(c["seed"] % 2**32)
        S = arr(p.get_pareto_set(**kw))
        require(S.ndim == 2 and S.shape[1] == n and len(S) > 0, f"{name}: Pareto set of shape {S.shape}")
        if not name.startswith("WFG"):
            require(len(S) == c["size"], f"{name}: {len(S)} Pareto-optimal decisions, not {c['size']}")
        S = in_box(p, some(S, c), f"{name}: Pareto set")
        F = batch(p.objective_batch, S)
        feasible(p, name, S, F, f"{name}: Pareto set")
        if name in ref_fronts.PRE:
            Q = np.clip(np.array([ref_fronts.PRE[name](f, n) for f in F]), p.xl, p.xu)
            for x, f, g in zip(S, F, batch(p.objective_batch, Q)):
                t = slack(name, f)
                if "DTLZ4" in name:
                    t = 1e-5
                require(np.all(np.abs(f - g) <= t), f"{name}: the optimal decision {x.tolist()} maps to {f.tolist()}, off the front at {g.tolist()}")
        if name[:3] == "WFG" and name[3] in "456789":
            r = (F / (2.0 * np.arange(1, M + 1))) ** 2
            require(np.all(np.abs(r.sum(1) - 1) < 1e-6), f"{name}: optimal decisions off the front: {F.tolist()}")
        if name == "DTLZ5":
            require(np.all(np.abs((F**2).sum(1) - 1) < 1e-9), f"{name}: optimal decisions off the front: {F.tolist()}")
        X.append(S)
        fronts.append(F)
    if name not in NO_FRONT:
        kw = size_args(p.get_pareto_front, c["size"])
        np.random.seed(c["seed"] % 2**32)
        W = arr(p.get_pareto_front(**kw))
        require(W.ndim == 2 and W.shape[1] == M and len(W) > 0 and np.all(np.isfinite(W)), f"{name}: front of shape {W.shape}")
        if name in COUNTED:
            require(len(W) == c["size"], f"{name}: front of {len(W)} points, not {c['size']}")
        for lo, hi in CURVES.get(name, []):
            gap = 1.001 * (0.0835 / (c["size"] // 5 - 1) if name == "ZDT3" else 1.0 / (c["size"] - 1)) if c["size"] >= 10 else 1.0
            f = np.sort(W[(W[:, 0] >= lo - 1e-9) & (W[:, 0] <= hi + 1e-9), 0])
            if hi - lo <= 2 * gap and name != "ZDT3":
                continue
            f = np.r_[lo - gap if len(f) == 0 else f[0], f, hi]
            require(f[0] <= lo + gap and np.max(np.diff(f)) <= gap, f"{name}: front leaves a gap within [{lo}, {hi}]: {f.tolist()}")
        F = some(W, c)
        if name in ref_fronts.PRE:
            Q = in_box(p, np.array([ref_fronts.PRE[name](f, n) for f in F]), f"{name}: the optimum behind a front point")
            for f, g in zip(F, batch(p.objective_batch, Q)):
                t = 1e-6 if "DTLZ4" in name else slack(name, f)
                require(np.all(np.abs(f - g) <= t), f"{name}: front point {f.tolist()} is not attained, best {g.tolist()}")
            if "Eq1" not in name or "DTLZ4" not in name:  # a vanishing cosine loses the position there
                feasible(p, name, Q, F, f"{name}: decision behind a front point")
            X.append(Q)
        if not name.startswith("WFG"):  # WFG4 maps all the corners, which come first, to one point
            require(len(np.unique(W, axis=0)) > 1, f"{name}: front of a single point")
        fronts.append(F)
    P = np.concatenate(fronts)
    no_domination(P, P, f"{name}(n_var={n}, n_obj={M}): reported points", margin=0.03 if name == "ZDT6" else 1e-5)
    ev.nontrivial(len(P) > 3)
    X = np.concatenate(X) if X else in_box(p, np.zeros((1, n)), "origin")
    A = attackers(p, X, c)
    G, H = constraints(p, A)
    ok = np.all(G <= 0, axis=1) & np.all(np.abs(H) <= 1e-9, axis=1)
    if name == "WFG1":  # rounding is visible there
        ok &= False
    if ok.any():
        no_domination(batch(p.objective_batch, A)[ok], P, f"{name}(n_var={n}, n_obj={M}): reported points", known)
        ev.label("attacked")


RULE = "dimensions, sizes and picked points of {}; non-trivial: more than three points compared"
for _f, _names in FAMILIES.items():
    sub("C21", f"fronts_{_f}", cases(_names), 150, 2500, RULE.format(", ".join(_names)))(check)


@st.composite
def large(draw, names):
    c = draw(cases(names))
    s = ref_problems.SPECS[c["name"]]
    if not s.fixed:
        M = draw(st.integers(2, 5)) if len(s.nobjs) > 1 else c["M"]
        n = draw(st.integers(5, 26))
        if c["name"].startswith("WFG"):
            k = 4 if M == 2 else 2 * (M - 1)
            n = max(n, k + 2)
            n += (n - k) % 2
        elif "DTLZ" in c["name"]:
            n = max(n, M)
        c.update(n=n, M=M)
    return c


for _i, _names in enumerate((["ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6"] + FAMILIES["uf"] + FAMILIES["cf"],
                             FAMILIES["dtlz"] + FAMILIES["idtlz"] + FAMILIES["eqdtlz"], FAMILIES["wfg"])):
    sub("C21", f"sizes_{_i}", large(_names), 40, 700, "any number of variables up to 26 and of objectives up to 5; " +
        RULE.format(", ".join(_names)))(check)


@sub("C21", "repeatable", cases([n for ns in FAMILIES.values() for n in ns if n not in NO_FRONT]), 100, 1500,
     "deterministic fronts and sets do not change between calls or by changing a returned array; non-trivial: a front without "
     "random sampling")
def repeatable(c, ev):
    p = ref_problems.make(c["name"], c["n"], c["M"])
    random = c["name"] in ("CF9", "CF10", "CONV3", "CONV4", "CONV4_2F") or c["name"].startswith(("WFG", "Eq1"))
    kw = size_args(p.get_pareto_front, c["size"])
    first = None
    for _ in range(2):
        if random:
            np.random.seed(c["seed"] % 2**32)
        F = p.get_pareto_front(**kw)
        if first is None:
            first = np.array(F)
            if isinstance(F, np.ndarray) and F.flags.writeable:
                F[:] = 17.0
        else:
            equal(np.array(F), first, f"{c['name']}: front of a second call")
    ev.nontrivial(not random)


def inverted(tier):
    return [dict(name=f"{e}IDTLZ{k}", M=M, seed=s) for e in ("", "Eq1") for k in (1, 2, 3, 4) for M in (2, 3, 4)
            for s in range(2 if tier == "quick" else 30)]


@sub("C21", "dominated_inverted", inverted, 48, 720, "the front of every inverted DTLZ problem in 2..4 objectives against 2000 feasible "
     "decisions of all sizes of g; non-trivial: all", enum=True)
def dominated_inverted(c, ev):
    name, M = c["name"], c["M"]
    n = M + 5
    p = ref_problems.make(name, n, M)
    np.random.seed(c["seed"])
    X = np.array(p.get_pareto_set(N=2000))
    F = np.array(p.objective_batch(X), dtype=float)
    Y = np.array(p.get_pareto_set(N=2000))
    size = np.random.choice([0.5, 0.1, 0.01, 0.001], (2000, 1)) * np.random.rand(2000, 1)
    Y[:, M - 1:] = np.clip(0.5 + size * np.random.choice([-1, 0, 1], (2000, n - M + 1)), 0, 1)
    G, H = constraints(p, Y)
    ok = np.all(G <= 0, axis=1) & np.all(np.abs(H) <= 1e-9, axis=1)
    require(ok.any(), f"{name}: no decision of the Pareto set is feasible with its distance variables moved")
    ev.nontrivial()
    no_domination(np.array(p.objective_batch(Y), dtype=float)[ok], F, f"{name}(n_var={n}, n_obj={M}): reported points", f"{name}-dominated")
