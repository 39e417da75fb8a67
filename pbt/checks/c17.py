"""C17: Lara's descent method, iteration by iteration."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.checks.c14 import Lagrange, build, common_checks, drawn_starts, finish_run, metrics, problems, start_without_points
from pbt.core import close, equal, require, sub


@st.composite
def cases(draw):
    c = draw(problems(nmax=5, constrained=False))
    c["lo"] = draw(st.sampled_from([-1.0, -1.0, -2.0, -20.0]))
    c["hi"] = draw(st.sampled_from([1.0, 1.0, 1.5, 20.0]))
    c["iters"] = draw(st.integers(0, 6))
    c["scale"] = draw(st.sampled_from([1.0, 1.0, 2.0]))
    c["dup"] = draw(st.sampled_from(["no", "no", "exact", "near", "objective"]))
    c["flat"] = draw(st.integers(0, 3)) == 0
    c["pin"] = draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 2), st.integers(0, 1)), max_size=3))
    c["scalar"] = draw(st.booleans())
    return c


def start(c):
    X = np.array(c["X"]) * c["scale"]
    for i, k, side in c["pin"]:
        if i < len(X) and k < c["nv"]:
            X[i, k] = [c["lo"], c["hi"]][side]
    if c["dup"] == "exact":
        X = np.r_[X, X[:1]]
    elif c["dup"] == "near":
        X = np.r_[X, X[:1] + 1e-10]
    return X


def lara(c, f, cb, X0, **kw):
    from hvd.gradient_based import Lara

    lo, hi = (c["lo"], c["hi"]) if c["scalar"] else (np.full(c["nv"], c["lo"]), np.full(c["nv"], c["hi"]))
    return Lara(c["nv"], c["m"], cb["func"], cb["jac"], lo, hi, N=len(X0), X0=X0, verbose=False, **kw)


def problem(c):
    if c["flat"]:  # an objective that does not change with the decision
        c = dict(c, f=dict(c["f"], A=[[0.0] * c["nv"]] + c["f"]["A"][1:],
                           Q=None if c["f"]["Q"] is None else [[[0.0] * c["nv"]] * c["nv"]] + c["f"]["Q"][1:],
                           T=None if c["f"].get("T") is None else [[0.0] * c["nv"]] + c["f"]["T"][1:]))
    return c, build(c)


def expected(c, f, X):
    keep = [i for i in range(len(X)) if not any(np.linalg.norm(X[i] - X[j]) <= 1e-8 for j in range(i))]
    X = X[keep]
    D = np.zeros(X.shape)
    for i, x in enumerate(X):
        for g in f.jac(x):
            n = np.linalg.norm(g)
            if 0 < n < 1e-9:
                return None, X
            if n > 0:
                D[i] -= g / n
    lo, hi = X - c["lo"], c["hi"] - X
    near = np.minimum(lo, hi)
    if np.any((near > 1e-12) & (near < 1e-8)):
        return None, X
    D[(lo <= 1e-12) & (D < 0)] = 0.0
    D[(hi <= 1e-12) & (D > 0)] = 0.0
    s = 1.0
    for x, d in zip(X, D):
        for k in range(c["nv"]):
            if d[k] < 0:
                s = min(s, (x[k] - c["lo"]) / -d[k])
            elif d[k] > 0:
                s = min(s, (c["hi"] - x[k]) / d[k])
    return X + s * D, X


@sub("C17", "steps", cases(), 1500, 15000,
     "populations of quadratic and linear problems, with duplicates, points on the box and vanishing gradients; "
     "non-trivial: at least two points and two iterations")
def steps(c, ev):
    c, (f, h, g, cb) = problem(c)
    X0 = start(c)
    src = X0.copy()
    o = lara(c, f, cb, src)
    close(o.state.primal, np.clip(X0, c["lo"], c["hi"]), 0.0, "starting points moved into the box")
    for t in range(c["iters"]):
        X = np.array(o.state.primal)
        want, kept = expected(c, f, X)
        D = np.linalg.norm(kept[:, None] - kept[None], axis=-1) + np.eye(len(kept))
        if D.min() < 1e-7 or (len(kept) < len(X) and np.any(np.abs(np.linalg.norm(X[:, None] - X[None], axis=-1) - 1e-8) < 5e-9)):
            return ev.label("points closer than the duplicate tolerance")
        o.iteration()
        o.log()
        P = np.asarray(o.state.primal)
        require(o.iter_count == t + 1, f"iteration counter {o.iter_count} after {t + 1} iterations")
        require(P.shape == kept.shape, f"{P.shape} points, {kept.shape} distinct ones")
        require(np.all(P >= c["lo"] - 1e-9) and np.all(P <= c["hi"] + 1e-9), f"left the box: {P.tolist()}")
        common_checks(o, f, c, X0, ev)
        if len(kept) < len(X):
            ev.label("duplicates removed")
        if c["flat"]:
            ev.label("vanishing gradient")
        if np.any((kept <= c["lo"] + 1e-12) | (kept >= c["hi"] - 1e-12)):
            ev.label("at the boundary")
        if want is None:
            ev.label("no reference step")
            continue
        close(P, want, 1e-9, f"decisions after iteration {t}")
        ev.nontrivial(t > 0 and len(kept) > 1)
    equal(src, X0, "the caller's starting points")


@sub("C17", "runs", cases(), 500, 5000, "whole runs, twice; non-trivial: at least two iterations of several points")
def runs(c, ev):
    c, (f, h, g, cb) = problem(c)
    X0 = start(c)
    out = []
    for _ in range(2):
        o = lara(c, f, cb, X0.copy(), max_iters=c["iters"], metrics=metrics())
        pair = o.run()
        finish_run(o, c, c["iters"], f, pair)
        require(np.all(pair[0] >= c["lo"] - 1e-9) and np.all(pair[0] <= c["hi"] + 1e-9), "left the box")
        out.append(pair)
    equal(out[0][0], out[1][0], "a second run from the same start")
    ev.nontrivial(c["iters"] > 1 and len(X0) > 1)


@sub("C17", "descent", cases(), 500, 5000,
     "two objectives: a small enough multiple of the step improves both unless their gradients are opposed; non-trivial: "
     "an interior point with both gradients present")
def descent(c, ev):
    c, (f, h, g, cb) = problem(c)
    X0 = np.clip(start(c), c["lo"], c["hi"])[:1]
    if np.any(X0 <= c["lo"] + 1e-6) or np.any(X0 >= c["hi"] - 1e-6) or c["m"] != 2:
        return
    J = f.jac(X0[0])
    n = np.linalg.norm(J, axis=1)
    if n.min() < 1e-3 or (J[0] / n[0]) @ (J[1] / n[1]) < -0.99:
        return
    o = lara(c, f, cb, X0.copy(), max_iters=1)
    o.iteration()
    d = np.asarray(o.state.primal)[0] - X0[0]
    require(np.linalg.norm(d) > 0, "no move")
    ev.nontrivial()
    require(np.all(J @ d < 0), f"the step {d} does not descend in both objectives: slopes {J @ d}")


@sub("C17", "drawn_start", drawn_starts(constrained=False), 300, 3000,
     "no starting points given; non-trivial: more than one point")
def drawn_start(c, ev):
    from hvd.gradient_based import Lara

    f, h, g, cb = build(c)
    start_without_points(lambda n, lo, hi: Lara(c["nv"], c["m"], cb["func"], cb["jac"], lo, hi, N=n, verbose=False),
                         c, f, cb, Lagrange(c, f, h, g), 0.0, ev)
