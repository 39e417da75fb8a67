"""C06: (inverted) generational distance: values and derivatives."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import arr, close, require, sub
from pbt.maps import Quadratic, moved, quadratic


@st.composite
def cases(draw, square=False, hessians=True):
    m, nv, n = draw(st.integers(2, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 6))
    M = n if square else draw(st.integers(1, 8))
    e = gen.grid(-2.0, 2.0, 400)
    return dict(q=draw(quadratic(m, nv)), X=draw(gen.mat(gen.grid(-1.0, 1.0, 200), n, nv)), R=draw(gen.mat(e, M, m)),
                p=draw(st.sampled_from([2, 2, 1, 3, 4, 1.5, 2.5, 6])), on=draw(st.integers(0, 5)) == 0,
                given=draw(st.integers(0, 3)), parts=draw(st.integers(1, 2)))


def setup(c, ev):
    q, X, R = Quadratic(c["q"]), np.array(c["X"]), np.array(c["R"])
    Y = np.array([q.f(x) for x in X])
    if c["on"]:
        R[0] = Y[0]
    D = np.sqrt(((Y[:, None] - R[None]) ** 2).sum(-1))
    kw = {}
    if c["given"] & 1:
        kw["Y"] = Y.copy()
    if c["given"] & 2:
        kw["Jacobian"] = np.array([q.jac(x) for x in X])
    ev.label(f"p={c['p']}", f"given={sorted(kw)}")
    return q, X, Y, R, D, kw


def refset(R, parts):
    from hvd.reference_set import ReferenceSet

    if parts == 1 or len(R) < 4:
        return R.copy()
    h = len(R) // 2
    return ReferenceSet({0: R[:h].copy(), 1: R[h:].copy()})


def tie(D, axis):
    if D.shape[axis] < 2:
        return False
    s = np.sort(D, axis=axis)
    return bool(np.any(np.abs(np.take(s, 1, axis) - np.take(s, 0, axis)) < 1e-7))


RULE = ("random approximation and reference sets through a quadratic map, several exponents, sometimes a point on its "
        "reference point; non-trivial: at least two approximation points with different nearest reference points")


@sub("C06", "gd", cases(), 900, 12000, RULE)
def gd(c, ev):
    from hvd import GenerationalDistance

    q, X, Y, R, D, kw = setup(c, ev)
    p, N = c["p"], len(X)
    ind = GenerationalDistance(refset(R, c["parts"]), q.f, q.jac, q.hess, p=p)
    want = np.mean(D.min(1) ** p) ** (1 / p)
    close(ind.compute(Y=Y.copy()), want, 1e-10, "GD from Y", shape=False)
    close(ind.compute(X=X.copy()), want, 1e-10, "GD from X", shape=False)
    ev.nontrivial(len(set(D.argmin(1))) > 1)
    if tie(D, 1):
        return ev.label("equidistant reference points: no derivative")
    j = D.argmin(1)
    if p < 2 and D.min() < 1e-9 or 2 < p and 0 < D.min() < 1e-6:
        return ev.label("on a reference point with p<2: no derivative")
    G, H = np.zeros(X.shape), np.zeros((N, X.shape[1], X.shape[1]))
    for i, x in enumerate(X):
        d = Y[i] - R[j[i]]
        r = D[i, j[i]]
        gy = p * (r ** (p - 2) if p != 2 else 1.0) * d
        hy = p * (r ** (p - 2) if p != 2 else 1.0) * np.eye(len(d))
        if r > 0 and p != 2:
            hy = hy + p * (p - 2) * r ** (p - 4) * np.outer(d, d)
        J = q.jac(x)
        G[i] = J.T @ gy / N
        H[i] = (J.T @ hy @ J + np.einsum("k,kab->ab", gy, q.hess(x))) / N
    close(ind.compute_derivatives(X.copy(), compute_hessian=False, **kw), G, 1e-9, "GD^p gradient")
    out = ind.compute_derivatives(X.copy(), compute_hessian=True, **kw)
    require(isinstance(out, tuple) and len(out) == 2, "expected a (gradient, Hessian) pair")
    close(out[0], G, 1e-9, "GD^p gradient (with the Hessian)")
    close(out[1], H, 1e-8, "GD^p Hessian", key="gd-hessian")


@sub("C06", "igd", cases(), 900, 12000, RULE)
def igd(c, ev):
    from hvd import InvertedGenerationalDistance

    q, X, Y, R, D, kw = setup(c, ev)
    N, M, p = len(X), len(R), c["p"]
    ind = InvertedGenerationalDistance(refset(R, c["parts"]), q.f, q.jac, q.hess, p=p)
    want = np.mean(D.min(0) ** p) ** (1 / p)
    close(ind.compute(Y=Y.copy()), want, 1e-10, "IGD from Y", shape=False)
    close(ind.compute(X=X.copy()), want, 1e-10, "IGD from X", shape=False)
    near = D.argmin(0)
    ev.nontrivial(len(set(near)) > 1)
    if len(set(near)) < N:
        ev.label("a point that is nearest to no reference point")
    if p != 2 or tie(D, 0):
        return ev.label("derivatives not checked (p != 2 or equidistant points)")
    G, H = np.zeros(X.shape), np.zeros((N, X.shape[1], X.shape[1]))
    for r, i in enumerate(near):
        J, d = q.jac(X[i]), Y[i] - R[r]
        G[i] += 2 / M * J.T @ d
        H[i] += 2 / M * (J.T @ J + np.einsum("k,kab->ab", d, q.hess(X[i])))
    close(ind.compute_derivatives(X.copy(), compute_hessian=False, **kw), G, 1e-9, "IGD^2 gradient")
    out = ind.compute_derivatives(X.copy(), compute_hessian=True, **kw)
    require(isinstance(out, tuple) and len(out) == 2, "expected a (gradient, Hessian) pair")
    close(out[0], G, 1e-9, "IGD^2 gradient (with the Hessian)")
    close(out[1], H, 1e-9, "IGD^2 Hessian")


@sub("C06", "igd_matched", cases(square=True), 500, 6000,
     "as many reference as approximation points, optimal assignment by enumeration; non-trivial: the assignment is not "
     "the nearest-neighbour map")
def igd_matched(c, ev):
    from hvd import InvertedGenerationalDistance
    from hvd.reference_set import ReferenceSet

    q, X, Y, R, D, kw = setup(c, ev)
    N = len(X)
    costs = sorted((sum(D[i, s[i]] for i in range(N)), s) for s in itertools.permutations(range(N)))
    if len(costs) > 1 and costs[1][0] - costs[0][0] < 1e-9:
        return ev.label("two optimal assignments: not checked")
    T = R[list(costs[0][1])]
    ev.nontrivial(len(set(D.argmin(1))) < N)
    new = lambda: InvertedGenerationalDistance(  # noqa: E731
        ReferenceSet(R.copy()) if c["parts"] == 2 else R.copy(), q.f, q.jac, q.hess, matching=True)
    ind = new()
    sq = ((Y - T) ** 2).sum(1)
    close(ind.compute(Y=Y.copy()), sq.mean(), 1e-10, "matched IGD from Y", shape=False)
    close(new().compute(X=X.copy()), sq.mean(), 1e-10, "matched IGD from X", shape=False)
    G, H = np.zeros(X.shape), np.zeros((N, X.shape[1], X.shape[1]))
    for i, x in enumerate(X):
        J, d = q.jac(x), Y[i] - T[i]
        G[i] = 2 * J.T @ d
        H[i] = 2 * (J.T @ J + np.einsum("k,kab->ab", d, q.hess(x)))
    for obj, what in ((ind, "after a value"), (new(), "on a fresh indicator")):
        close(obj.compute_derivatives(X.copy(), compute_hessian=False, **kw), G, 1e-9, f"matched gradient {what}")
        out = obj.compute_derivatives(X.copy(), compute_hessian=True, **kw)
        close(out[0], G, 1e-9, f"matched gradient (with the Hessian) {what}")
        close(out[1], H, 1e-9, f"matched Hessian {what}")


@st.composite
def fd_cases(draw):
    c = draw(cases())
    c["igd"] = draw(st.booleans())
    return c


@sub("C06", "difference_quotients", fd_cases(), 250, 3000,
     "the derivative of the indicator's own value to the p-th power, by central differences; " + RULE)
def difference_quotients(c, ev):
    from hvd import GenerationalDistance, InvertedGenerationalDistance

    q, X, Y, R, D, kw = setup(c, ev)
    p = 2 if c["igd"] else c["p"]
    axis = 0 if c["igd"] else 1
    s = np.sort(D, axis=axis)
    if D.shape[axis] > 1 and np.min(np.take(s, 1, axis) - np.take(s, 0, axis)) < 1e-3 or D.min() < 1e-2:
        return ev.label("too close to a kink: not checked")
    ev.nontrivial(len(set(D.argmin(axis))) > 1)
    cls = InvertedGenerationalDistance if c["igd"] else GenerationalDistance
    ind = cls(R.copy(), q.f, q.jac, q.hess, p=p)
    g, H = ind.compute_derivatives(X.copy())
    h = 1e-5
    for i in range(X.shape[0]):
        for k in range(X.shape[1]):
            A, B = X.copy(), X.copy()
            A[i, k] += h
            B[i, k] -= h
            fd = (ind.compute(X=A) ** p - ind.compute(X=B) ** p) / (2 * h)
            close(arr(g, X.shape)[i, k], fd, 1e-5, f"gradient entry ({i},{k}) versus differences", scale=1 + D.max() ** p)
            fg = (ind.compute_derivatives(A, compute_hessian=False) - ind.compute_derivatives(B, compute_hessian=False))
            close(arr(H)[i, k], fg[i] / (2 * h), 1e-4, "Hessian row versus gradient differences", scale=1 + D.max() ** p)


def gd_reference(q, X, R, p):
    """value, gradient and Hessian of GD^p; derivatives None at ties"""
    Y = np.array([q.f(x) for x in X])
    D = np.sqrt(((Y[:, None] - R[None]) ** 2).sum(-1))
    value = np.mean(D.min(1) ** p) ** (1 / p)
    if tie(D, 1) or D.min() < 1e-6:
        return value, None, None
    G, H = [], []
    for i, x in enumerate(X):
        j = D[i].argmin()
        d, r, J = Y[i] - R[j], D[i, j], q.jac(x)
        gy = p * r ** (p - 2) * d
        hy = p * r ** (p - 2) * np.eye(len(d)) + p * (p - 2) * r ** (p - 4) * np.outer(d, d)
        G.append(J.T @ gy / len(X))
        H.append((J.T @ hy @ J + np.einsum("k,kab->ab", gy, q.hess(x))) / len(X))
    return value, np.array(G), np.array(H)


def igd_reference(q, X, R, p):
    Y = np.array([q.f(x) for x in X])
    D = np.sqrt(((Y[:, None] - R[None]) ** 2).sum(-1))
    value = np.mean(D.min(0) ** p) ** (1 / p)
    if p != 2 or tie(D, 0):
        return value, None, None
    G, H = np.zeros(X.shape), np.zeros((len(X), X.shape[1], X.shape[1]))
    for r, i in enumerate(D.argmin(0)):
        J, d = q.jac(X[i]), Y[i] - R[r]
        G[i] += 2 / len(R) * J.T @ d
        H[i] += 2 / len(R) * (J.T @ J + np.einsum("k,kab->ab", d, q.hess(X[i])))
    return value, G, H


@st.composite
def cloud_cases(draw):
    m, nv = draw(st.integers(2, 4)), draw(st.integers(1, 3))
    n, M = draw(st.integers(2, 60)), draw(st.integers(2, 120))
    kinds = ("uniform", "front", "sphere")
    return dict(q=draw(quadratic(m, nv)), X=draw(gen.cloud(n, nv, kinds, -1.0, 1.0)), R=draw(gen.cloud(M, m, kinds, -1.0, 2.0)),
                p=draw(st.sampled_from([2, 2, 1, 3, 5])), at=draw(st.sampled_from([0.0, 0.0, 50.0, -1e3, 1e5])),
                unit=draw(st.sampled_from([1.0, 1.0, 1e-2, 1e2])), parts=draw(st.integers(1, 2)))


@sub("C06", "clouds", cloud_cases(), 120, 2500,
     "up to 60 approximation and 120 reference points, up to 1e5 away from the origin, in units of 0.01 to 100; "
     "non-trivial: at least two distinct nearest points")
def clouds(c, ev):
    from hvd import GenerationalDistance, InvertedGenerationalDistance

    u, at, p = c["unit"], c["at"], c["p"]
    q, X, R = Quadratic(moved(c["q"], at, u)), np.array(c["X"]), u * np.array(c["R"]) + at
    ev.label(f"at {at}", f"unit {u}", "N > 20" if len(X) > 20 else "N <= 20", "M > 50" if len(R) > 50 else "M <= 50")
    for cls, ref, tag in ((GenerationalDistance, gd_reference, "GD"), (InvertedGenerationalDistance, igd_reference, "IGD")):
        v, G, H = ref(q, X, R, p)
        ind = cls(refset(R, c["parts"]), q.f, q.jac, q.hess, p=p)
        Y = np.array([q.f(x) for x in X])
        tol = 1e-8
        close(ind.compute(Y=Y), v, tol, f"{tag} from Y", shape=False, unit=u)
        close(ind.compute(X=X.copy()), v, tol, f"{tag} from X", shape=False, unit=u)
        if G is None:
            ev.label(f"{tag}: no derivative")
            continue
        ev.nontrivial()
        g, h = ind.compute_derivatives(X.copy())
        close(g, G, tol, f"{tag} gradient", unit=u**p * 8)
        close(h, H, tol, f"{tag} Hessian", unit=u**p * 8)


@st.composite
def history_cases(draw):
    m, nv, n = draw(st.integers(2, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 5))
    row = gen.vec(gen.grid(-1.0, 1.0, 200), nv)
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(["new", "write", "write", "same", "shift", "reference", "size", "p", "match"]))
        if k == "new":
            ops.append([k, draw(gen.mat(gen.grid(-1.0, 1.0, 200), n, nv))])
        elif k == "size":
            n = draw(st.integers(1, 6))
            ops.append(["new", draw(gen.mat(gen.grid(-1.0, 1.0, 200), n, nv))])
        elif k == "write":
            ops.append([k, draw(st.integers(0, n - 1)), draw(row)])
        elif k == "shift":
            ops.append([k, draw(st.sampled_from([0.05, 0.5, -0.2]))])
        elif k == "reference":
            ops.append([k, draw(st.integers(0, 999)), draw(st.integers(1, 8))])
        elif k == "match":
            ops.append([k, draw(st.integers(1, 6))])
        elif k == "p":
            ops.append([k, draw(st.sampled_from([1, 2, 3]))])
        else:
            ops.append([k])
        ops[-1].append(draw(st.sampled_from(["value", "gradient", "hessian", "value X"])))
    return dict(q=draw(quadratic(m, nv)), X=draw(gen.mat(gen.grid(-1.0, 1.0, 200), len(ops) and n, nv)),
                R=draw(gen.mat(gen.grid(-2.0, 2.0, 400), draw(st.integers(2, 6)), m)), ops=ops, p=2)


@sub("C06", "histories", history_cases(), 500, 6000,
     "one indicator used again on the same arrays after they were written to, on populations of another size, after the "
     "reference set was shifted, matched to points or replaced by one of any size, and with another exponent; non-trivial: a value or "
     "derivative after such a change")
def histories(c, ev):
    from hvd import GenerationalDistance, InvertedGenerationalDistance
    from hvd.reference_set import ReferenceSet

    q, R, p = Quadratic(c["q"]), np.array(c["R"]), c["p"]
    for cls, ref, tag in ((GenerationalDistance, gd_reference, "GD"), (InvertedGenerationalDistance, igd_reference, "IGD")):
        X, p, R = np.array(c["X"]), c["p"], np.array(c["R"])
        ind = cls(ReferenceSet(R.copy()), q.f, q.jac, q.hess, p=p)
        eta = np.array(ind.ref.eta[0])
        Y = np.array([q.f(x) for x in X])
        ind.compute(Y=Y)
        for n, op in enumerate(c["ops"]):
            what = f"{tag}, step {n} ({op[0]})"
            if op[0] == "new":
                X = np.array(op[1])
                Y = np.array([q.f(x) for x in X])
            elif op[0] == "write":
                X[op[1] % len(X)] = op[2]
                Y[op[1] % len(X)] = q.f(X[op[1] % len(X)])
            elif op[0] == "shift":
                ind.ref.shift(op[1])
                R = R + op[1] * eta
            elif op[0] == "match":  # the matched medoids are the reference set from now on
                k = min(op[1], len(ind.ref._ref[0]))
                ind.ref.match(np.random.default_rng(k).random((k, R.shape[1])))
                R = np.array(ind.ref.reference_set)
                require(len(R) == k, f"{what}: {len(R)} medoids for {k} points")
            elif op[0] == "reference":
                R = np.random.default_rng(op[1]).random((op[2], R.shape[1])) * 2 - 1
                ind.ref = ReferenceSet(R.copy())
                eta = np.array(ind.ref.eta[0])
            elif op[0] == "p":
                p = ind.p = op[1]
            v, G, H = ref(q, X, R, p)
            do = op[-1]
            keep = X.copy(), Y.copy()
            ev.nontrivial(op[0] != "same")
            if do == "value":
                close(ind.compute(Y=Y), v, 1e-9, f"{what}: from Y", shape=False)
            elif do == "value X":
                close(ind.compute(X=X), v, 1e-9, f"{what}: from X", shape=False)
            elif G is not None:
                kw = dict(Y=Y) if n % 2 else {}
                out = ind.compute_derivatives(X, compute_hessian=do == "hessian", **kw)
                if do == "hessian":
                    close(out[1], H, 1e-8, f"{what}: Hessian")
                    out = out[0]
                close(out, G, 1e-8, f"{what}: gradient")
            require(np.array_equal(X, keep[0]) and np.array_equal(Y, keep[1]), f"{what}: the caller's arrays were changed")
            close(ind.ref.reference_set, R, 1e-12, f"{what}: reference set", shape=False)


@st.composite
def matched_clouds(draw):
    m, nv, n = draw(st.integers(2, 4)), draw(st.integers(1, 3)), draw(st.integers(2, 45))
    return dict(q=draw(quadratic(m, nv)), X=draw(gen.cloud(n, nv, ("uniform",), -1.0, 1.0)),
                R=draw(gen.cloud(n, m, ("uniform", "front", "sphere"), -1.0, 2.0)))


@sub("C06", "igd_matched_clouds", matched_clouds(), 120, 2000,
     "up to 45 points, each with its own reference point; the assignment has minimal total distance; non-trivial: more than "
     "20 points")
def igd_matched_clouds(c, ev):
    from scipy.optimize import linear_sum_assignment

    from hvd import InvertedGenerationalDistance

    q, X, R = Quadratic(c["q"]), np.array(c["X"]), np.array(c["R"])
    N = len(X)
    Y = np.array([q.f(x) for x in X])
    D = np.sqrt(((Y[:, None] - R[None]) ** 2).sum(-1))
    a, b = linear_sum_assignment(D)
    best = D[a, b].sum()
    for i, j in zip(a, b):
        E = D.copy()
        E[i, j] += 1e-6
        if E[linear_sum_assignment(E)].sum() < best + 9e-7:
            return ev.label("several optimal assignments")
    T = R[b]
    ev.nontrivial(N > 20)
    ind = InvertedGenerationalDistance(R.copy(), q.f, q.jac, q.hess, matching=True)
    close(ind.compute(Y=Y.copy()), ((Y - T) ** 2).sum(1).mean(), 1e-9, "matched IGD", shape=False)
    g, h = ind.compute_derivatives(X.copy())
    for i, x in enumerate(X):
        J, d = q.jac(x), Y[i] - T[i]
        close(arr(g)[i], 2 * J.T @ d, 1e-9, "matched gradient")
        close(arr(h)[i], 2 * (J.T @ J + np.einsum("k,kab->ab", d, q.hess(x))), 1e-9, "matched Hessian")
