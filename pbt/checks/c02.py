"""C02 (gradient), C03 (Hessian), C04 (maximization) of the hypervolume indicator."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref_hv
from pbt.core import arr, close, require, sub
from pbt.maps import Quadratic, quadratic


def gap(Y, ref):
    """smallest difference of two coordinates of an axis, the reference point included"""
    Y = np.asarray(Y)
    g = min(float(np.min(np.abs(np.asarray(ref) - Y))), 1.0)
    for k in range(Y.shape[1]):
        s = np.sort(Y[:, k])
        if len(s) > 1:
            g = min(g, float(np.min(np.diff(s))))
    return g


def relevant(Y, ref):
    """indices of the points that matter in a neighbourhood: better than `ref` in all objectives and not strictly
    dominated (worse in every objective than another point)"""
    Y, ref = np.asarray(Y), np.asarray(ref)
    inside = np.all(Y < ref, axis=1)
    return [i for i in range(len(Y)) if inside[i] and not np.any(np.all(Y < Y[i], axis=1))]


def derivatives(Y, ref):
    """gradient and Hessian of the hypervolume; zero for the points that do not matter"""
    Y, ref = np.asarray(Y, dtype=float), np.asarray(ref, dtype=float)
    n, m = Y.shape
    G, H = np.zeros((n, m)), np.zeros((n, m, n, m))
    k = relevant(Y, ref)
    if k:
        g, h = ref_hv.hv_derivatives(Y[k], ref)
        G[k] = g
        H[np.ix_(k, range(m), k, range(m))] = h.reshape(len(k), m, len(k), m)
    return G, H.reshape(n * m, n * m)


@st.composite
def points(draw, nmax={2: 12, 3: 10, 4: 7, 5: 4}, dims=(2, 4), beyond=True, extra=True):
    m = draw(st.integers(*dims))
    n = draw(st.integers(1, nmax[m]))
    Y = draw(gen.front_position(n, m) if draw(st.booleans()) else gen.general_position(n, m))
    off = draw(st.sampled_from([0.0, -2.0, 5.0]))
    ref = [1.0 + r for r in draw(gen.vec(gen.grid(0.05, 2.0, 64), m))]
    if beyond and draw(st.integers(0, 3)) == 0:  # the reference point cuts off some of the points
        for k in range(m):
            if draw(st.booleans()):
                v = sorted({y[k] for y in Y} | {-0.1, 1.1})
                i = draw(st.integers(0, len(v) - 2))
                ref[k] = (v[i] + v[i + 1]) / 2
    if extra and draw(st.integers(0, 3)) == 0:  # strictly dominated points, tied with others or repeated
        for _ in range(draw(st.integers(1, 3))):
            b = Y[draw(st.integers(0, n - 1))]
            new = []
            for k in range(m):
                more = sorted({y[k] for y in Y if y[k] > b[k]})
                new.append(draw(st.sampled_from(more)) if more else b[k] + 0.03125)
            Y = Y + [new] * draw(st.integers(1, 2))
        Y = [Y[i] for i in draw(st.permutations(range(len(Y))))]
    return dict(Y=[[v + off for v in y] for y in Y], ref=[r + off for r in ref])


def classify(Y, ev, ref=None):
    r = ref_hv.layers(Y)
    if ref is not None:
        out = ~np.all(np.asarray(Y) < np.asarray(ref), axis=1)
        if np.any(out):
            ev.label("points beyond the reference point")
            r = [max(v, 1) if o else v for v, o in zip(r, out)]
        if gap(Y, ref) == 0:
            ev.label("ties of strictly dominated points")
    nd = sum(v == 0 for v in r)
    ev.label(f"d={len(Y[0])}", f"{nd} nd" if nd < 4 else "4+ nd")
    if nd < len(Y):
        ev.label("dominated points present")
    ev.nontrivial(nd >= 2)
    return r


RULE = ("points in general position, random or staircase-like, some dominated, beyond the reference point, or strictly dominated and tied; "
        "non-trivial: at least two mutually non-dominated points")


def indicator(m, ref, q=None, minimization=True, n_var=None):
    from hvd import HypervolumeDerivatives

    if q is None:
        return HypervolumeDerivatives(m, m, np.array(ref), minimization=minimization)
    return HypervolumeDerivatives(q.n_var, m, np.array(ref), q.f, q.jac, q.hess, minimization=minimization)


@sub("C02", "objective_space", points(), 1200, 15000, RULE)
def objective_space(c, ev):
    Y, ref = np.array(c["Y"]), np.array(c["ref"])
    rank = classify(Y, ev, ref)
    g = arr(indicator(Y.shape[1], ref).compute_derivatives(Y, compute_hessian=False), Y.shape, "gradient")
    close(g, derivatives(Y, ref)[0], 1e-10, "hypervolume gradient", scale=1e-3 + ref_hv.hv(Y, ref))
    for i, r in enumerate(rank):
        require(r == 0 or np.all(g[i] == 0), f"the gradient of dominated point {i} is {g[i]}, not zero")
        require(np.all(g[i] <= 1e-12), f"the gradient of point {i} has a positive entry: {g[i]}")


@sub("C02", "objective_space_5d", lambda: points(nmax={5: 5}, dims=(5, 5)), 25, 400, RULE + "; five objectives")
def objective_space_5d(c, ev):
    objective_space(c, ev)


@st.composite
def through_map(draw, nmax=5):
    m = draw(st.integers(2, 4))
    n = draw(st.integers(1, nmax if m < 4 else min(nmax, 5)))
    nv = draw(st.integers(1, 4))
    return dict(q=draw(quadratic(m, nv)), X=draw(gen.general_position(n, nv, -1.0, 1.0)),
                pad=draw(gen.vec(gen.grid(0.1, 2.0, 64) if draw(st.integers(0, 3)) else gen.grid(-1.0, 0.5, 64), m)), given=draw(st.integers(0, 3)))


def _setup(c, ev):
    q = Quadratic(c["q"])
    X = np.array(c["X"])
    Y = np.array([q.f(x) for x in X])
    ref = Y.max(axis=0) + np.array(c["pad"])
    g = gap(Y, ref)
    if g < 1e-7:
        ev.label("objective values too close together: not checked")
        return None
    ev.label(f"n_var={q.n_var}", f"Y {'given' if c['given'] & 1 else 'evaluated'}",
             f"Jacobian {'given' if c['given'] & 2 else 'evaluated'}")
    classify(Y, ev, ref)
    kw = {}
    if c["given"] & 1:
        kw["Y"] = Y.copy()
    if c["given"] & 2:
        kw["YdX"] = np.array([q.jac(x) for x in X])
    return q, X, Y, ref, g, kw


MRULE = "the same through a random quadratic objective map, objectives/Jacobians evaluated or supplied; " + RULE


@sub("C02", "decision_space", through_map(), 700, 8000, MRULE)
def decision_space(c, ev):
    s = _setup(c, ev)
    if s is None:
        return
    q, X, Y, ref, g, kw = s
    G = derivatives(Y, ref)[0]
    want = np.array([q.jac(x).T @ G[i] for i, x in enumerate(X)])
    ind = indicator(Y.shape[1], ref, q)
    got = ind.compute_derivatives(X, compute_hessian=False, **kw)
    sc = 1e-3 + ref_hv.hv(Y, ref) + np.abs(G).max() * 10
    close(got, want, 1e-9, "hypervolume gradient", scale=sc)
    both = ind.compute_derivatives(X, compute_hessian=True, **kw)
    require(isinstance(both, tuple) and len(both) == 2, "expected a (gradient, Hessian) pair")
    close(both[0], want, 1e-9, "hypervolume gradient computed together with the Hessian", scale=sc)
    perm = list(range(len(X)))[::-1]
    close(ind.compute_derivatives(X[perm], compute_hessian=False), want[perm], 1e-9,
          "gradient of the reversed point set", scale=sc)


@sub("C03", "objective_space", points(nmax={2: 10, 3: 9, 4: 7}), 700, 8000, RULE)
def hess_objective_space(c, ev):
    Y, ref = np.array(c["Y"]), np.array(c["ref"])
    classify(Y, ev, ref)
    out = indicator(Y.shape[1], ref).compute_derivatives(Y)
    H = arr(out[1], (Y.size, Y.size), "Hessian")
    close(H, H.T, 1e-13, "Hessian versus its transpose")
    close(H, derivatives(Y, ref)[1], 1e-10, "hypervolume Hessian", scale=1e-3 + ref_hv.hv(Y, ref))


@sub("C03", "objective_space_5d", lambda: points(nmax={5: 6}, dims=(5, 5)), 30, 500, RULE + "; five objectives")
def hess_objective_space_5d(c, ev):
    hess_objective_space(c, ev)


@sub("C03", "gradient_differences", points(nmax={2: 8, 3: 8, 4: 6, 5: 4}, extra=False), 400, 6000,
     "larger sets: the Hessian against differences of the exact gradient; " + RULE)
def hess_gradient_differences(c, ev):
    Y, ref = np.array(c["Y"]), np.array(c["ref"])
    classify(Y, ev, ref)
    ind = indicator(Y.shape[1], ref)
    H = arr(ind.compute_derivatives(Y)[1], (Y.size, Y.size), "Hessian")
    h = 0.2 * gap(Y, ref)
    W = np.zeros(H.shape)
    for a in range(Y.size):
        d = np.zeros(Y.size)
        d[a] = h
        d = d.reshape(Y.shape)
        W[a] = (ind.compute_derivatives(Y + d, compute_hessian=False)
                - ind.compute_derivatives(Y - d, compute_hessian=False)).ravel() / (2 * h)
    close(H, W, 1e-7, "hypervolume Hessian", scale=1e-3 + ref_hv.hv(Y, ref))


@sub("C03", "decision_space", through_map(nmax=6), 500, 6000, MRULE)
def hess_decision_space(c, ev):
    s = _setup(c, ev)
    if s is None:
        return
    q, X, Y, ref, g, kw = s
    m, n, nv = Y.shape[1], len(X), q.n_var
    G, HY = derivatives(Y, ref)
    J = np.zeros((n * m, n * nv))
    for i, x in enumerate(X):
        J[i * m : (i + 1) * m, i * nv : (i + 1) * nv] = q.jac(x)
    W = J.T @ HY @ J
    for i, x in enumerate(X):
        b = slice(i * nv, (i + 1) * nv)
        W[b, b] += np.einsum("k,kab->ab", G[i], q.hess(x))
    H = arr(indicator(m, ref, q).compute_derivatives(X, **kw)[1], W.shape, "Hessian")
    sc = (1 + np.abs(J).max()) ** 2 * (1 + np.abs(HY).max() + np.abs(G).max() + ref_hv.hv(Y, ref))
    close(H, W, 1e-9, "hypervolume Hessian in the decision space", scale=sc)
    close(H, H.T, 1e-12, "Hessian versus its transpose", scale=sc)


@st.composite
def ad_case(draw):
    c = draw(points(nmax={2: 4, 3: 4, 4: 3}))
    c["max"] = draw(st.booleans())
    c["moved"] = draw(st.one_of(st.none(), gen.vec(gen.grid(0.05, 2.0, 64), len(c["ref"]))))
    return c


@sub("C03", "automatic_differentiation", ad_case(), 80, 1000,
     "analytical against automatic differentiation of the hypervolume, after moving the reference point, under maximization; " + RULE)
def against_ad(c, ev):
    Y, ref = np.array(c["Y"]), np.array(c["ref"])
    classify(Y, ev, ref)
    s = -1.0 if c["max"] else 1.0
    ind = indicator(Y.shape[1], s * ref, minimization=not c["max"])
    ev.label("maximization" if c["max"] else "minimization")
    if c["moved"] is not None:  # used with another reference point before
        ev.label("reference point moved")
        ind.ref = s * (ref + np.array(c["moved"]))
        ind.compute_automatic_differentiation(s * Y)
        ind.ref = s * ref
    g, H = ind.compute_derivatives(s * Y)
    ad = ind.compute_automatic_differentiation(s * Y)
    G, W = derivatives(Y, ref)
    sc = 1e-3 + ref_hv.hv(Y, ref)
    close(np.ravel(ad["HVdX"]), s * np.ravel(G), 1e-9, "automatic gradient", scale=sc)
    close(np.ravel(ad["HVdY"]), s * np.ravel(G), 1e-9, "automatic gradient in the objectives", scale=sc)
    close(np.ravel(g), s * np.ravel(G), 1e-9, "analytical gradient", scale=sc)
    close(ad["HVdX2"], H, 1e-9, "automatic versus analytical Hessian", scale=sc)
    close(H, W, 1e-9, "analytical Hessian", scale=sc)


@sub("C04", "automatic_differentiation", points(nmax={2: 4, 3: 4, 4: 3}), 60, 800,
     "automatic derivatives when maximizing the negated points against those of minimization; " + RULE)
def mirror_ad(c, ev):
    Y, ref = np.array(c["Y"]), np.array(c["ref"])
    classify(Y, ev, ref)
    a = indicator(Y.shape[1], ref).compute_automatic_differentiation(Y)
    b = indicator(Y.shape[1], -ref, minimization=False).compute_automatic_differentiation(-Y)
    sc = 1e-3 + ref_hv.hv(Y, ref)
    for k, s in (("HVdX", -1), ("HVdY", -1), ("HVdX2", 1), ("HVdY2", 1)):
        close(np.ravel(b[k]), s * np.ravel(a[k]), 1e-9, f"{k} under maximization", scale=sc)


@sub("C04", "mirror", through_map(nmax=5), 400, 5000, "maximizing f against minimizing -f; " + MRULE)
def mirror(c, ev):
    q = Quadratic(c["q"])
    X = np.array(c["X"])
    Y = np.array([q.f(x) for x in X])
    ref = Y.min(axis=0) - np.array(c["pad"])
    if gap(-Y, -ref) < 1e-6:
        ev.label("tied objective values: not checked")
        return
    classify(-Y, ev, -ref)
    neg = q.negated()
    big = indicator(Y.shape[1], ref, q, minimization=False)
    small = indicator(Y.shape[1], -ref, neg)
    sc = 1 + ref_hv.hv(-Y, -ref)
    close(big.compute(X=X), ref_hv.hv(-Y, -ref), 1e-9, "hypervolume under maximization, from X", shape=False)
    close(big.compute(Y=Y.copy()), ref_hv.hv(-Y, -ref), 1e-9, "hypervolume under maximization, from Y", shape=False)
    g1, H1 = big.compute_derivatives(X)
    g2, H2 = small.compute_derivatives(X)
    close(g1, g2, 1e-10, "gradient under maximization", scale=sc)
    close(H1, H2, 1e-10, "Hessian under maximization", scale=sc)
    J = np.array([q.jac(x) for x in X])
    for kw in (dict(Y=Y.copy()), dict(YdX=J.copy()), dict(Y=Y.copy(), YdX=J.copy())):
        g3, H3 = big.compute_derivatives(X, **kw)
        close(g3, g2, 1e-10, f"gradient under maximization with {sorted(kw)} supplied", scale=sc)
        close(H3, H2, 1e-10, f"Hessian under maximization with {sorted(kw)} supplied", scale=sc)
    require(np.all(big.compute_derivatives(X, compute_hessian=False) == g1), "gradient depends on compute_hessian")


@sub("C04", "ascent", through_map(nmax=5), 250, 3000,
     "the gradient under maximization is the derivative of the value under maximization (difference quotient); " + MRULE)
def ascent(c, ev):
    q = Quadratic(c["q"])
    X = np.array(c["X"])
    Y = np.array([q.f(x) for x in X])
    ref = Y.min(axis=0) - np.array(c["pad"])
    gp = gap(-Y, -ref)
    if gp < 2e-2:
        ev.label("objective values too close together for a difference quotient: not checked")
        return
    classify(-Y, ev, -ref)
    ind = indicator(Y.shape[1], ref, q, minimization=False)
    g = arr(ind.compute_derivatives(X, compute_hessian=False), X.shape, "gradient")
    h = 1e-5
    W = np.zeros(X.shape)
    for i in range(X.shape[0]):
        for k in range(X.shape[1]):
            A, B = X.copy(), X.copy()
            A[i, k] += h
            B[i, k] -= h
            W[i, k] = (ind.compute(X=A) - ind.compute(X=B)) / (2 * h)
    close(g, W, 1e-5, "gradient under maximization versus differences of the value", scale=1 + np.abs(g).max())
    ind2 = indicator(Y.shape[1], ref, minimization=False)
    ind2.ref = ref + 0.0
    close(ind2.compute(Y=Y), ref_hv.hv(-Y, -ref), 1e-9, "value after setting the reference point", shape=False)


@st.composite
def clouds(draw, hess=False):
    m = draw(st.integers(2, 4))
    n = draw(st.integers(2, ({2: 30, 3: 14, 4: 7} if hess else {2: 70, 3: 24, 4: 10})[m]))
    o, u = gen.affine(draw, m)
    Y = np.array(draw(gen.cloud(n, m, ("uniform", "front", "sphere"))))
    ref = np.array(draw(gen.vec(st.sampled_from([1.1, 2.0, 0.8]), m)))
    return dict(Y=(Y * u + o).tolist(), ref=(ref * u + o).tolist(), u=u, max=draw(st.booleans()))


def _cloud(c, ev, hess):
    Y, ref, u = np.array(c["Y"]), np.array(c["ref"]), np.array(c["u"])
    k = relevant(Y, ref)
    if k and gap(Y[k] / u, ref / u) < 1e-9 or len(np.unique(Y, axis=0)) < len(Y):
        return ev.label("ties: not checked")
    classify(Y, ev, ref)
    ev.label("N > 20" if len(Y) > 20 else "N <= 20", "maximization" if c["max"] else "minimization")
    s = -1.0 if c["max"] else 1.0
    ind = indicator(Y.shape[1], s * ref, minimization=not c["max"])
    out = ind.compute_derivatives(s * Y, compute_hessian=hess)
    G, H = derivatives(Y, ref)
    box = np.prod(np.maximum(ref - np.minimum(Y.min(0), ref), 0.1 * u))
    close((out[0] if hess else out) * u, s * G * u, 1e-8, "hypervolume gradient, in units of the axes", unit=box)
    if hess:
        U = np.tile(u, len(Y))
        close(out[1] * np.outer(U, U), H * np.outer(U, U), 1e-8, "hypervolume Hessian, in units of the axes", unit=box)


@sub("C02", "clouds", clouds(), 250, 4000,
     "up to 70 points, origins up to 1e6 away, units of 1e-4 to 1e4, maximized or minimized; " + RULE)
def clouds_check(c, ev):
    _cloud(c, ev, False)


@sub("C03", "clouds", lambda: clouds(hess=True), 120, 2000,
     "up to 30 points, origins up to 1e6 away, units of 1e-4 to 1e4, maximized or minimized; " + RULE)
def hess_clouds(c, ev):
    _cloud(c, ev, True)


@st.composite
def history_cases(draw):
    m = draw(st.integers(2, 3))
    nv, n = draw(st.integers(1, 3)), draw(st.integers(2, 5))
    e = gen.grid(-1.0, 1.0, 4000)
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(["new", "size", "write", "write", "ref", "write ref", "same"]))
        arg = None
        if k in ("new", "size"):
            n = n if k == "new" else draw(st.integers(1, 6))
            arg = draw(gen.mat(e, n, nv))
        elif k == "write":
            arg = [draw(st.integers(0, 5)), draw(gen.vec(e, nv))]
        elif k != "same":
            arg = draw(gen.vec(gen.grid(0.1, 2.0, 64), m))
        ops.append([k, arg, draw(st.integers(0, 3))])
    return dict(q=draw(quadratic(m, nv)), X=draw(gen.mat(e, n if not ops else 3, nv)), pad=draw(gen.vec(gen.grid(0.1, 2.0, 64), m)), ops=ops,
                max=draw(st.booleans()))


def _history(c, ev, hess):
    q, X = Quadratic(c["q"]), np.array(c["X"])
    s = -1.0 if c["max"] else 1.0
    if c["max"]:
        q = q.negated()
    neg = lambda X: np.array([s * q.f(x) for x in X])  # noqa: E731  always minimized
    Y = neg(X)
    top = Y.max(0)
    ref = top + np.array(c["pad"])
    ind = indicator(q.n_obj, s * ref, q, minimization=not c["max"])
    ev.label("maximization" if c["max"] else "minimization")
    Z = s * Y  # what the caller sees
    if gap(Y, ref) > 1e-7:
        ind.compute_derivatives(X, Y=Z)
    for n, (op, a, given) in enumerate(c["ops"]):
        what = f"step {n} ({op})"
        if op in ("new", "size"):
            X = np.array(a)
            Z = s * neg(X)
        elif op == "write":
            X[a[0] % len(X)] = a[1]
            Z[a[0] % len(X)] = s * neg(X[[a[0] % len(X)]])[0]
        elif op in ("ref", "write ref"):
            ref = top + np.array(a)
            ind.ref = s * ref
        Y = s * Z
        if gap(Y, ref) < 1e-7:
            ev.label("objective values too close together: not checked")
            continue
        G, HY = derivatives(Y, ref)
        J = np.array([q.jac(x) for x in X])
        kw = {}
        if given & 1:
            kw["Y"] = Z
        if given & 2:
            kw["YdX"] = J.copy()
        keep = X.copy(), Z.copy()
        out = ind.compute_derivatives(X, compute_hessian=hess, **kw)
        want = np.array([s * J[i].T @ G[i] for i in range(len(X))])
        sc = 1e-3 + ref_hv.hv(Y, ref) + np.abs(G).max() * 10
        close(out[0] if hess else out, want, 1e-9, f"{what}: gradient", scale=sc)
        if hess:
            nm, nv = q.n_obj, q.n_var
            B = np.zeros((len(X) * nm, len(X) * nv))
            for i in range(len(X)):
                B[i * nm:(i + 1) * nm, i * nv:(i + 1) * nv] = J[i]
            W = B.T @ HY @ B
            for i, x in enumerate(X):
                b = slice(i * nv, (i + 1) * nv)
                W[b, b] += s * np.einsum("k,kab->ab", G[i], q.hess(x))
            close(out[1], W, 1e-9, f"{what}: Hessian", scale=(1 + np.abs(J).max()) ** 2 * (1 + np.abs(HY).max() + sc))
        require(np.array_equal(X, keep[0]) and np.array_equal(Z, keep[1]), f"{what}: the caller's arrays were changed")
        ev.nontrivial(op != "same" and sum(r == 0 for r in ref_hv.layers(Y)) > 1)


HRULE = ("one indicator used again on the same arrays after they were written to, on populations of another size and with "
         "another reference point, maximized or minimized; non-trivial: two non-dominated points after such a change")


@sub("C02", "histories", history_cases(), 300, 4000, HRULE)
def history(c, ev):
    _history(c, ev, False)


@sub("C03", "histories", history_cases(), 250, 4000, HRULE)
def hess_history(c, ev):
    _history(c, ev, True)


@sub("C04", "histories", history_cases().filter(lambda c: c["max"]), 200, 3000, HRULE)
def max_history(c, ev):
    _history(c, ev, True)
