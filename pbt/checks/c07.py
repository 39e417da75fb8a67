"""C07: maximum mean discrepancy: value and derivatives."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref_mmd
from pbt.core import close, equal, require, sub
from pbt.maps import Quadratic, moved, quadratic

THETAS = [1.0, 0.5, 2.0, 0.1, 7.5]
RULE = ("random approximation sets through a quadratic map, three kernels, several length scales; non-trivial: at "
        "least two approximation and two reference points")


@st.composite
def cases(draw, kernels=ref_mmd.KERNELS, nmax=6, sets=4):
    m, nv, n = draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, nmax))
    M = draw(st.integers(1, 8))
    e = gen.grid(-1.5, 1.5, 300)
    return dict(kernel=draw(st.sampled_from(kernels)), theta=draw(st.sampled_from(THETAS)), q=draw(quadratic(m, nv)),
                X=draw(st.lists(gen.mat(gen.grid(-1.0, 1.0, 200), n, nv), min_size=1, max_size=sets)),
                R=draw(gen.mat(e, M, m)), default=draw(st.booleans()), parts=draw(st.integers(1, 2)),
                given=draw(st.integers(0, 3)))


def make(cls, c, ref, q, **kw):
    import hvd.mmd as mod

    if not (c["default"] and c["kernel"] == "rbf"):
        kw["kernel"] = getattr(mod, c["kernel"])
    if not (c["default"] and c["theta"] == 1.0):
        kw["theta"] = c["theta"]
    return getattr(mod, cls)(n_var=q.n_var, n_obj=q.n_obj, ref=ref, func=q.f, jac=q.jac, hessian=q.hess, **kw)


def reference(R, parts):
    from hvd.reference_set import ReferenceSet

    if parts == 1 or len(R) < 4:
        return R.copy()
    h = len(R) // 2
    return ReferenceSet({0: R[:h].copy(), 1: R[h:].copy()})


def kink(c, Y, T):
    """the Laplace kernel is not differentiable where two coordinates coincide"""
    if c["kernel"] != "laplace":
        return False
    d = [np.abs(Y[i] - Y[j]).min() for i in range(len(Y)) for j in range(i)]
    return min(d + [np.abs(y - t).min() for y in Y for t in T]) < 1e-9


def given_of(c, q, X, Y):
    kw = {}
    if c["given"] & 1:
        kw["Y"] = Y.copy()
    if c["given"] & 2:
        kw["jacobian"] = np.array([q.jac(x) for x in X])
    return kw


def check_derivatives(ind, q, X, Y, G, H, kw, what):
    gx, hx = ref_mmd.chain(q, X, G, H)
    g = ind.compute_gradient(X.copy(), **kw)
    close(g["MMDdY"], G, 1e-9, f"{what}: gradient in objective space")
    close(g["MMDdX"], gx, 1e-9, f"{what}: gradient in decision space")
    h = ind.compute_hessian(X.copy(), **kw)
    close(h["MMDdY"], G, 1e-9, f"{what}: gradient in objective space (with the Hessian)")
    close(h["MMDdX"], gx, 1e-9, f"{what}: gradient in decision space (with the Hessian)")
    close(h["MMDdY2"], ref_mmd.flat(H), 1e-9, f"{what}: Hessian in objective space")
    close(h["MMDdX2"], hx, 1e-9, f"{what}: Hessian in decision space")
    close(ind.compute_derivatives(X.copy(), compute_hessian=False, **kw), gx, 1e-9, f"{what}: derivatives, gradient only")
    out = ind.compute_derivatives(X.copy(), **kw)
    require(isinstance(out, tuple) and len(out) == 2, "expected a (gradient, Hessian) pair")
    close(out[0], gx, 1e-9, f"{what}: derivatives, gradient")
    close(out[1], hx, 1e-9, f"{what}: derivatives, Hessian")


def _plain(c, ev):
    q, R = Quadratic(c["q"]), np.array(c["R"])
    name, th = c["kernel"], c["theta"]
    ind = make("MMD", c, reference(R, c["parts"]), q)
    ev.label(name, f"m={q.n_obj}", f"n={q.n_var}")
    for X in map(np.array, c["X"]):
        Y = np.array([q.f(x) for x in X])
        N, M = len(Y), len(R)
        ev.nontrivial(N > 1 and M > 1)
        before = X.copy(), Y.copy()
        want = ref_mmd.value(name, th, Y, R)
        close(ind.compute(Y=Y), want, 1e-9, "MMD from Y", shape=False)
        close(ind.compute(X=X), want, 1e-9, "MMD from X", shape=False)
        if kink(c, Y, R):
            ev.label("kink")
            continue
        pairs = [(i, r, 1 / (N * M)) for i in range(N) for r in R]
        G, H = ref_mmd.y_derivatives(name, th, Y, 1.0, pairs)
        check_derivatives(ind, q, X, Y, G, H, given_of(c, q, X, Y), "MMD")
        equal(X, before[0], "the caller's decisions")
        equal(Y, before[1], "the caller's objectives")


for _i, _k in enumerate(ref_mmd.KERNELS):
    for _part in (1, 2):
        sub("C07", f"mmd_{_k}_{_part}", cases(kernels=(_k,)), 110, 2500, RULE)(_plain)


@st.composite
def value_cases(draw):
    m = draw(st.integers(1, 4))
    e = draw(st.sampled_from([gen.coarse(-1.0, 1.0, 4), gen.grid(-2.0, 2.0, 1000)]))
    return dict(kernel=draw(st.sampled_from(ref_mmd.KERNELS)), theta=draw(st.sampled_from(THETAS + [0.01, 40.0])),
                A=draw(gen.matrices(e, (1, 12), m)), B=draw(gen.matrices(e, (1, 12), m)), default=False,
                shift=[2.0 ** k * v for k, v in zip(draw(gen.vec(st.sampled_from([0, 0, 1, 10, 20]), m)), draw(gen.vec(gen.grid(-3.0, 3.0, 12), m)))], seed=draw(st.integers(0, 999)))


@sub("C07", "value_relations", value_cases(), 150, 3000,
     "value equals the definition, is a squared distance (nonnegative, symmetric, zero on equal sets), and is invariant "
     "under reordering, replication and joint translation; non-trivial: the two sets differ")
def value_relations(c, ev):
    import hvd.mmd as mod

    A, B = np.array(c["A"]), np.array(c["B"])
    m = A.shape[1]
    kw = dict(kernel=getattr(mod, c["kernel"]), theta=c["theta"])
    v = lambda R, Y: float(mod.MMD(m, m, R.copy(), **kw).compute(Y=Y.copy()))  # noqa: E731
    ab = v(A, B)
    ev.nontrivial(sorted(map(tuple, A)) != sorted(map(tuple, B)))
    ev.label(c["kernel"])
    close(ab, ref_mmd.value(c["kernel"], c["theta"], B, A), 1e-9, "value", shape=False)
    require(ab >= -1e-9, f"negative squared distance {ab}")
    close(v(B, A), ab, 1e-9, "value with the sets exchanged", shape=False)
    close(v(A, A), 0.0, 1e-9, "distance of a set to itself", shape=False)
    p = np.random.default_rng(c["seed"])
    close(v(A[p.permutation(len(A))], B[p.permutation(len(B))]), ab, 1e-9, "reordered sets", shape=False)
    close(v(A, np.r_[B, B]), ab, 1e-9, "every point repeated", shape=False)
    A2, B2 = A + c["shift"], B + c["shift"]  # rounded
    close(v(A2, B2), ref_mmd.value(c["kernel"], c["theta"], B2, A2), 1e-9, "value of the translated sets", shape=False)
    close(v(A2, B2), ab, 1e-8 + c["theta"] * m * 1e-15 * np.abs(c["shift"]).max(), "translated sets", shape=False)


@st.composite
def kernel_cases(draw):
    m = draw(st.integers(1, 5))
    e = gen.grid(-2.0, 2.0, 400)
    return dict(x=draw(gen.vec(e, m)), y=draw(gen.vec(e, m)), theta=draw(st.sampled_from(THETAS + [0.01, 40.0])),
                alpha=draw(st.sampled_from([0.5, 1.0, 2.0, 3.5])))


@sub("C07", "kernels", kernel_cases(), 400, 4000,
     "kernel values, symmetry and bounds, with all parameters; non-trivial: distinct points")
def kernels(c, ev):
    import hvd.mmd as mod

    x, y, th, al = np.array(c["x"]), np.array(c["y"]), c["theta"], c["alpha"]
    ev.nontrivial(not np.array_equal(x, y))
    d2 = ((x - y) ** 2).sum()
    close(mod.rbf(x, y, theta=th), np.exp(-th * d2), 1e-12, "rbf")
    close(mod.laplace(x, y, theta=th), np.exp(-th * np.abs(x - y).sum()), 1e-12, "laplace")
    close(mod.rational_quadratic(x, y, theta=th, alpha=al), (1 + th * d2 / (2 * al)) ** (-al), 1e-12, "rational quadratic")
    close(mod.rational_quadratic(x, y, theta=th), 1 / (1 + th * d2 / 2), 1e-12, "rational quadratic, default exponent")
    for k in (mod.rbf, mod.laplace, mod.rational_quadratic):
        close(k(x, y), k(y, x), 1e-12, "symmetry")
        close(k(x, x), 1.0, 1e-12, "kernel of a point with itself")


@st.composite
def identity_cases(draw):
    m, n = draw(st.integers(2, 3)), draw(st.integers(2, 4))
    e = gen.grid(-1.0, 1.0, 200)
    return dict(kernel="rbf", theta=draw(st.sampled_from(THETAS)), X=draw(gen.mat(e, n, m)), R=draw(gen.mat(e, 3, m)))


@sub("C07", "identity_map", identity_cases(), 20, 300,
     "no objective function given: the decisions are the objectives; all cases non-trivial")
def identity_map(c, ev):
    import hvd.mmd as mod

    X, R, N = np.array(c["X"]), np.array(c["R"]), len(c["X"])
    ev.nontrivial()
    ind = mod.MMD(X.shape[1], X.shape[1], R.copy(), theta=c["theta"])
    close(ind.compute(X=X.copy()), ref_mmd.value("rbf", c["theta"], X, R), 1e-9, "value", shape=False)
    G, H = ref_mmd.y_derivatives("rbf", c["theta"], X, 1.0, [(i, r, 1 / (N * 3)) for i in range(N) for r in R])
    g, h = ind.compute_derivatives(X.copy())
    close(g, G, 1e-9, "gradient")
    close(h, ref_mmd.flat(H), 1e-9, "Hessian")


@st.composite
def cloud_cases(draw):
    m, nv = draw(st.integers(2, 3)), draw(st.integers(1, 3))
    n, M = draw(st.sampled_from([2, 8, 25, 40])), draw(st.sampled_from([3, 9, 60]))
    kinds = ("uniform", "front", "sphere")
    return dict(kernel=draw(st.sampled_from(ref_mmd.KERNELS)), theta=draw(st.sampled_from(THETAS)), default=False,
                q=draw(quadratic(m, nv)), X=draw(gen.cloud(n, nv, kinds, -1.0, 1.0)), R=draw(gen.cloud(M, m, kinds, -1.0, 2.0)),
                at=draw(st.sampled_from([0.0, 50.0, -1e3, 1e5, 1e6])), unit=draw(st.sampled_from([1.0, 1e-2, 1e2])),
                given=draw(st.integers(0, 3)))


def _clouds(c, ev):
    u, at = c["unit"], c["at"]
    th = c["theta"] / (u if c["kernel"] == "laplace" else u**2)
    q, X, R = Quadratic(moved(c["q"], at, u)), np.array(c["X"]), u * np.array(c["R"]) + at
    Y = np.array([q.f(x) for x in X])
    ind = make("MMD", dict(c, theta=th), R.copy(), q)
    ev.label(c["kernel"], f"at {at}", f"unit {u}", f"{len(Y)} points", f"{len(R)} reference points")
    ev.nontrivial(at != 0 or len(Y) > 20 or len(R) > 20)
    tol = 1e-8
    want = ref_mmd.value(c["kernel"], th, Y, R)
    close(ind.compute(Y=Y), want, tol, "MMD from Y", shape=False)
    close(ind.compute(X=X.copy()), want, tol, "MMD from X", shape=False)
    if kink(c, Y, R):
        return ev.label("kink")
    pairs = [(i, r, 1 / (len(Y) * len(R))) for i in range(len(Y)) for r in R]
    G, H = ref_mmd.y_derivatives(c["kernel"], th, Y, 1.0, pairs)
    gx, hx = ref_mmd.chain(q, X, G, H)
    g, h = ind.compute_derivatives(X.copy(), **given_of(c, q, X, Y))
    close(g, gx, tol, "gradient", unit=1e-3 + np.abs(gx).max())
    close(h, hx, tol, "Hessian", unit=1e-3 + np.abs(hx).max())


for _part in (1, 2):
    sub("C07", f"clouds_{_part}", cloud_cases(), 45, 1000,
        "up to 40 approximation and 60 reference points, up to 1e5 away from the origin, in units of 0.01 to 100; "
        "non-trivial: away from the origin or more than 20 points")(_clouds)


@st.composite
def history_cases(draw):
    m, nv, n = draw(st.integers(2, 3)), draw(st.integers(1, 3)), draw(st.integers(2, 4))
    e = gen.grid(-1.0, 1.0, 200)
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(["new", "write", "write", "same", "shift", "reference", "rewrite"]))
        arg = {"new": lambda: draw(gen.mat(e, n, nv)), "write": lambda: [draw(st.integers(0, n - 1)), draw(gen.vec(e, nv))],
               "same": lambda: None, "shift": lambda: draw(st.sampled_from([0.05, 0.5, -0.2])),
               "reference": lambda: draw(st.integers(0, 999)), "rewrite": lambda: None}[k]()
        ops.append([k, arg, draw(st.sampled_from(["value", "gradient", "hessian", "value X"]))])
    return dict(kernel=draw(st.sampled_from(ref_mmd.KERNELS)), theta=draw(st.sampled_from(THETAS)), default=False,
                q=draw(quadratic(m, nv)), X=draw(gen.mat(e, n, nv)), R=draw(gen.mat(gen.grid(-1.5, 1.5, 300), draw(st.integers(2, 5)), m)),
                ops=ops)


def _histories(c, ev):
    from hvd.reference_set import ReferenceSet

    q, R, X, th = Quadratic(c["q"]), np.array(c["R"]), np.array(c["X"]), c["theta"]
    ind = make("MMD", c, ReferenceSet(R.copy()), q)
    eta = np.array(ind.ref.eta[0])
    Y = np.array([q.f(x) for x in X])
    ind.compute_derivatives(X)
    for n, (op, a, do) in enumerate(c["ops"]):
        what = f"step {n} ({op})"
        if op == "new":
            X = np.array(a)
            Y = np.array([q.f(x) for x in X])
        elif op == "write":
            X[a[0]] = a[1]
            Y[a[0]] = q.f(X[a[0]])
        elif op == "rewrite":  # the same numbers in other arrays
            X, Y = X.copy(), Y.copy()
        elif op == "shift":
            ind.ref.shift(a)
            R = R + a * eta
        elif op == "reference":
            R = np.random.default_rng(a).random((2 + a % 4, R.shape[1])) * 2 - 1
            ind.ref = ReferenceSet(R.copy())
            eta = np.array(ind.ref.eta[0])
        keep = X.copy(), Y.copy()
        ev.nontrivial(op not in ("same", "rewrite"))
        if do.startswith("value"):
            want = ref_mmd.value(c["kernel"], th, Y, R)
            close(ind.compute(X=X) if do == "value X" else ind.compute(Y=Y), want, 1e-9, f"{what}: value", shape=False)
        elif not kink(c, Y, R):
            pairs = [(i, r, 1 / (len(Y) * len(R))) for i in range(len(Y)) for r in R]
            G, H = ref_mmd.y_derivatives(c["kernel"], th, Y, 1.0, pairs)
            gx, hx = ref_mmd.chain(q, X, G, H)
            out = ind.compute_derivatives(X, compute_hessian=do == "hessian", **(dict(Y=Y) if n % 2 else {}))
            if do == "hessian":
                close(out[1], hx, 1e-9, f"{what}: Hessian")
                out = out[0]
            close(out, gx, 1e-9, f"{what}: gradient")
        require(np.array_equal(X, keep[0]) and np.array_equal(Y, keep[1]), f"{what}: the caller's arrays were changed")


for _part in (1, 2):
    sub("C07", f"histories_{_part}", history_cases(), 60, 1500,
        "one indicator used again on the same arrays after they were written to, and after the reference set was shifted or "
        "replaced; non-trivial: a value or derivative after such a change")(_histories)
