"""C13: building blocks of the Newton methods."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import arr, close, equal, require, sub


@st.composite
def layouts(draw):
    N, p, d = draw(st.integers(1, 6)), draw(st.integers(1, 4)), draw(st.integers(0, 4))
    e = gen.grid(-3.0, 3.0, 600)
    return dict(N=N, p=p, d=d, X=draw(gen.mat(e, N, p + d)), act=draw(gen.mat(st.booleans(), N, d)))


@sub("C13", "vector_layout", layouts(), 1000, 10000,
     "primal-dual matrices with random active sets; non-trivial: two points with different active sets")
def vector_layout(c, ev):
    from hvd import mmd_newton, utils

    X, act = np.array(c["X"], dtype=float), np.array(c["act"], dtype=bool).reshape(c["N"], c["d"])
    p, d, N = c["p"], c["d"], c["N"]
    ev.nontrivial(len({tuple(a) for a in c["act"]}) > 1)
    v = arr(utils.matrix_to_Nd_vector(X, p, act), what="vector")
    want = [x for r in X for x in r[:p]] + [r[p + k] for r, a in zip(X, act) for k in range(d) if a[k]]
    close(v.ravel(), np.array(want), 0.0, "vector layout")
    masked = X.copy()
    masked[:, p:][~act] = 0.0
    back = utils.Nd_vector_to_matrix(np.array(want), N, p + d, p, act if d else None)
    close(back, masked, 0.0, "matrix from the vector")
    full = np.c_[np.ones((N, p), dtype=bool), act]
    close(mmd_newton.Nd_vector_to_matrix(np.array(want), N, p + d, p, full), masked, 0.0, "matrix from the vector (MMD)")


@st.composite
def hessians(draw):
    n = draw(st.integers(1, 6))
    A = draw(gen.mat(gen.grid(-2.0, 2.0, 400), n, n))
    return dict(A=A, kind=draw(st.integers(0, 4)), scale=draw(st.sampled_from([1.0, 1e-3, 1e3])),
                shift=draw(gen.grid(-2.0, 2.0, 40)))


@sub("C13", "preconditioning", hessians(), 1000, 10000,
     "symmetric matrices: indefinite, negative, semi-definite, definite; non-trivial: dimension above one and not definite")
def preconditioning(c, ev):
    from hvd.utils import precondition_hessian

    A = np.array(c["A"])
    n = len(A)
    S = (A + A.T) / 2
    H = {0: S, 1: A @ A.T, 2: -A @ A.T, 3: A @ A.T + 0.1 * np.eye(n), 4: S + c["shift"] * np.eye(n)}[c["kind"]] * c["scale"]
    before = H.copy()
    P = arr(precondition_hessian(H), H.shape, "preconditioned matrix")
    equal(H, before, "the caller's matrix")
    s = max(1.0, np.abs(H).max())
    close(P, P.T, 1e-10, "symmetry", scale=s)
    lo = np.linalg.eigvalsh(H)[0]
    ev.nontrivial(n > 1 and lo <= 0)
    ev.label("definite" if lo > 0 else "not definite")
    D = P - H
    tau = np.trace(D) / n
    close(D, tau * np.eye(n), 1e-9, "the change is not a multiple of the identity", scale=s)
    require(np.linalg.eigvalsh(P)[0] >= -1e-9 * s, f"not positive definite: least eigenvalue {np.linalg.eigvalsh(P)[0]}")
    require(tau >= -1e-9 * s, f"shift {tau} downwards")
    if lo > 1e-9 * s:
        close(P, H, 1e-9, "a definite matrix was changed", scale=s)
    else:
        need = max(-lo, 0.0)
        require(tau <= 2.0 * max(need, -np.diag(H).min() + 1e-6, 1e-6) + 1e-9 * s, f"shift {tau} where {need} is needed")
        if lo < -1e-9 * s:
            require(np.linalg.eigvalsh(P)[0] > -1e-12 * s, "not positive definite")
            np.linalg.cholesky(P + 1e-9 * s * np.eye(n))


@st.composite
def bounds(draw):
    dim = draw(st.integers(1, 5))
    k = draw(st.integers(0, 4))
    v = draw(gen.vec(gen.grid(-5.0, 5.0, 100), dim))
    return dict(dim=dim, kind=k, v=v, i=draw(st.integers(-4, 4)))


@sub("C13", "bounds", bounds(), 300, 3000,
     "bounds given as a number, a list, an array, one value or text; non-trivial: several dimensions")
def bounds_check(c, ev):
    from hvd.utils import set_bounds

    dim, v = c["dim"], c["v"]
    ev.nontrivial(dim > 1)
    b, want = {0: (c["i"], [c["i"]] * dim), 1: (v[0], [v[0]] * dim), 2: (list(v), v), 3: (np.array(v), v),
               4: (repr(list(v)), v)}[c["kind"]]
    close(set_bounds(b, dim), np.array(want, dtype=float), 0.0, "bounds")
    if c["kind"] == 2 and dim > 1:
        close(set_bounds([v[0]], dim), np.array([v[0]] * dim), 0.0, "bounds from one value")
        try:
            set_bounds(v[:1] * (dim + 1), dim)
        except (AssertionError, ValueError):
            return
        require(False, "bounds of the wrong length were accepted")


@st.composite
def boxes(draw):
    dim, n = draw(st.integers(1, 5)), draw(st.integers(1, 8))
    lb = draw(gen.vec(gen.grid(-2.0, 1.0, 12), dim))
    w = draw(gen.vec(gen.grid(0.25, 3.0, 11), dim))
    return dict(lb=lb, ub=[a + b for a, b in zip(lb, w)], X=draw(gen.mat(gen.grid(-9.0, 9.0, 3600), n, dim)),
                one=draw(st.booleans()), inf=draw(st.lists(st.booleans(), min_size=dim, max_size=dim)), use_inf=draw(st.booleans()))


def reflect(x, lb, ub):
    while not lb <= x <= ub:
        x = 2 * lb - x if x < lb else 2 * ub - x
    return x


@sub("C13", "box_reflection", boxes(), 800, 8000,
     "points inside and outside boxes, some sides infinite; non-trivial: a coordinate that has to be reflected")
def box_reflection(c, ev):
    from hvd.utils import handle_box_constraint

    lb, ub, X = np.array(c["lb"]), np.array(c["ub"]), np.array(c["X"])
    dim = len(lb)
    free = np.array(c["inf"]) & c["use_inf"]
    ev.nontrivial(np.any(((X < lb) | (X > ub)) & ~free))
    want = np.array([[x if f else reflect(x, a, b) for x, a, b, f in zip(r, lb, ub, free)] for r in X])
    L, U = np.where(free, -np.inf, lb), np.where(free, np.inf, ub)
    tol = 1e-9
    if c["one"] or len(X) == dim:
        close(handle_box_constraint(X[0].copy(), L, U), want[0], tol, "reflected point")
    else:
        got = arr(handle_box_constraint(X.copy(), L, U), X.shape, "reflected points")
        close(got, want, tol, "reflected points")
        close(handle_box_constraint(got.copy(), L, U), got, tol, "reflecting twice")


@st.composite
def searches(draw):
    return dict(R=draw(gen.mat(gen.grid(-2.0, 2.0, 40), draw(st.integers(1, 3)), 2)),
                phi=draw(st.lists(st.sampled_from([0.5, 0.999, 1.0, 1.001, 2.0, 0.0, 0.9999999, 0.99998]), min_size=6, max_size=6)),
                top=draw(st.sampled_from([1.0, 0.5, 0.01, 0.3])), zero=draw(st.integers(0, 9)) == 0)


@sub("C13", "line_search", searches(), 800, 8000,
     "merit values along the search path; non-trivial: at least one rejected step")
def line_search(c, ev):
    from hvd.line_search import backtracking_line_search

    R = np.zeros((2, 2)) if c["zero"] else np.array(c["R"])
    n0 = np.linalg.norm(R)
    tried = []

    def phi(s):
        tried.append(float(s))
        return c["phi"][len(tried) - 1] * n0 if len(tried) <= 6 else 0.0

    a = float(backtracking_line_search(R, phi, max_step_size=c["top"]) if c["top"] != 1.0 else backtracking_line_search(R, phi))
    want, k = None, 0
    for k in range(6):
        s = c["top"] * 0.5**k
        bound = (1 - 1e-5 * s) * n0
        v = c["phi"][k] * n0
        if abs(v - bound) < 1e-9 * n0:
            return ev.label("undecided")
        if v <= bound or n0 < 1e-12:
            want = s
            break
    if want is None:
        want = c["top"] * 0.5**6
    ev.nontrivial(want < c["top"] * 0.9)
    if 0 < n0 < 1e-7:
        return ev.label("residual near machine precision")
    close(a, want, 1e-12, "step size")
    close(np.array(tried), c["top"] * 0.5 ** np.arange(len(tried)), 1e-12, "steps tried")
