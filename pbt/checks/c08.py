"""C08: matched MMD: value and derivatives over histories of evaluations and changes."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref_mmd
from pbt.checks.c07 import THETAS, given_of, kink, make
from pbt.checks.c09 import chim
from pbt.core import close, equal, require, sub
from pbt.maps import Quadratic, quadratic, moved
from pbt.ref_match import MatchModel

BETAS = [0.25, 0.5, 1.0, 0.0, 2.0]


@st.composite
def cases(draw, kernels=ref_mmd.KERNELS, nmax=5, ops=5):
    m, nv, n = draw(st.integers(2, 4)), draw(st.integers(1, 4)), draw(st.integers(1, nmax))
    comps = draw(st.sampled_from([1, 1, 2]))
    e = gen.grid(-1.5, 1.5, 3000)
    ref = [[[a + 1.0 * k for a in p] for p in draw(gen.mat(e, n + draw(st.sampled_from([0, 0, 1, 3])), m))] for k in range(comps)]
    X = gen.mat(gen.grid(-1.0, 1.0, 2000), n, nv)
    out = [["compute", draw(X)]] if draw(st.booleans()) else []
    for _ in range(draw(st.integers(1, ops))):
        k = draw(st.integers(0, 9))
        if k == 9:  # a row of the last population is overwritten in place, then it is evaluated again
            out.append(["write", draw(st.integers(0, n - 1)), draw(gen.vec(gen.grid(-1.0, 1.0, 2000), nv))])
            out.append(["same", draw(st.sampled_from(["gradient", "hessian", "compute"]))])
        elif k <= 3:
            out.append([["gradient", "hessian", "hessian", "compute"][k], draw(X)])
        elif k == 4:
            out.append(["beta", draw(st.sampled_from(BETAS))])
        elif k == 5:
            out.append(["scale_beta", draw(st.sampled_from([0.8, 0.5]))])
        elif k == 6:
            out.append(["shift", draw(st.sampled_from([0.05, 0.08])), draw(st.lists(st.integers(0, n - 1), max_size=n, unique=True))])
        elif k == 7:
            out.append(["same", draw(st.sampled_from(["gradient", "hessian", "compute"]))])
        else:
            out.append(["reference", draw(gen.mat(e, n, m))])
    out.append([draw(st.sampled_from(["hessian", "hessian", "gradient"])), draw(X)])
    return dict(kernel=draw(st.sampled_from(kernels)), theta=draw(st.sampled_from(THETAS)), q=draw(quadratic(m, nv)),
                ref=ref, ops=out, beta=draw(st.sampled_from(BETAS + [None])), default=draw(st.booleans()),
                given=draw(st.integers(0, 3)), wrap=draw(st.booleans()))


RULE = ("histories of value, gradient and Hessian evaluations mixed with changes of the spread weight, target shifts "
        "and new reference sets, three kernels; non-trivial: derivatives of at least two points after such a change")


def eta_of(comps, ref):
    for k, r in comps.items():
        w = chim(r)
        if w is not None:
            close(ref.eta[k], w, 1e-6, "shift direction")
    return {k: np.array(ref.eta[k]) for k in comps}


def run(c, ev):
    tol = c.get("tol", 1e-9)
    from hvd.reference_set import ReferenceSet

    def near(got, want, what):
        close(got, want, tol, what, unit=None if tol == 1e-9 else 1e-3 + np.abs(want).max())

    q = Quadratic(c["q"])
    name, th = c["kernel"], c["theta"]
    comps = {k: np.array(r) for k, r in enumerate(c["ref"])}
    ref = ReferenceSet({k: v.copy() for k, v in comps.items()})
    if len(comps) == 1 and not c["wrap"]:
        ref = comps[0].copy()
    kw = {} if c["beta"] is None else dict(beta=c["beta"])
    ind = make("MMDMatching", c, ref, q, **kw)
    beta = 0.5 if c["beta"] is None else c["beta"]
    model = MatchModel(comps, eta_of(comps, ind.ref))
    last, changed = None, False
    ev.label(name, f"{len(comps)} components")
    for n, op in enumerate(c["ops"]):
        kind, what = op[0], f"step {n} ({op[0]})"
        if kind == "beta":
            beta = ind.beta = op[1]
            changed = True
            continue
        if kind == "scale_beta":
            ind.beta = ind.beta * op[1]
            beta *= op[1]
            changed = True
            continue
        if kind == "shift":
            ind.ref.shift(op[1], np.array(op[2], dtype=int))
            model.shift(op[1], op[2])
            changed = True
            continue
        if kind == "reference":
            R = {0: np.array(op[1])}
            ind.ref = ReferenceSet(R[0].copy())
            model = MatchModel(R, eta_of(R, ind.ref))
            changed = True
            continue
        if kind == "write":
            if last is not None:
                last[op[1]] = op[2]
            continue
        if kind == "same":
            if last is None:
                continue
            kind, X = op[1], last
        else:
            X = last = np.array(op[1])
        Y = np.array([q.f(x) for x in X])
        plan = model.plan(Y)
        if not plan:
            return ev.label("stopped at a tie or at a group larger than its component")
        before = X.copy()
        if kind == "compute":
            got = ind.compute(Y=Y.copy()) if n % 2 else ind.compute(X=X)
        elif kind == "gradient":
            got = ind.compute_gradient(X, **given_of(c, q, X, Y))
        else:
            got = ind.compute_hessian(X, **given_of(c, q, X, Y))
        model.matched(Y, plan, ind.ref.reference_set, what)
        T = model.targets
        equal(X, before, "the caller's decisions")
        if kind == "compute":
            close(got, ref_mmd.matched_value(name, th, beta, Y, T), tol, f"{what}: value with weight {beta}", shape=False)
            continue
        if kink(c, Y, T):
            ev.label("kink")
            continue
        ev.nontrivial(changed and len(Y) > 1 and beta != 0)
        N = len(Y)
        G, H = ref_mmd.y_derivatives(name, th, Y, beta, [(i, t, 1 / N) for i, t in enumerate(T)])
        gx, hx = ref_mmd.chain(q, X, G, H)
        near(got["MMDdY"], G, f"{what}: gradient in objective space with weight {beta}")
        near(got["MMDdX"], gx, f"{what}: gradient in decision space with weight {beta}")
        if kind == "hessian":
            near(got["MMDdY2"], ref_mmd.flat(H), f"{what}: Hessian in objective space with weight {beta}")
            near(got["MMDdX2"], hx, f"{what}: Hessian in decision space with weight {beta}")
        if n == len(c["ops"]) - 1:
            out = ind.compute_derivatives(X.copy(), compute_hessian=kind == "hessian", **given_of(c, q, X, Y))
            if np.abs(np.array(ind.ref.reference_set) - T).max() > 1e-10:
                return ev.label("another optimal assignment")
            if kind == "hessian":
                require(isinstance(out, tuple) and len(out) == 2, "expected a (gradient, Hessian) pair")
                near(out[0], gx, "gradient of the pair")
                near(out[1], hx, "Hessian of the pair")
            else:
                near(out, gx, "gradient")


for _k in ref_mmd.KERNELS:
    for _part in (1, 2):
        sub("C08", f"matched_{_k}_{_part}", cases(kernels=(_k,)), 100, 2500, RULE)(run)


@st.composite
def cloud_cases(draw):
    m, nv = draw(st.integers(2, 3)), draw(st.integers(1, 3))
    n = draw(st.sampled_from([3, 12, 30]))
    kinds = ("uniform", "front", "sphere")
    unit, at = draw(st.sampled_from([(1.0, 0.0), (1.0, 50.0), (1.0, -1e3), (100.0, 1e5), (0.01, 10.0)]))
    q = draw(quadratic(m, nv))
    R = draw(gen.cloud(n + draw(st.sampled_from([0, 0, 10])), m, kinds, -1.0, 2.0))
    X = draw(gen.cloud(n, nv, ("uniform",), -1.0, 1.0))
    th = draw(st.sampled_from([1.0, 0.5, 2.0]))
    k = draw(st.sampled_from(ref_mmd.KERNELS))
    ops = [["compute", X]] if draw(st.booleans()) else []
    if draw(st.booleans()):
        ops += [["compute", X], ["shift", 0.05 * unit, draw(st.lists(st.integers(0, n - 1), max_size=4, unique=True))], ["beta", 0.25]]
    return dict(kernel=k, theta=th / (unit if k == "laplace" else unit**2), default=False, beta=draw(st.sampled_from(BETAS)),
                q=moved(q, at, unit),
                ref=[(unit * np.array(R) + at).tolist()], ops=ops + [["hessian", X]], given=draw(st.integers(0, 3)), wrap=True,
                tol=1e-8)


def run_cloud(c, ev):
    ev.label(f"{len(c['ops'][-1][1])} points")
    ev.nontrivial()
    run(c, ev)


sub("C08", "clouds", cloud_cases(), 30, 700,
    "3 to 30 points, up to 1e5 away from the origin, in units of 0.01 to 100; all cases non-trivial")(run_cloud)
