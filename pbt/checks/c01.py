"""C01: the hypervolume is the Lebesgue measure of the dominated region."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref_hv
from pbt.core import Violation, arr, close, require, sub  # noqa: F401


@st.composite
def cases(draw, dims=(1, 5), nmax=9):
    d = draw(st.integers(*dims))
    n = draw(st.integers(0, nmax if d <= 4 else 7))
    ties = draw(st.booleans())
    e = gen.coarse(-1.0, 2.0, 6) if ties else gen.grid(-1.0, 1.4)
    Y = draw(gen.mat(e, n, d))
    if n > 1 and draw(st.integers(0, 3)) == 0:
        Y[-1] = list(Y[0])
    ref = draw(gen.vec(st.sampled_from([1.0, 0.0, 1.5, 0.5]) if ties else gen.grid(0.2, 1.5), d))
    return dict(Y=Y, ref=ref)


def _hv(Y, ref):
    from hvd.hypervolume import hypervolume

    v = hypervolume(np.array(Y, dtype=float).reshape(-1, len(ref)), np.array(ref, dtype=float))
    return float(arr(v, (), "hypervolume"))


def _classify(c, ev):
    Y, ref = np.array(c["Y"]).reshape(-1, len(c["ref"])), np.array(c["ref"])
    inside = [y for y in Y if np.all(y < ref)]
    nd = sum(r == 0 for r in ref_hv.layers(inside)) if inside else 0
    ev.label(f"d={len(ref)}")
    if len(inside) < len(Y):
        ev.label("some point outside the reference box")
    if nd < len(inside):
        ev.label("dominated point")
    if len(Y) and any(len(np.unique(Y[:, k])) < len(Y) for k in range(len(ref))):
        ev.label("tied coordinate")
    if any(r == 0 for r in ref) and any(r != 0 for r in ref):
        ev.label("zero in the reference point")
    if nd >= 2:
        ev.label(">=2 non-dominated points inside")
        ev.nontrivial()


RULE = "random point sets in 1..6 objectives; non-trivial: at least two mutually non-dominated points inside the box"


@sub("C01", "measure", cases(), 3000, 40000, RULE)
def measure(c, ev):
    _classify(c, ev)
    close(_hv(c["Y"], c["ref"]), ref_hv.hv(c["Y"], c["ref"]), 1e-9, "hypervolume", scale=3.0 ** len(c["ref"]))


@sub("C01", "measure6d", lambda: cases(dims=(5, 6), nmax=6), 200, 3000, RULE)
def measure6d(c, ev):
    _classify(c, ev)
    close(_hv(c["Y"], c["ref"]), ref_hv.hv(c["Y"], c["ref"]), 1e-9, "hypervolume", scale=3.0 ** len(c["ref"]))


@st.composite
def large(draw):
    d = draw(st.integers(2, 4))
    n = draw(st.integers(10, {2: 40, 3: 24, 4: 14}[d]))
    Y = draw(gen.front_position(n, d) if draw(st.booleans()) else gen.mat(gen.grid(0.0, 1.0), n, d))
    if draw(st.booleans()):  # points near a simplex: almost all are non-dominated
        Y = [[v / max(sum(y), 1e-3) for v in y] for y in Y]
    return dict(Y=Y, ref=[1.1] * d)


@sub("C01", "large_sets", large(), 300, 2500,
     "10..40 points, often near a simplex so that most are non-dominated; same non-triviality")
def large_sets(c, ev):
    _classify(c, ev)
    close(_hv(c["Y"], c["ref"]), ref_hv.hv(c["Y"], c["ref"]), 1e-9, "hypervolume")


@st.composite
def relations(draw):
    c = draw(cases(dims=(2, 4), nmax=8))
    d, n = len(c["ref"]), len(c["Y"])
    c["perm"] = list(draw(st.permutations(range(n))))
    c["axes"] = list(draw(st.permutations(range(d))))
    c["shift"] = draw(gen.vec(gen.grid(-3.0, 3.0, 48), d))
    c["scale"] = draw(gen.vec(st.sampled_from([0.25, 0.5, 1.0, 2.0, 3.0]), d))
    c["extra"] = draw(gen.vec(gen.grid(-1.0, 1.5, 40), d))
    return c


@sub("C01", "relations", relations(), 900, 6000,
     "the same point set reordered, translated, scaled, with axes permuted and with one more point; "
     "same non-triviality")
def relations_hold(c, ev):
    _classify(c, ev)
    d = len(c["ref"])
    Y, ref = np.array(c["Y"], dtype=float).reshape(-1, d), np.array(c["ref"], dtype=float)
    v, sc = _hv(Y, ref), 3.0**d
    require(v >= -1e-9, f"negative hypervolume {v}")
    close(_hv(Y[c["perm"]], ref), v, 1e-9, "hypervolume of the reordered set", scale=sc)
    close(_hv(Y[:, c["axes"]], ref[c["axes"]]), v, 1e-9, "hypervolume with objectives permuted", scale=sc)
    t = np.array(c["shift"])
    close(_hv(Y + t, ref + t), v, 1e-8, "hypervolume of the translated problem", scale=sc)
    s = np.array(c["scale"])
    close(_hv(Y * s, ref * s), v * np.prod(s), 1e-9, "hypervolume of the scaled problem", scale=sc * 3**d)
    more = _hv(np.vstack([Y, c["extra"]]), ref)
    require(more >= v - 1e-9 * sc, f"adding a point lowered the hypervolume from {v} to {more}")
    if len(Y):
        close(_hv(np.vstack([Y, Y[:1]]), ref), v, 1e-9, "hypervolume with a repeated point", scale=sc)
        worse = Y[0] + np.abs(t) * 0.1
        close(_hv(np.vstack([Y, worse]), ref), v, 1e-9, "hypervolume with a dominated point added", scale=sc)


@st.composite
def entry(draw):
    d = draw(st.integers(2, 4))
    n = draw(st.integers(1, 6))
    return dict(Y=draw(gen.mat(gen.grid(0.0, 1.2, 240), n, d)), ref=[1.0] * d, D=draw(gen.mat(gen.grid(-1, 1, 16), d, d)))


@sub("C01", "indicator_value", entry(), 150, 3000,
     "the indicator object's value from objective points and from decision points through a linear map, "
     "the reference point being given as an array or a list; non-trivial as above")
def indicator_value(c, ev):
    from hvd import HypervolumeDerivatives

    _classify(c, ev)
    Y, A = np.array(c["Y"]), np.array(c["D"]) + 4.5 * np.eye(len(c["ref"]))
    d = len(c["ref"])
    X = np.linalg.solve(A, Y.T).T
    ind = HypervolumeDerivatives(d, d, list(c["ref"]), func=lambda x: A @ x, jac=lambda x: A)
    want = ref_hv.hv(Y, c["ref"])
    close(ind.compute(Y=Y), want, 1e-9, "indicator value from Y", shape=False)
    got = float(arr(ind.compute(X=X), (), "indicator value from X"))
    # A @ x is rounded, so a point on the box may move by an ulp; the measure is continuous
    close(got, want, 1e-8, "indicator value from X")
    ind.ref = np.array(c["ref"]) + 0.5
    close(ind.compute(Y=Y), ref_hv.hv(Y, np.array(c["ref"]) + 0.5), 1e-9, "value after changing the reference point", shape=False)


@st.composite
def scaled(draw):
    d = draw(st.integers(2, 5))
    n = draw(st.integers(1, {2: 120, 3: 40, 4: 16, 5: 8}[d]))
    o, u = gen.affine(draw, d)
    if draw(st.integers(0, 3)) == 0:  # very large and very small objectives
        e = draw(gen.vec(st.integers(-15, 20), d))
        o, u = [draw(st.sampled_from([0.0, 0.0, -1.0, 1.0, -50.0])) * 10.0**k for k in e], [10.0**k for k in e]
    Y = np.array(draw(gen.cloud(n, d)))
    ref = np.array(draw(gen.vec(st.sampled_from([1.1, 1.0, 0.7, 2.0]), d)))
    return dict(Y=(Y * u + o).tolist(), ref=(ref * u + o).tolist())


@sub("C01", "scaled", scaled(), 900, 4000,
     "up to 120 points, near-ties down to one unit in the last place, origins up to 1e6 away and units of 1e-15 to 1e20; "
     "same non-triviality")
def scaled_sets(c, ev):
    _classify(c, ev)
    Y, ref = np.array(c["Y"]), np.array(c["ref"])
    box = float(np.prod(np.maximum(ref - np.minimum(Y.min(0), ref), 0)))
    got, want = _hv(Y, ref), ref_hv.hv(Y, ref)
    require(abs(got - want) <= 1e-9 * box, f"hypervolume {got}, measure {want}, box {box}")


@st.composite
def histories(draw):
    d = draw(st.integers(2, 4))
    e = gen.grid(0.0, 1.2, 60)
    out = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(["new", "new", "write", "same", "ref", "grow"]))
        if k == "new":
            out.append([k, draw(gen.matrices(e, (0, 6), d))])
        elif k in ("write", "grow"):
            out.append([k, draw(st.integers(0, 5)), draw(gen.vec(e, d))])
        elif k == "ref":
            out.append([k, draw(gen.vec(gen.grid(0.5, 1.5, 10), d))])
        else:
            out.append([k])
    return dict(Y=draw(gen.matrices(e, (1, 6), d)), ref=[1.0] * d, ops=out, form=draw(st.sampled_from(["array", "list", "tuples"])))


@sub("C01", "histories", histories(), 500, 6000,
     "one calculator and one indicator object used again after the point set was replaced, written to in place or grown "
     "and after the reference point was changed, points as arrays, lists or tuples; non-trivial: at least two different values")
def history(c, ev):
    from hvd import HypervolumeDerivatives
    from hvd.hypervolume import HyperVolume

    d = len(c["ref"])
    Y, ref = np.array(c["Y"], dtype=float).reshape(-1, d), np.array(c["ref"], dtype=float)
    calc, ind = HyperVolume(ref.copy()), HypervolumeDerivatives(d, d, ref.copy())
    ev.label(c["form"])
    values = set()
    for n, op in enumerate([["same"]] + c["ops"]):
        if op[0] == "new":
            Y = np.array(op[1], dtype=float).reshape(-1, d)
        elif op[0] == "write" and len(Y):
            Y[op[1] % len(Y)] = op[2]
        elif op[0] == "grow":
            Y = np.vstack([Y, op[2]])
        elif op[0] == "ref":
            ref = np.array(op[1])
            calc.ref, ind.ref = ref.copy(), ref.copy()
        want, before = ref_hv.hv(Y, ref), Y.copy()
        values.add(round(want, 12))
        front = Y if c["form"] == "array" else [list(y) for y in Y] if c["form"] == "list" else [tuple(y) for y in Y]
        close(float(arr(calc.compute(front), (), "hypervolume")), want, 1e-9, f"step {n} ({op[0]}): hypervolume", scale=2.0)
        if len(Y):
            close(float(arr(ind.compute(Y=Y), (), "value")), want, 1e-9, f"step {n} ({op[0]}): indicator from Y", scale=2.0)
            close(float(arr(ind.compute(X=Y), (), "value")), want, 1e-9, f"step {n} ({op[0]}): indicator from X", scale=2.0)
        require(np.array_equal(np.array(front, dtype=float).reshape(-1, d), before) and np.array_equal(Y, before),
                f"step {n} ({op[0]}): the caller's points were changed")
    ev.nontrivial(len(values) > 1)
