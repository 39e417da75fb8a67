"""A model of the clustered, matched, shifted reference set.

The model predicts everything the code is free of choice in; where the code may choose (which
k medoids, which of several equally good assignments) it reads the choice and verifies it.
"""
import itertools

import numpy as np
from scipy.optimize import linear_sum_assignment

from .core import arr, close, require


def dist(A, B):
    A, B = np.atleast_2d(A), np.atleast_2d(B)
    return np.sqrt(((A[:, None] - B[None]) ** 2).sum(-1))


def best_cost(D):
    """cost of a minimum assignment of the rows of D to distinct columns"""
    n, m = D.shape
    if n <= 5 and m <= 6:
        return min(sum(D[i, p[i]] for i in range(n)) for p in itertools.permutations(range(m), n))
    r, c = linear_sum_assignment(D)
    return D[r, c].sum()


def hausdorff(A, B):
    return dist(A, B).min(1).max()


def check_medoids(component, chosen, what):
    """`chosen` is a k-medoids choice among the points of `component`."""
    used = set()
    if len(np.unique(component, axis=0)) < min(len(chosen), len(component)) and len(chosen) < len(component):
        # fewer distinct reference points than targets: some must be repeated
        for t in chosen:
            require(dist(t, component).min() < 1e-12, f"{what}: target {t} is not a point of its reference component")
        return
    for t in chosen:
        hit = [i for i, r in enumerate(component) if np.allclose(r, t, rtol=0, atol=1e-12) and i not in used]
        require(hit, f"{what}: target {t} is not a point of its reference component, or is used twice")
        used.add(hit[0])
    if len(chosen) == len(component):
        return
    D = dist(component, chosen)
    s = np.sort(D, axis=1)
    # squared distances may be computed from squared norms, which cost digits far from the origin
    lost = 1e-14 * max(1.0, np.abs(component).max()) ** 2
    eps = np.minimum(np.sqrt(lost), lost / np.maximum(s[:, 0], 1e-300)) if s.shape[1] > 1 else np.zeros(len(s))
    if len(chosen) > 1 and np.min(s[:, 1] - s[:, 0] - 2 * eps) < 1e-9:
        return  # a reference point with two nearest medoids: the clusters are not determined
    label = D.argmin(1)
    for k, t in enumerate(chosen):
        C = component[label == k]
        own = dist(t, C).sum()
        best = dist(C, C).sum(1).min()
        d = dist(C, C)
        err = np.minimum(np.sqrt(lost), lost / np.maximum(d, 1e-300)).sum(1).max()
        require(own <= best + 1e-9 + 2 * err, f"{what}: target {t} is not the medoid of the reference points nearest to it "
                                    f"({own} against {best})")


class MatchModel:
    def __init__(self, comps, eta, Y_idx=None):
        self.ref = {k: np.array(v, dtype=float) for k, v in comps.items()}
        self.eta = {k: np.array(v, dtype=float) for k, v in eta.items()}
        self.Y_idx = None if Y_idx is None else [list(i) for i in Y_idx]
        self.medoids = {k: None for k in self.ref}
        self.targets = None
        self.comp = None  # component of every target

    @property
    def points(self):
        return np.concatenate(list(self.ref.values())) if self.targets is None else self.targets

    def plan(self, Y):
        """groups of Y and their components; None where a tie leaves it open, False where the
        call is outside the contract (a group larger than its component)."""
        n = len(self.ref)
        if n == 1:
            groups, pairs = [list(range(len(Y)))], [(0, 0)]
        else:
            groups = self.Y_idx
            if groups is None:
                D = np.array([dist(self.ref[i], Y).min(0) for i in range(n)])
                s = np.sort(D, axis=0)
                if np.min(s[1] - s[0]) < 1e-9:
                    return None
                lab = D.argmin(0)
                groups = [list(np.nonzero(lab == i)[0]) for i in range(n)]
                groups = [g for g in groups if g]
            C = np.array([[hausdorff(self.ref[i], Y[g]) for g in groups] for i in range(n)])
            options = sorted((sum(C[p[j], j] for j in range(len(groups))), p)
                             for p in itertools.permutations(range(n), len(groups)))
            if len(options) > 1 and options[1][0] - options[0][0] < 1e-9:
                return None
            pairs = [(k, j) for j, k in enumerate(options[0][1])]
        if any(len(groups[j]) > len(self.ref[k]) for k, j in pairs):
            return False
        return groups, pairs

    def matched(self, Y, plan, got, what="match"):
        """verify and adopt what `match(Y)` produced"""
        groups, pairs = plan
        got = arr(got, Y.shape, f"{what}: matched reference set").copy()
        comp = np.full(len(Y), -1)
        for k, j in pairs:
            g = list(groups[j])
            t = got[g]
            old = self.medoids[k]
            if old is not None and len(old) == len(g):
                a = sorted(map(tuple, np.round(old, 12) + 0.0))
                b = sorted(map(tuple, np.round(t, 12) + 0.0))
                require(np.allclose(a, b, rtol=0, atol=1e-10),
                        f"{what}: component {k} had the targets {a}, now {b}")
            else:
                check_medoids(self.ref[k], t, what)
            cost, best = np.linalg.norm(Y[g] - t, axis=1).sum(), best_cost(dist(Y[g], t))
            require(cost <= best + 1e-9 * max(1, best),
                    f"{what}: total distance {cost} of the assignment in component {k}, the minimum is {best}")
            self.medoids[k] = t.copy()
            comp[g] = k
        if len(self.ref) > 1:
            self.Y_idx = groups
        self.groups, self.pairs = groups, pairs
        self.targets, self.comp = got, comp

    def shift(self, c, indices=None):
        if self.targets is None:
            for k in self.ref:
                self.ref[k] = self.ref[k] + c * self.eta[k]
            return
        for i in range(len(self.targets)) if indices is None else indices:
            self.targets[i] = self.targets[i] + c * self.eta[self.comp[i]]
        for k, j in self.pairs:
            self.medoids[k] = self.targets[list(self.groups[j])].copy()

    def agree(self, ref, what):
        close(ref.reference_set, self.points, 1e-10, f"{what}: reference set")
