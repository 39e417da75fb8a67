"""Reference models for dominance and hypervolume, written from the definitions."""
import numpy as np


def hv(points, ref):
    """Lebesgue measure of {z : some point <= z <= ref}, by cutting space into the cells of the
    points' coordinates and adding the covered ones."""
    ref = np.asarray(ref, dtype=float)
    d = len(ref)
    P = np.asarray(points, dtype=float).reshape(-1, d)
    P = P[np.all(P < ref, axis=1)] if len(P) else P
    if len(P) == 0:
        return 0.0
    axes = [np.append(np.unique(P[:, k]), ref[k]) for k in range(d)]
    covered = np.zeros([len(a) - 1 for a in axes], dtype=bool)
    for p in P:
        covered[tuple(slice(int(np.searchsorted(axes[k], p[k])), None) for k in range(d))] = True
    vol = covered.astype(float)
    for k in reversed(range(d)):
        vol = vol @ np.diff(axes[k])
    return float(vol)


def dominates(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return bool(np.all(a <= b) and np.any(a < b))


def layers(Y):
    """Front number of every point: longest chain of points dominating it."""
    Y = np.asarray(Y, dtype=float)
    n = len(Y)
    A, B = Y[:, None], Y[None]
    D = np.all(A <= B, axis=2) & np.any(A < B, axis=2)  # D[j, i]: j dominates i
    rank = [-1] * n
    left, k = np.ones(n, dtype=bool), 0
    while left.any():
        front = left & ~np.any(D[left], axis=0)
        for i in np.nonzero(front)[0]:
            rank[i] = k
        left &= ~front
        k += 1
    return rank


def hv_grad(Y, ref, h):
    """Central differences; exact up to rounding because the hypervolume is affine in every
    coordinate as long as no order of coordinates changes within h."""
    Y = np.asarray(Y, dtype=float)
    G = np.zeros(Y.shape)
    for i in range(Y.shape[0]):
        for k in range(Y.shape[1]):
            A, B = Y.copy(), Y.copy()
            A[i, k] += h
            B[i, k] -= h
            G[i, k] = (hv(A, ref) - hv(B, ref)) / (2 * h)
    return G


def hv_hess(Y, ref, h):
    """Mixed second differences, exact up to rounding (the hypervolume is multi-affine)."""
    Y = np.asarray(Y, dtype=float)
    n = Y.size
    H = np.zeros((n, n))
    flat = Y.ravel()

    def f(v):
        return hv(v.reshape(Y.shape), ref)

    for a in range(n):
        for b in range(a + 1, n):
            s = 0.0
            for sa in (1, -1):
                for sb in (1, -1):
                    v = flat.copy()
                    v[a] += sa * h
                    v[b] += sb * h
                    s += sa * sb * f(v)
            H[a, b] = H[b, a] = s / (4 * h * h)
    return H


def hv_derivatives(Y, ref):
    """Exact gradient (N, m) and Hessian (N m, N m) where all coordinates of an axis differ and
    all points are strictly better than `ref`: the hypervolume is the sum over the covered cells
    of the products of their widths, and each width is a difference of two coordinates."""
    Y, ref = np.asarray(Y, dtype=float), np.asarray(ref, dtype=float)
    n, d = Y.shape
    order = [np.argsort(Y[:, k]) for k in range(d)]
    rank = [np.argsort(o) for o in order]
    covered = np.zeros([n] * d)
    for i in range(n):
        covered[tuple(slice(int(rank[k][i]), None) for k in range(d))] = 1.0
    w = [np.diff(np.append(Y[order[k], k], ref[k])) for k in range(d)]
    # D[j, c]: derivative of the width of cell c with respect to the j-th coordinate of the axis
    D = -np.eye(n) + np.eye(n, k=-1)

    def contract(keep):
        out = covered
        for k in reversed(range(d)):
            if k not in keep:
                out = np.tensordot(out, w[k], axes=([k], [0]))
        return out

    G = np.zeros((n, d))
    H = np.zeros((n, d, n, d))
    for k in range(d):
        G[:, k] = (D @ contract({k}))[rank[k]]
        for l in range(k + 1, d):
            B = (D @ contract({k, l}) @ D.T)[np.ix_(rank[k], rank[l])]
            H[:, k, :, l] = B
            H[:, l, :, k] = B.T
    return G, H.reshape(n * d, n * d)
