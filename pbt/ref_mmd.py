"""Reference kernels and (matched) MMD, with derivatives, by explicit loops."""
import numpy as np

KERNELS = ("rbf", "rational_quadratic", "laplace")


def k(name, theta, x, y):
    d = np.asarray(x) - np.asarray(y)
    if name == "rbf":
        return np.exp(-theta * (d @ d))
    if name == "rational_quadratic":
        return 1.0 / (theta * (d @ d) / 2 + 1)
    return np.exp(-theta * np.abs(d).sum())


def dk(name, theta, x, y):
    d = np.asarray(x) - np.asarray(y)
    v = k(name, theta, x, y)
    if name == "rbf":
        return -2 * theta * v * d
    if name == "rational_quadratic":
        return -theta * v**2 * d
    return -theta * v * np.sign(d)


def ddk(name, theta, x, y):
    """second derivative with respect to x twice; the mixed one is its negative (d = x - y)"""
    d = np.asarray(x) - np.asarray(y)
    v = k(name, theta, x, y)
    if name == "rbf":
        return v * (4 * theta**2 * np.outer(d, d) - 2 * theta * np.eye(len(d)))
    if name == "rational_quadratic":
        return 2 * theta**2 * v**3 * np.outer(d, d) - theta * v**2 * np.eye(len(d))
    s = np.sign(d)
    return theta**2 * v * np.outer(s, s)


def value(name, theta, Y, R):
    g = lambda A, B: np.mean([[k(name, theta, a, b) for b in B] for a in A])  # noqa: E731
    return g(R, R) + g(Y, Y) - 2 * g(R, Y)


def matched_value(name, theta, beta, Y, T):
    yy = np.mean([[k(name, theta, a, b) for b in Y] for a in Y])
    return beta * yy + np.mean([2 - 2 * k(name, theta, y, t) for y, t in zip(Y, T)])


def y_derivatives(name, theta, Y, weight, pairs):
    """Gradient (N, m) and Hessian blocks (N, N, m, m) of
    weight * mean_{i,j} k(y_i, y_j) - 2 * sum_{(i, r, w) in pairs} w k(y_i, r)."""
    N, m = Y.shape
    G, H = np.zeros((N, m)), np.zeros((N, N, m, m))
    for i in range(N):
        for j in range(N):
            if i == j:
                continue
            G[i] += 2 * weight / N**2 * dk(name, theta, Y[i], Y[j])
            B = 2 * weight / N**2 * ddk(name, theta, Y[i], Y[j])
            H[i, i] += B
            H[i, j] -= B
    for i, r, w in pairs:
        G[i] -= 2 * w * dk(name, theta, Y[i], r)
        H[i, i] -= 2 * w * ddk(name, theta, Y[i], r)
    return G, H


def chain(q, X, G, H):
    """Chain rule through y = q(x): gradient (N, n) and full Hessian (N n, N n), point-major."""
    N, n = X.shape
    J = [q.jac(x) for x in X]
    gx = np.array([J[i].T @ G[i] for i in range(N)])
    hx = np.zeros((N, n, N, n))
    for i in range(N):
        for j in range(N):
            hx[i, :, j, :] = J[i].T @ H[i, j] @ J[j]
        hx[i, :, i, :] += np.einsum("k,kab->ab", G[i], q.hess(X[i]))
    return gx, hx.reshape(N * n, N * n)


def flat(H):
    N, _, m, _ = H.shape
    return H.transpose(0, 2, 1, 3).reshape(N * m, N * m)
