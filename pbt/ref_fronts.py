"""Pareto-optimal decisions of the benchmark problems, from their published Pareto sets.

`PRE[name](F, n)` gives an optimal decision for a point F of the front; `CURVE[name](t, n)` gives the optimal decision at
parameter t in [0, 1] (None where that parameter is not optimal)."""
import numpy as np

pi, sin, cos, sqrt = np.pi, np.sin, np.cos, np.sqrt


def js(n):
    return np.arange(1, n + 1)


def tail(x1, y, k=1):
    """first k entries from x1, the rest from y"""
    return np.r_[np.atleast_1d(x1)[:k], y[k:]]


def zdt(F, n):
    return np.r_[F[0], np.zeros(n - 1)]


def zdt6(F, n):
    a, b = 0.0, 0.08145  # the first branch: f1 falls from 1 to its minimum
    for _ in range(200):
        m = (a + b) / 2
        a, b = (m, b) if 1 - np.exp(-4 * m) * sin(6 * pi * m) ** 6 > F[0] else (a, m)
    return np.r_[(a + b) / 2, np.zeros(n - 1)]


def uf12(k):
    def x(F, n):
        x1 = F[0] ** 5 if k == 7 else F[0]
        j = js(n)
        if k == 2:
            e = 0.3 * x1**2 * cos(24 * pi * x1 + 4 * j * pi / n) + 0.6 * x1
            t = 6 * pi * x1 + j * pi / n
            return tail(x1, e * np.where(j % 2 == 1, cos(t), sin(t)))
        if k == 3:
            return tail(x1, x1 ** (0.5 * (1 + 3 * (j - 2) / (n - 2))))
        return tail(x1, sin(6 * pi * x1 + j * pi / n))

    return x


def sphere_angles(F):
    F = np.asarray(F, dtype=float)
    return 2 / pi * np.arcsin(np.clip(F[2], 0, 1)), 2 / pi * np.arctan2(F[1], F[0])


def uf3d(k):
    def x(F, n):
        if k == 9:
            x2 = 1 - F[2]
            x1 = 0.0 if x2 <= 0 else np.clip(F[0] / x2, 0, 1)
        else:
            x1, x2 = sphere_angles(F)
        return tail([x1, x2], 2 * x2 * sin(2 * pi * x1 + js(n) * pi / n), 2)

    return x


def cf(k):
    def x(F, n):
        x1 = F[0]
        j = js(n)
        t = 6 * pi * x1 + j * pi / n
        if k == 1:
            return tail(x1, x1 ** (0.5 * (1 + 3 * (j - 2) / (n - 2))))
        if k == 2:
            return tail(x1, np.where(j % 2 == 1, sin(t), cos(t)))
        if k in (3, 4):
            y = sin(t)
        elif k in (5, 6):
            y = 0.8 * x1 * np.where(j % 2 == 1, cos(t), sin(t))
        else:
            y = np.where(j % 2 == 1, cos(t), sin(t))
        if k in (4, 5) and x1 > 0.5:
            y[1] += 0.5 * x1 - 0.25 if x1 <= 0.75 else 1.0
        if k in (6, 7):
            y[1] += sqrt(max(0.0, 0.5 * (1 - x1) - (1 - x1) ** 2))
            y[3] += sqrt(max(0.0, 0.25 * sqrt(1 - x1) - 0.5 * (1 - x1)))
        return tail(x1, y)

    return x


def dtlz(k, inverted=False):
    def x(F, n):
        F = np.asarray(F, dtype=float)
        F = 0.5 - F if inverted else F
        M = len(F)
        z = np.full(n, 0.5)
        if k == 1:
            rest = 0.5
            for i in range(M - 1):
                s = 0.0 if rest <= 1e-15 else np.clip(F[M - 1 - i] / rest, 0, 1)
                z[i] = 1 - s
                rest -= F[M - 1 - i]
        else:
            for i in range(M - 1):
                a = 2 / pi * np.arctan2(F[M - 1 - i], np.linalg.norm(F[: M - 1 - i]))
                z[i] = max(a, 0.0) ** 0.01 if k == 4 else a
        return z

    return x


PRE = {"ZDT6": zdt6}
for _k in (1, 2, 3, 4):
    PRE[f"ZDT{_k}"] = zdt
for _k in range(1, 8):
    PRE[f"UF{_k}"] = uf12(_k)
    PRE[f"CF{_k}"] = cf(_k)
for _k in (8, 9, 10):
    PRE[f"UF{_k}"] = uf3d(_k)
    PRE[f"CF{_k}"] = uf3d(8)
for _k in range(1, 5):
    PRE[f"DTLZ{_k}"] = dtlz(_k)
    PRE[f"IDTLZ{_k}"] = dtlz(_k, True)
    PRE[f"Eq1DTLZ{_k}"] = dtlz(_k)
    PRE[f"Eq1IDTLZ{_k}"] = dtlz(_k, True)
