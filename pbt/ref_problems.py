"""The benchmark problems from their published definitions, one decision vector at a time.

Every entry: objective f(x), optional inequality constraints g(x) <= 0 and equality constraints,
default bounds, and points of the Pareto set in terms of a few parameters in [0, 1].
Indices j below are 1-based, as in the reports (CEC 2009, DTLZ, ZDT, WFG).
"""
import math

import numpy as np

pi, sin, cos, sqrt, exp = np.pi, np.sin, np.cos, np.sqrt, np.exp


# ---------------------------------------------------------------- ZDT
def zdt(k):
    def f(x, M=2):
        n, f1 = len(x), x[0]
        s = sum(x[1:]) / (n - 1)
        if k in (1, 2, 3):
            g = 1 + 9 * s
        elif k == 4:
            g = 1 + 10 * (n - 1) + sum(v * v - 10 * math.cos(4 * pi * v) for v in x[1:])
        else:
            f1 = 1 - math.exp(-4 * x[0]) * math.sin(6 * pi * x[0]) ** 6
            g = 1 + 9 * s**0.25
        r = f1 / g
        if k in (1, 4):
            h = 1 - math.sqrt(r)
        elif k in (2, 6):
            h = 1 - r * r
        else:
            h = 1 - math.sqrt(r) - r * math.sin(10 * pi * f1)
        return np.array([f1, g * h])

    return f


# ---------------------------------------------------------------- DTLZ
def dtlz_g(k, z):
    if k in (1, 3):
        return 100 * (len(z) + sum((v - 0.5) ** 2 - math.cos(20 * pi * (v - 0.5)) for v in z))
    if k in (2, 4, 5):
        return sum((v - 0.5) ** 2 for v in z)
    return sum(v**0.1 for v in z)


def dtlz(k, inverted=False):
    def f(x, M=3):
        p, z = list(x[: M - 1]), list(x[M - 1:])
        if k == 7:
            g = 1 + 9 / len(z) * sum(z)
            h = M - sum(v / (1 + g) * (1 + math.sin(3 * pi * v)) for v in p)
            return np.array(p + [(1 + g) * h])
        g = dtlz_g(k, z)
        out = []
        if k == 1:
            for i in range(M):
                v = 0.5 * (1 + g)
                for j in range(M - 1 - i):
                    v *= p[j]
                if i:
                    v *= 1 - p[M - 1 - i]
                out.append(v)
        else:
            if k == 4:
                p = [v**100 for v in p]
            if k in (5, 6):
                p = [p[0]] + [(1 + 2 * g * v) / (2 * (1 + g)) for v in p[1:]]
            for i in range(M):
                v = 1 + g
                for j in range(M - 1 - i):
                    v *= math.cos(p[j] * pi / 2)
                if i:
                    v *= math.sin(p[M - 1 - i] * pi / 2)
                out.append(v)
        out = np.array(out)
        return (1 + g) / 2 - out if inverted else out

    return f


def eq_dtlz(x, M):
    return np.array([abs(sum((v - 0.5) ** 2 for v in x[: M - 1]) - 0.16) - 1e-4])


# ---------------------------------------------------------------- UF and CF
def odd_even(n):
    return [j for j in range(3, n + 1) if j % 2 == 1], [j for j in range(2, n + 1) if j % 2 == 0]


def uf(k):
    def f(x, M=2):
        n, x1 = len(x), x[0]
        J1, J2 = odd_even(n)

        def ys(j):
            if k == 2:
                a = 0.3 * x1**2 * cos(24 * pi * x1 + 4 * j * pi / n) + 0.6 * x1
                return x[j - 1] - a * (cos if j % 2 else sin)(6 * pi * x1 + j * pi / n)
            if k == 3:
                return x[j - 1] - x1 ** (0.5 * (1 + 3 * (j - 2) / (n - 2)))
            return x[j - 1] - sin(6 * pi * x1 + j * pi / n)

        def part(J):
            y = [ys(j) for j in J]
            if k in (1, 2, 7):
                return 2 / len(J) * sum(v**2 for v in y)
            if k == 4:
                return 2 / len(J) * sum(abs(v) / (1 + exp(2 * abs(v))) for v in y)
            if k == 5:
                return 2 / len(J) * sum(2 * v**2 - cos(4 * pi * v) + 1 for v in y)
            prod = np.prod([cos(20 * v * pi / sqrt(j)) for v, j in zip(y, J)])
            return 2 / len(J) * (4 * sum(v**2 for v in y) - 2 * prod + 2)

        a, b = {1: (x1, 1 - sqrt(x1)), 2: (x1, 1 - sqrt(x1)), 3: (x1, 1 - sqrt(x1)), 4: (x1, 1 - x1**2),
                5: (x1, 1 - x1), 6: (x1, 1 - x1), 7: (x1**0.2, 1 - x1**0.2)}[k]
        if k == 5:  # N = 10, epsilon = 0.1
            e = (1 / 20 + 0.1) * abs(sin(20 * pi * x1))
        elif k == 6:  # N = 2, epsilon = 0.1
            e = max(0.0, 2 * (1 / 4 + 0.1) * sin(4 * pi * x1))
        else:
            e = 0.0
        return np.array([a + e + part(J1), b + e + part(J2)])

    return f


def threes(n):
    return ([j for j in range(3, n + 1) if (j - 1) % 3 == 0], [j for j in range(3, n + 1) if (j - 2) % 3 == 0],
            [j for j in range(3, n + 1) if j % 3 == 0])


def uf3(k):
    def f(x, M=3):
        n, x1, x2 = len(x), x[0], x[1]
        out = []
        for J in threes(n):
            y = [x[j - 1] - 2 * x2 * sin(2 * pi * x1 + j * pi / n) for j in J]
            if k == 10:
                out.append(2 / len(J) * sum(4 * v**2 - cos(8 * pi * v) + 1 for v in y))
            else:
                out.append(2 / len(J) * sum(v**2 for v in y))
        if k == 9:
            e = max(0.0, 1.1 * (1 - 4 * (2 * x1 - 1) ** 2))
            base = [0.5 * (e + 2 * x1) * x2, 0.5 * (e - 2 * x1 + 2) * x2, 1 - x2]
        else:
            base = [cos(0.5 * x1 * pi) * cos(0.5 * x2 * pi), cos(0.5 * x1 * pi) * sin(0.5 * x2 * pi), sin(0.5 * x1 * pi)]
        return np.array(base) + out

    return f


def kinked(t):
    return abs(t) if t < 1.5 * (1 - sqrt(2) / 2) else 0.125 + (t - 1) ** 2


def cf(k):
    def f(x, M=2):
        n, x1 = len(x), x[0]
        J1, J2 = odd_even(n)

        def y(j):
            if k == 1:
                return x[j - 1] - x1 ** (0.5 * (1 + 3 * (j - 2) / (n - 2)))
            t = 6 * pi * x1 + j * pi / n
            if k == 2:
                return x[j - 1] - (sin if j % 2 else cos)(t)
            if k in (3, 4):
                return x[j - 1] - sin(t)
            if k in (5, 6):
                return x[j - 1] - 0.8 * x1 * (cos if j % 2 else sin)(t)
            return x[j - 1] - (cos if j % 2 else sin)(t)

        def part(J):
            v = {j: y(j) for j in J}
            if k in (1, 2):
                return 2 / len(J) * sum(t**2 for t in v.values())
            if k == 3:
                prod = np.prod([cos(20 * t * pi / sqrt(j)) for j, t in v.items()])
                return 2 / len(J) * (4 * sum(t**2 for t in v.values()) - 2 * prod + 2)
            s = 0.0
            for j, t in v.items():
                if k in (4, 5) and j == 2:
                    s += kinked(t)
                elif k in (4, 6) or (k == 7 and j in (2, 4)):
                    s += t**2
                else:
                    s += 2 * t**2 - cos(4 * pi * t) + 1
            return s

        a = {1: 1 - x1, 2: 1 - sqrt(x1), 3: 1 - x1**2, 4: 1 - x1, 5: 1 - x1, 6: (1 - x1) ** 2, 7: (1 - x1) ** 2}[k]
        return np.array([x1 + part(J1), a + part(J2)])

    return f


def squash(t):
    return t / (1 + exp(4 * abs(t)))


def signed_root(t):
    return np.sign(t) * sqrt(abs(t))


def cf_g(k):
    """inequality constraints, feasible where <= 0 (the reports use >= 0)"""

    def g(x, F):
        n, x1 = len(x), x[0]
        f1, f2 = F[0], F[1]
        if k == 1:
            return -np.array([f1 + f2 - abs(sin(10 * pi * (f1 - f2 + 1))) - 1])
        if k == 2:
            return -np.array([squash(f2 + sqrt(f1) - sin(2 * pi * (sqrt(f1) - f2 + 1)) - 1)])
        if k == 3:
            return -np.array([f2 + f1**2 - sin(2 * pi * (f1**2 - f2 + 1)) - 1])
        if k == 4:
            return -np.array([squash(x[1] - sin(6 * pi * x1 + 2 * pi / n) - 0.5 * x1 + 0.25)])
        if k == 5:
            return -np.array([x[1] - 0.8 * x1 * sin(6 * pi * x1 + 2 * pi / n) - 0.5 * x1 + 0.25])
        if k in (6, 7):
            a = 0.8 * x1 if k == 6 else 1.0
            return -np.array([
                x[1] - a * sin(6 * pi * x1 + 2 * pi / n) - signed_root(0.5 * (1 - x1) - (1 - x1) ** 2),
                x[3] - a * sin(6 * pi * x1 + 4 * pi / n) - signed_root(0.25 * sqrt(1 - x1) - 0.5 * (1 - x1))])
        f3 = F[2]
        q, r = (f1**2 + f2**2) / (1 - f3**2), (f1**2 - f2**2) / (1 - f3**2)
        s = sin(2 * pi * (r + 1))
        return -np.array([{8: q - 4 * abs(s) - 1, 9: q - 3 * s - 1, 10: q - s - 1}[k]])

    return g


# ---------------------------------------------------------------- WFG
def s_linear(y, A):
    return abs(y - A) / abs(math.floor(A - y) + A)


def b_flat(y, A, B, C):
    return A + min(0, math.floor(y - B)) * A * (B - y) / B - min(0, math.floor(C - y)) * (1 - A) * (y - C) / (1 - C)


def b_param(y, u, A, B, C):
    return y ** (B + (C - B) * (A - (1 - 2 * u) * abs(math.floor(0.5 - u) + A)))


def s_decept(y, A, B, C):
    t1 = math.floor(y - A + B) * (1 - C + (A - B) / B) / (A - B)
    t2 = math.floor(A + B - y) * (1 - C + (1 - A - B) / B) / (1 - A - B)
    return 1 + (abs(y - A) - B) * (t1 + t2 + 1 / B)


def s_multi(y, A, B, C):
    t = abs(y - C) / (2 * (math.floor(C - y) + C))
    return (1 + math.cos((4 * A + 2) * pi * (0.5 - t)) + 4 * B * t**2) / (B + 2)


def r_sum(y, w=None):
    w = [1.0] * len(y) if w is None else w
    return sum(a * b for a, b in zip(w, y)) / sum(w)


def r_nonsep(y, A):
    n = len(y)
    s = sum(y[j] + sum(abs(y[j] - y[(1 + j + k) % n]) for k in range(A - 1)) for j in range(n))
    h = math.ceil(A / 2)
    return s / (n / A * h * (1 + 2 * A - 2 * h))


def clip01(v):
    return min(1.0, max(0.0, v))


def wfg(no):
    def f(z, M=3, k=None):
        n = len(z)
        k = (4 if M == 2 else 2 * (M - 1)) if k is None else k
        y = [float(z[i]) / (2.0 * (i + 1)) for i in range(n)]
        bp = (0.98 / 49.98, 0.02, 50.0)
        if no == 7:
            y = [b_param(y[i], r_sum(y[i + 1:]), *bp) if i < k else y[i] for i in range(n)]
        elif no == 8:
            y = [b_param(y[i], r_sum(y[:i]), *bp) if i >= k else y[i] for i in range(n)]
        elif no == 9:
            y = [b_param(y[i], r_sum(y[i + 1:]), *bp) if i < n - 1 else y[i] for i in range(n)]
        if no in (1, 2, 3, 6, 7, 8):
            y = y[:k] + [clip01(s_linear(v, 0.35)) for v in y[k:]]
        elif no == 4:
            y = [clip01(s_multi(v, 30, 10, 0.35)) for v in y]
        elif no == 5:
            y = [clip01(s_decept(v, 0.35, 0.001, 0.05)) for v in y]
        else:
            y = [clip01(s_decept(v, 0.35, 0.001, 0.05)) for v in y[:k]] + [clip01(s_multi(v, 30, 95, 0.35)) for v in y[k:]]
        w = [1.0] * n
        if no == 1:
            y = y[:k] + [clip01(b_flat(v, 0.8, 0.75, 0.85)) for v in y[k:]]
            y = [clip01(v**0.02) for v in y]
            w = [2.0 * (i + 1) for i in range(n)]
        if no in (2, 3):
            y = y[:k] + [r_nonsep(y[i: i + 2], 2) for i in range(k, n, 2)]
            w = [1.0] * len(y)
        gap = k // (M - 1)
        parts = [(i * gap, (i + 1) * gap) for i in range(M - 1)] + [(k, len(y))]
        if no in (6, 9):
            t = [r_nonsep(y[a:b], b - a) for a, b in parts]
        else:
            t = [r_sum(y[a:b], w[a:b]) for a, b in parts]
        A = [1.0] + [0.0 if no == 3 else 1.0] * (M - 2)
        x = [max(t[-1], A[i]) * (t[i] - 0.5) + 0.5 for i in range(M - 1)]
        h = []
        for m in range(1, M + 1):
            v = 1.0
            if no in (1, 2) and m == M:
                v = 1 - x[0] - math.cos(10 * pi * x[0] + pi / 2) / (10 * pi) if no == 1 else \
                    1 - x[0] * math.cos(5 * pi * x[0]) ** 2
            else:
                for i in range(M - m):
                    v *= {1: 1 - math.cos(x[i] * pi / 2), 2: 1 - math.cos(x[i] * pi / 2), 3: x[i]}.get(
                        no, math.sin(x[i] * pi / 2))
                if m > 1:
                    a = x[M - m]
                    v *= {1: 1 - math.sin(a * pi / 2), 2: 1 - math.sin(a * pi / 2), 3: 1 - a}.get(no, math.cos(a * pi / 2))
            h.append(v)
        return np.array([t[-1] + 2.0 * (m + 1) * h[m] for m in range(M)])

    return f


# ---------------------------------------------------------------- others
def dent(x, M=2):
    s, d = x[0] + x[1], x[0] - x[1]
    a = sqrt(1 + s * s) + sqrt(1 + d * d)
    e = 0.85 * exp(-d * d)
    return np.array([0.5 * (a + d) + e, 0.5 * (a - d) + e])


def conv3(x, M=3):
    c = np.array([[-1, -1, -1], [1, 1, 1], [-1, -1, 1]], dtype=float)
    return ((np.asarray(x) - c) ** 2).sum(1)


def conv4(x, M=4):
    return ((np.asarray(x) - np.eye(4)) ** 2).sum(1)


def conv4_2f(x, M=4):
    x = np.asarray(x)
    if np.all(x < 0):
        return conv4(x + 1) - 3.5 * np.array([2.0, 0.0, 0.0, -2.0])
    return conv4(x)


class Spec:
    def __init__(self, f, nvars, nobjs, lo, hi, g=None, h=None, fixed=False, k=None):
        self.f, self.nvars, self.nobjs, self.lo, self.hi, self.g, self.h, self.fixed = f, nvars, nobjs, lo, hi, g, h, fixed
        self.boundary = True

    def bounds(self, n):
        lo, hi = self.lo(n), self.hi(n)
        return np.broadcast_to(np.asarray(lo, float), (n,)), np.broadcast_to(np.asarray(hi, float), (n,))


def const(v):
    return lambda n: v


def first(a, b, k=1):
    return lambda n: np.r_[np.full(k, a), np.full(n - k, b)]


SPECS = {}
for _k in (1, 2, 3, 4, 6):
    SPECS[f"ZDT{_k}"] = Spec(zdt(_k), [2, 3, 10, 30], [2], first(0.0, -5.0 if _k == 4 else 0.0), first(1.0, 5.0 if _k == 4 else 1.0))
    SPECS[f"ZDT{_k}"].boundary = False
for _k in range(1, 8):
    SPECS[f"DTLZ{_k}"] = Spec(dtlz(_k), [5, 7, 11], [2, 3, 4], const(0.0), const(1.0))
    if _k <= 4:
        SPECS[f"IDTLZ{_k}"] = Spec(dtlz(_k, True), [5, 11], [2, 3, 4], const(0.0), const(1.0))
        SPECS[f"Eq1DTLZ{_k}"] = Spec(dtlz(_k), [5, 11], [2, 3, 4], const(0.0), const(1.0), h=eq_dtlz)
        SPECS[f"Eq1IDTLZ{_k}"] = Spec(dtlz(_k, True), [5, 11], [2, 3, 4], const(0.0), const(1.0), h=eq_dtlz)
for _k in range(1, 8):
    _a = {3: 0.0, 4: -2.0}.get(_k, -1.0)
    SPECS[f"UF{_k}"] = Spec(uf(_k), [3, 4, 7, 10, 30], [2], first(0.0, _a), first(1.0, 2.0 if _k == 4 else 1.0))
    _lo = {1: 0.0, 2: -1.0}.get(_k, -2.0)
    _hi = 1.0 if _k <= 2 else 2.0
    SPECS[f"CF{_k}"] = Spec(cf(_k), [4, 5, 6, 10, 11], [2], first(0.0, _lo), first(1.0, _hi), g=cf_g(_k))
for _k in (8, 9, 10):
    SPECS[f"UF{_k}"] = Spec(uf3(_k), [5, 6, 7, 10, 30], [3], first(0.0, -2.0, 2), first(1.0, 2.0, 2))
    _b = 4.0 if _k == 8 else 2.0
    SPECS[f"CF{_k}"] = Spec(uf3(10 if _k == 10 else 8), [5, 6, 7, 10], [3], first(0.0, -_b, 2), first(1.0, _b, 2), g=cf_g(_k))
for _k in range(1, 10):
    SPECS[f"WFG{_k}"] = Spec(wfg(_k), [6, 8, 10, 24], [2, 3], const(0.0), lambda n: 2.0 * np.arange(1, n + 1))
SPECS["DENT"] = Spec(dent, [2], [2], const(-2.0), const(2.0), fixed=True)
SPECS["DENT"].boundary = False
SPECS["CONV3"] = Spec(conv3, [3], [3], const(-3.0), const(3.0), fixed=True)
SPECS["CONV4"] = Spec(conv4, [4], [4], const(-10.0), const(10.0), fixed=True)
SPECS["CONV4_2F"] = Spec(conv4_2f, [4], [4], const(-10.0), const(10.0), fixed=True)


def cls(name):
    if name == "DENT":
        from hvd.problems.misc import DENT

        return DENT
    import hvd.problems as P

    return getattr(P, name)


_cache = {}


def make(name, n, M, boundary=False, fresh=False, **kw):
    """the repository's problem (compiled once per configuration)"""
    key = (name, n, M, boundary, tuple(sorted(kw.items())))
    if fresh or key not in _cache:
        s = SPECS[name]
        args = dict(kw)
        if not s.fixed:
            args["n_var"] = n
            if len(s.nobjs) > 1:
                args["n_obj"] = M
        if s.boundary and boundary:
            args["boundary_constraints"] = True
        p = cls(name)(**args)
        if fresh:
            return p
        _cache[key] = p
    return _cache[key]
