"""Smooth objective and constraint maps with known derivatives, from JSON."""
import numpy as np
from hypothesis import strategies as st

from . import gen


@st.composite
def quadratic(draw, m, n, amp=1.0, curvature=True):
    e = gen.grid(-amp, amp, 64)
    return dict(c=draw(gen.vec(e, m)), A=draw(gen.mat(e, m, n)),
                Q=[draw(gen.mat(gen.grid(-amp, amp, 16), n, n)) for _ in range(m)] if curvature else None,
                T=draw(gen.mat(gen.grid(-amp, amp, 16), m, n)) if curvature and draw(st.booleans()) else None)


class Quadratic:
    """f_k(x) = c_k + A_k x + x^T Q_k x / 2 + T_k sin(x) (Q symmetrised): with T, the curvature depends on x."""

    def __init__(self, d):
        self.c = np.array(d["c"], dtype=float)
        self.A = np.array(d["A"], dtype=float)
        m, n = self.A.shape
        Q = np.zeros((m, n, n)) if d.get("Q") is None else np.array(d["Q"], dtype=float).reshape(m, n, n)
        self.Q = (Q + np.swapaxes(Q, 1, 2)) / 2
        self.T = np.zeros((m, n)) if d.get("T") is None else np.array(d["T"], dtype=float).reshape(m, n)
        self.n_obj, self.n_var = m, n

    def negated(self):
        return Quadratic(dict(c=-self.c, A=-self.A, Q=-self.Q, T=-self.T))

    def f(self, x):
        x = np.asarray(x, dtype=float)
        return self.c + self.A @ x + 0.5 * np.einsum("i,kij,j->k", x, self.Q, x) + self.T @ np.sin(x)

    def jac(self, x):
        x = np.asarray(x, dtype=float)
        return self.A + np.einsum("kij,j->ki", self.Q, x) + self.T * np.cos(x)

    def hess(self, x):
        x = np.asarray(x, dtype=float)
        return self.Q - np.einsum("kj,jl->kjl", self.T * np.sin(x), np.eye(self.n_var))


def quadratic_jnp(q, x):
    """the same map for a traced argument"""
    import jax.numpy as jnp

    y = jnp.asarray(q.c) + jnp.asarray(q.A) @ x + 0.5 * jnp.einsum("i,kij,j->k", x, jnp.asarray(q.Q), x)
    return y + jnp.asarray(q.T) @ jnp.sin(x)


def moved(d, at, unit):
    """the map unit * d + at"""
    scaled = {k: None if d.get(k) is None else (unit * np.array(d[k])).tolist() for k in ("A", "Q", "T")}
    return dict(c=[unit * v + at for v in d["c"]], **scaled)
