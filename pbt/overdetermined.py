"""HVN on one variable with more active constraints than variables: singular Newton systems, in a process of their own
because SuperLU may kill the interpreter on them.  overdetermined.py SEED RUNS"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import env  # noqa: E402

env.install()
import numpy as np  # noqa: E402
from hvd import HVN  # noqa: E402


def main(seed, runs):
    rng = np.random.default_rng(seed)
    for _ in range(runs):
        p, N = int(rng.integers(2, 5)), int(rng.integers(2, 7))
        a = rng.choice([-1.0, -0.5, 0.01, 0.02, 0.5, 1.0], size=(p, 1))
        b = -a[:, 0] * rng.uniform(0, 1, p)
        o = HVN(1, 2, lambda x: np.array([x @ x, ((x - 1) ** 2).sum()]), lambda x: np.array([2 * x, 2 * (x - 1)]),
                lambda x: np.array([2 * np.eye(1)] * 2), np.array([3.0, 3.0]), 0, 1, N=N,
                X0=np.sort(rng.uniform(0.1, 0.9, (N, 1)), 0), g=lambda x: a @ x + b, g_jac=lambda x: a,
                g_hessian=lambda x: np.zeros((p, 1, 1)), verbose=False)
        for _ in range(3):
            o.iterate()
        if not np.all(np.isfinite(o.state.X)):
            print(f"points {o.state.X.tolist()} for the constraints {a.tolist()} x + {b.tolist()}")
            return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(int(sys.argv[1]), int(sys.argv[2])))
