"""The property runner: registration of sub-properties, Hypothesis-driven search, shrinking,
replay files, evidence."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings
from collections import Counter

from . import env

env.install()

import numpy as np  # noqa: E402

REGISTRY = {}  # property -> {name: Sub}


class Violation(Exception):
    """The property is broken on this case.  `key` identifies a listed known finding."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    pass


class Sub:
    def __init__(self, prop, name, strategy, check, quick, thorough, rule, group, enum=False):
        self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
        self.quick, self.thorough, self.rule, self.group = quick, thorough, rule, group
        self.enum = enum  # strategy is then a callable tier -> list of cases, all of them run


def sub(prop, name, strategy, quick, thorough=None, rule="", group=None, enum=False):
    """Register `check(case, ev)` as one sub-property of `prop`.

    `strategy` is a Hypothesis strategy, or a zero-argument callable returning one, of
    JSON-serialisable cases.  Sub-properties with the same `group` share one process.
    """

    def deco(check):
        REGISTRY.setdefault(prop, {})[name] = Sub(
            prop, name, strategy, check, quick, thorough or quick * 10, rule, group or name, enum
        )
        return check

    return deco


class Recorder:
    """What one run of one sub-property covered."""

    def __init__(self):
        self.evaluations = 0
        self.seen = set()
        self.classes = Counter()
        self.samples = []
        self._nt = False
        self._labels = ()

    def start(self):
        self.evaluations += 1
        self._nt = False
        self._labels = []

    def nontrivial(self, cond=True):
        self._nt = self._nt or bool(cond)

    def label(self, *names):
        self._labels.extend(names)

    def finish(self, case):
        for n in set(self._labels):
            self.classes[n] += 1
        if self._nt:
            key = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]
            if key not in self.seen:
                self.seen.add(key)
                if len(self.samples) < 2:
                    s = json.dumps(case)
                    self.samples.append(case if len(s) < 1500 else s[:1500] + "...")


# ---------------------------------------------------------------- comparisons used by checks
def arr(value, shape=None, what="result", dtype=float):
    """The value as a numeric array of the expected shape; anything else breaks the property."""
    try:
        a = np.asarray(value, dtype=dtype)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: not a numeric array: {type(value).__name__} ({e})") from None
    if shape is not None and a.shape != tuple(shape):
        raise Violation(f"{what}: shape {a.shape}, expected {tuple(shape)}")
    return a


def close(actual, expected, tol=1e-9, what="value", scale=None, key=None, shape=True, unit=None):
    """|actual - expected| <= tol * max(1, scale, |expected|_max), or tol * unit if that is given; same shape, NaN never equal."""
    expected = np.asarray(expected, dtype=float)
    a = arr(actual, expected.shape if shape else None, what)
    if not shape:
        if a.size != expected.size:
            raise Violation(f"{what}: {a.size} entries, expected {expected.size}", key)
        a = a.reshape(expected.shape)
    if expected.size == 0:
        return
    s = unit if unit is not None else max(1.0, scale or 0.0, float(np.nanmax(np.abs(expected))))
    d = np.abs(a - expected)
    if not np.all(np.isfinite(a) | ~np.isfinite(expected)) or not np.all(d[np.isfinite(expected)] <= tol * s):
        bad = np.unravel_index(np.argmax(np.where(np.isfinite(d), d, np.inf)), d.shape) if d.ndim else ()
        raise Violation(
            f"{what}: got {a[bad]!r}, expected {expected[bad]!r} at {tuple(int(i) for i in bad)}"
            f" (tolerance {tol * s:.3g})",
            key,
        )


def equal(actual, expected, what="value", key=None):
    try:
        a, e = np.asarray(actual), np.asarray(expected)
        ok = a.shape == e.shape and bool(np.all((a == e) | ((a != a) & (e != e))))
    except Violation:
        raise
    except Exception as err:  # noqa: BLE001
        raise Violation(f"{what}: cannot be compared ({err})", key) from None
    if not ok:
        raise Violation(f"{what}: got {actual!r}, expected {expected!r}", key)


def require(cond, msg, key=None):
    try:
        ok = bool(cond)
    except Exception as err:  # noqa: BLE001
        raise Violation(f"{msg} (not decidable: {err})", key) from None
    if not ok:
        raise Violation(msg, key)


class scratch:
    """A scratch working directory, removed afterwards."""

    def __enter__(self):
        import tempfile

        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.old = os.getcwd()
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *exc):
        import shutil

        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- classification of exceptions
def _origin(tb):
    """'repo' if the deepest frame that is either ours or the repository's is the repository's."""
    last = "harness"
    root = os.path.realpath(env.REPO) + os.sep
    here = os.path.realpath(env.VERIF) + os.sep
    for fr, _ in traceback.walk_tb(tb):
        f = os.path.realpath(fr.f_code.co_filename)
        if f.startswith(here):
            last = "harness"
        elif f.startswith(root):
            last = "repo"
    return last


def run_case(s, case):
    """Run one case outside Hypothesis; returns None or a Violation."""
    ev = Recorder()
    return _guarded(s, case, ev)


def _guarded(s, case, ev):
    ev.start()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s.check(case, ev)
    except Violation as v:
        return v
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        if _origin(e.__traceback__) == "repo":
            tail = "".join(traceback.format_exception(e)[-4:])
            return Violation(f"the code raised {type(e).__name__}: {e}\n{tail}", getattr(e, "key", None))
        raise HarnessError("".join(traceback.format_exception(e))) from e
    ev.finish(case)
    return None


# ---------------------------------------------------------------- running
def load(prop):
    importlib.import_module(f"pbt.checks.{prop.lower()}")
    return REGISTRY[prop]


def _seed_for(prop, name, seed):
    return int.from_bytes(hashlib.sha256(f"{prop}/{name}/{seed}".encode()).digest()[:7], "big")


def known_findings(prop):
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    data = json.load(open(path))
    return {f["key"]: f for f in data.get("findings", []) if f["property"] == prop}


def fresher_cases(runner):
    """Left alone, Hypothesis follows every new case by five mutants of it (one part copied onto another): a handful of
    sizes, configurations and maps in a hundred cases.  Mutate one case in five."""
    mutate = runner.generate_mutations_from
    if getattr(mutate, "rare", False):
        return

    def rarely(self, data):
        if self.random.random() < 0.2:
            mutate(self, data)

    rarely.rare = True
    runner.generate_mutations_from = rarely


def run_sub(s, seed, tier, soft_s):
    """Search for a violation of one sub-property.  Returns a JSON-able report."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 45
    fresher_cases(engine.ConjectureRunner)
    ev = Recorder()
    known = known_findings(s.prop)
    state = {"fail": None, "msg": None, "truncated": 0, "known": {}, "first_fail_t": None}
    t0 = time.time()
    n = s.thorough if tier == "thorough" else s.quick

    def one(case):
        if state["fail"] is None and time.time() - t0 > soft_s:
            state["truncated"] += 1
            return
        v = _guarded(s, case, ev)
        if v is not None:
            if v.key is not None and v.key in known:
                state["known"][v.key] = known[v.key]["what"]
                return
            state["fail"], state["msg"] = case, str(v)
            raise v

    strategy = s.strategy
    if s.enum:
        for case in strategy(tier):
            try:
                one(case)
            except Violation:
                break
    else:
        if not hasattr(strategy, "example"):
            strategy = strategy()

        @hypothesis.seed(_seed_for(s.prop, s.name, seed))
        @settings(
            max_examples=n,
            deadline=None,
            database=None,
            print_blob=False,
            report_multiple_bugs=False,
            phases=[Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck),
        )
        @given(strategy)
        def prop(case):
            one(case)

        try:
            prop()
        except Violation:
            pass
        except HarnessError:
            raise
        except BaseException as e:
            # Hypothesis' own wrapping of a flaky failure: the failing case is still recorded.
            if state["fail"] is None:
                raise
            state["msg"] += f"\n(not every repetition failed: {type(e).__name__})"
    return dict(
        sub=s.name,
        rule=s.rule,
        evaluations=ev.evaluations,
        distinct_nontrivial=len(ev.seen),
        classes=dict(sorted(ev.classes.items())),
        samples=ev.samples,
        truncated=state["truncated"],
        known=state["known"],
        fail=state["fail"],
        msg=state["msg"],
        wall_s=round(time.time() - t0, 2),
    )
