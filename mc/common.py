"""Shared plumbing for the model checker.

Every check is a module `mc/cNN.py` with

    SCENARIOS(tier) -> list of (name, callable)

Each callable exhaustively explores one bounded space on the real diffrax code and
returns a `Report`.  `mc/run.py` distributes the scenarios of one check over worker
processes, merges the reports, writes the evidence file, and prints VIOLATION lines.
"""

import os

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("JAX_ENABLE_X64", "1")
os.environ.setdefault(
    "XLA_FLAGS",
    "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 "
    "--xla_backend_optimization_level=0",
)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")

import json
import math
import warnings

import numpy as np


class Report:
    """What one scenario covered.

    states: distinct states of the reference model that were visited.
    transitions: transitions of the reference model (steps, queries, calls) taken.
    traces: complete model behaviours that were replayed on the implementation.
    """

    def __init__(self):
        self._states = set()
        self.extra_states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.outcomes = {}

    def state(self, *key):
        self._states.add(key)

    @property
    def states(self):
        return len(self._states) + self.extra_states

    def outcome(self, key, n=1):
        key = str(key)
        self.outcomes[key] = self.outcomes.get(key, 0) + n

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(jsonable(x))

    def fail(self, what, **case):
        if len(self.violations) < 5:
            self.violations.append({"what": what, "case": jsonable(case)})
        else:
            self.violations[-1]["more"] = self.violations[-1].get("more", 0) + 1

    def check(self, ok, what, **case):
        if not ok:
            self.fail(what, **case)
        return bool(ok)

    def to_json(self):
        return dict(
            states=self.states,
            transitions=self.transitions,
            traces=self.traces,
            samples=self.samples,
            violations=self.violations,
            outcomes=self.outcomes,
        )


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if math.isfinite(x) else repr(x)
    if x is None or isinstance(x, str):
        return x
    if hasattr(x, "shape") and hasattr(x, "tolist"):
        return jsonable(np.asarray(x).tolist())
    return repr(x)


def close(a, b, rtol=1e-9, atol=1e-9):
    """Equal up to tolerance; infinities and NaNs have to match exactly."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def same(a, b):
    a = np.asarray(a)
    b = np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def result_name(result):
    """The name of a `diffrax.RESULTS` item, via its public equality."""
    import diffrax as dfx

    for name in RESULT_NAMES:
        if bool(np.asarray(result == getattr(dfx.RESULTS, name))):
            return name
    return "other"


RESULT_NAMES = (
    "successful",
    "event_occurred",
    "max_steps_reached",
    "dt_min_reached",
    "nonlinear_divergence",
    "nonlinear_max_steps_reached",
    "internal_error",
)


def result_codes(result):
    """Batched result -> integer array indexing into RESULT_NAMES (-1: other)."""
    import diffrax as dfx
    import jax
    import jax.numpy as jnp

    out = None
    for i, name in enumerate(RESULT_NAMES):
        eq = result == getattr(dfx.RESULTS, name)
        out = jnp.where(eq, i, -1 if out is None else out)
    return out


def quiet():
    warnings.filterwarnings("ignore")
