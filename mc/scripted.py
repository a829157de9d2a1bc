"""A closed system around `diffeqsolve`: a solver and a step size controller, written
against the public abstract base classes, whose every answer is scripted by the explorer
and which log everything they are asked to do into the solution itself.

`y` is the list of the steps that were accepted so far, so that every saved output, every
interpolated output and the final value expose the exact history of the integration; and
the controller state is the list of all attempted steps.

`Model` is the reference: a small state machine in plain Python.
"""

import math

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

# ---------------------------------------------------------------- actions (alphabet)
# name: (keep, factor on the attempted step, made_jump, controller fails)
ACTIONS = {
    "a1": (True, 1.0, False, False),
    "a2": (True, 2.0, False, False),
    "ah": (True, 0.5, False, False),
    "rh": (False, 0.5, False, False),
    "rq": (False, 0.25, False, False),
    "j1": (True, 1.0, True, False),
    "f": (True, 1.0, False, True),
    "rf": (False, 0.5, False, True),
}
NAMES = list(ACTIONS)
IDX = {n: i for i, n in enumerate(NAMES)}
_KEEP = np.array([ACTIONS[n][0] for n in NAMES])
_FACTOR = np.array([ACTIONS[n][1] for n in NAMES])
_JUMP = np.array([ACTIONS[n][2] for n in NAMES])
_FAIL = np.array([ACTIONS[n][3] for n in NAMES])
DEFAULT = IDX["a2"]

M = 24  # rows of the log of accepted steps
A = 32  # rows of the log of attempted steps


def zero_y(m=M):
    return {"n": jnp.zeros(()), "log": jnp.zeros((m, 4))}


class ScriptSolver(dfx.AbstractSolver):
    """Appends (t0, t1, made_jump, solver_state) to y. Fails steps longer than `hfail`."""

    term_structure = dfx.ODETerm
    interpolation_cls = dfx.LocalLinearInterpolation
    can_fail: bool = eqx.field(static=True, default=False)

    def order(self, terms):
        return 1

    def init(self, terms, t0, t1, y0, args):
        return jnp.array(0.0)

    def func(self, terms, t0, y0, args):
        return terms.vf(t0, y0, args)

    def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
        n = y0["n"]
        log = y0["log"]
        row = jnp.stack(
            [
                jnp.asarray(t0, log.dtype),
                jnp.asarray(t1, log.dtype),
                jnp.asarray(made_jump, log.dtype),
                jnp.asarray(solver_state, log.dtype),
            ]
        )
        y1 = {"n": n + 1, "log": log.at[n.astype(int)].set(row)}
        err = jax.tree_util.tree_map(jnp.zeros_like, y0)
        if self.can_fail:
            result = dfx.RESULTS.where(
                t1 - t0 > args["hfail"],
                dfx.RESULTS.nonlinear_divergence,
                dfx.RESULTS.successful,
            )
        else:
            result = dfx.RESULTS.successful
        return y1, err, dict(y0=y0, y1=y1), solver_state + 1, result


class ScriptController(dfx.AbstractStepSizeController):
    script: jax.Array  # int[K]
    jumps: bool = eqx.field(static=True, default=False)
    can_fail: bool = eqx.field(static=True, default=False)

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return t0 + dt0, {"i": jnp.array(0), "log": jnp.zeros((A, 4))}

    def adapt_step_size(
        self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state
    ):
        i = controller_state["i"]
        k = self.script.shape[0]
        act = jnp.where(i < k, self.script[jnp.minimum(i, k - 1)], DEFAULT)
        keep = jnp.asarray(_KEEP)[act]
        row = jnp.stack(
            [jnp.asarray(x, float) for x in (t0, t1, y0["n"], y1_candidate["n"])]
        )
        log = controller_state["log"].at[i].set(row)
        next_t0 = jnp.where(keep, t1, t0)
        factor = jnp.asarray(_FACTOR)[act].astype(jnp.result_type(t0))
        next_t1 = next_t0 + factor * (t1 - t0)
        jump = jnp.asarray(_JUMP)[act] if self.jumps else False
        if self.can_fail:
            result = dfx.RESULTS.where(
                jnp.asarray(_FAIL)[act],
                dfx.RESULTS.dt_min_reached,
                dfx.RESULTS.successful,
            )
        else:
            result = dfx.RESULTS.successful
        return keep, next_t0, next_t1, jump, {"i": i + 1, "log": log}, result


TERM = dfx.ODETerm(lambda t, y, args: y)


# ---------------------------------------------------------------------- the reference
class Trace:
    """One complete behaviour of the reference model (in the direction of integration)."""

    __slots__ = ("attempts", "accepted", "result", "t", "stop", "final_jump")


def model(
    t0,
    t1,
    dt0,
    script,
    max_steps=None,
    hfail=math.inf,
    event=None,
    report=None,
    key=(),
):
    """Run the reference machine. `script` is a tuple of action names; times are in the
    direction of integration (t0 <= t1).  `event(t, n)` -> bool stops the machine."""
    tr = Trace()
    tr.attempts = []  # (t0, t1, n before, keep)
    tr.accepted = []  # (t0, t1, made_jump, solver_state)
    tr.result = "successful"
    t = t0
    tnext = min(t0 + dt0, t1)
    jump = False
    i = 0
    if event is not None and event(t, 0):
        tr.result = "event_occurred"
    while t < t1 and tr.result == "successful":
        if max_steps is not None and i >= max_steps:
            tr.result = "max_steps_reached"
            break
        act = script[i] if i < len(script) else "a2"
        keep, factor, jmp, fail = ACTIONS[act]
        h = tnext - t
        if report is not None:
            report.state(key, t, tnext, len(tr.accepted), jump, tuple(script[i:]))
            report.transitions += 1
        tr.attempts.append((t, tnext, len(tr.accepted), keep))
        if keep:
            if h > hfail:
                tr.result = "nonlinear_divergence"
            tr.accepted.append((t, tnext, float(jump), float(len(tr.accepted))))
            t = tnext
            jump = jmp
        if fail and tr.result == "successful":
            tr.result = "dt_min_reached"
        tnext = min(t + factor * h, t1)
        i += 1
        if event is not None and tr.result == "successful" and event(t, len(tr.accepted)):
            tr.result = "event_occurred"
    tr.t = t
    tr.final_jump = jump
    return tr


def y_at(trace, j, m=M):
    """The value of `y` after the j-th accepted step."""
    log = np.zeros((m, 4))
    for i, row in enumerate(trace.accepted[:j]):
        log[i] = row
    return float(j), log


def interp(trace, t):
    """The value of the (linear) dense output at time t, as the flattened y."""
    acc = trace.accepted
    if not acc:
        n, log = y_at(trace, 0)
        return n, log
    for j, (a, b, _, _) in enumerate(acc):
        if a <= t <= b:
            break
    else:
        return None
    n0, l0 = y_at(trace, j)
    n1, l1 = y_at(trace, j + 1)
    w = (t - a) / (b - a)
    return n0 + w * (n1 - n0), l0 + w * (l1 - l0)


def scripts(alphabet, depth):
    """All scripts over `alphabet` of length `depth`, shortest deviations first."""
    import itertools

    return list(itertools.product(alphabet, repeat=depth))


def encode(script_list, pad_to=None):
    k = max((len(s) for s in script_list), default=0)
    k = max(k, 1, pad_to or 0)
    out = np.full((len(script_list), k), DEFAULT)
    for i, s in enumerate(script_list):
        for j, a in enumerate(s):
            out[i, j] = IDX[a]
    return out


def pad_lanes(arrays, multiple=1):
    return arrays
