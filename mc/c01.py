"""C01: the accepted steps tile [t0, t1] exactly, whatever the history of accepted and
rejected steps; a rejected step leaves no trace."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from . import common, scripted as S

BOUNDS = (
    "all scripts over {accept x1, x2, x1/2, reject x1/2, x1/4, accept+jump} up to the "
    "given depth (quick 5, thorough 7), for every listed interval (both directions, "
    "empty, first step too long, non-zero origin), both scripted failures, three loop "
    "implementations, float32/float64/integer times; all end offsets of up to 160 ULP"
)
ASSUMPTIONS = [
    "step sizes are dyadic in the scripted scenarios, so that the reference is exact",
    "after the script ends every step is accepted and doubled",
]

INTERVALS = [
    (0.0, 1.0, 0.25),
    (1.0, 0.0, -0.25),
    (-0.5, 1.5, 0.5),
    (3.0, -1.0, -0.5),
    (0.0, 1.0, 4.0),
    (2.0, 1.0, -1.0),
    (1.0, 1.0, 0.25),
]
ALPHABET = ("a1", "rh", "ah", "a2", "rq", "j1")
MAX_STEPS = 24


def _solve(t0, t1, dt0, script, hfail, *, adjoint, fail, jumps=True, max_steps=MAX_STEPS):
    sol = dfx.diffeqsolve(
        S.TERM,
        S.ScriptSolver(can_fail=fail),
        t0,
        t1,
        dt0,
        S.zero_y(),
        args={"hfail": hfail},
        stepsize_controller=S.ScriptController(script, jumps=jumps, can_fail=fail),
        saveat=dfx.SaveAt(
            t1=True, controller_state=True, solver_state=True, made_jump=True
        ),
        adjoint=adjoint,
        max_steps=max_steps,
        throw=False,
    )
    return dict(
        t=sol.ts[0],
        t0=sol.t0,
        t1=sol.t1,
        n=sol.ys["n"][0],
        log=sol.ys["log"][0],
        att=sol.controller_state["log"],
        natt=sol.controller_state["i"],
        sstate=sol.solver_state,
        jump=jnp.asarray(sol.made_jump),
        result=common.result_codes(sol.result),
        steps=sol.stats["num_steps"],
        acc=sol.stats["num_accepted_steps"],
        rej=sol.stats["num_rejected_steps"],
    )


def _check_lane(rep, out, tr, sgn, iv, script, jumps=True):
    case = dict(interval=iv, script=script)
    n = len(tr.accepted)
    if not rep.check(
        float(out["n"]) == n, "wrong number of accepted steps", got=out["n"], want=n, **case
    ):
        return
    want = S.y_at(tr, n)[1]
    if not jumps:
        want[:, 2] = 0
    rep.check(
        common.same(out["log"], want),
        "accepted steps differ from the reference",
        got=out["log"][:n],
        want=want[:n],
        **case,
    )
    att = np.array([a[:3] for a in tr.attempts]).reshape(-1, 3)
    rep.check(
        int(out["natt"]) == len(att)
        and common.same(out["att"][: len(att), :3], att)
        and common.same(out["att"][: len(att), 3], att[:, 2] + 1),
        "attempted steps differ from the reference (a rejected step must be retried "
        "from the same time and state)",
        got=out["att"][: int(out["natt"])],
        want=att,
        **case,
    )
    # The property itself, stated on the observed log rather than on the model:
    log = out["log"][:n]
    t0, t1 = sgn * iv[0], sgn * iv[1]
    ok = True
    if n > 0:
        ok &= log[0, 0] == t0
        ok &= bool(np.all(log[1:, 0] == log[:-1, 1]))
        ok &= bool(np.all(log[:, 1] > log[:, 0]))
        ok &= bool(np.all(log[:, 1] <= t1))
        if common.RESULT_NAMES[int(out["result"])] == "successful":
            ok &= log[-1, 1] == t1
    rep.check(ok, "accepted steps do not tile [t0, t1]", got=log, **case)
    rep.check(
        float(out["t"]) == sgn * tr.t, "final time", got=out["t"], want=sgn * tr.t, **case
    )
    rep.check(float(out["t0"]) == iv[0] and float(out["t1"]) == iv[1], "sol.t0/t1", **case)
    rep.check(
        common.RESULT_NAMES[int(out["result"])] == tr.result,
        "result",
        got=common.RESULT_NAMES[int(out["result"])],
        want=tr.result,
        **case,
    )
    rep.check(float(out["sstate"]) == n, "solver state", got=out["sstate"], want=n, **case)
    if jumps:
        rep.check(bool(out["jump"]) == tr.final_jump, "made_jump", **case)
    nrej = sum(not a[3] for a in tr.attempts)
    rep.check(
        (int(out["steps"]), int(out["acc"]), int(out["rej"])) == (len(att), n, nrej),
        "statistics",
        got=(out["steps"], out["acc"], out["rej"]),
        want=(len(att), n, nrej),
        **case,
    )
    rep.outcome(tr.result)


def explore(alphabet, depth, intervals, adjoint=None, fail=False, hfail=np.inf, jumps=True):
    rep = common.Report()
    adjoint = dfx.RecursiveCheckpointAdjoint() if adjoint is None else adjoint
    scripts = S.scripts(alphabet, depth)
    enc = jnp.asarray(S.encode(scripts))
    fn = eqx.filter_jit(
        jax.vmap(
            ft.partial(_solve, adjoint=adjoint, fail=fail, jumps=jumps),
            in_axes=(None, None, None, 0, None),
        )
    )
    for iv in intervals:
        t0, t1, dt0 = iv
        out = jax.device_get(
            fn(jnp.array(t0), jnp.array(t1), jnp.array(dt0), enc, jnp.array(hfail))
        )
        sgn = 1.0 if t0 < t1 else -1.0
        for k, script in enumerate(scripts):
            tr = S.model(
                sgn * t0,
                sgn * t1,
                sgn * dt0,
                script,
                MAX_STEPS,
                hfail,
                report=rep,
                key=iv,
            )
            _check_lane(
                rep, {a: b[k] for a, b in out.items()}, tr, sgn, iv, script, jumps
            )
            rep.traces += 1
        rep.sample(
            dict(interval=iv, script=scripts[-7], accepted=tr.accepted, result=tr.result)
        )
    return rep


def end_offsets(dtype, ks):
    """Two accepted steps, the second of which aims k ULPs past/short of t1."""
    rep = common.Report()
    ft_ = np.dtype(dtype).type

    class Ctrl(S.ScriptController):
        target: jax.Array = None

        def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
            tn, st = super().init(terms, t0, t1, y0, dt0, args, func, error_order)
            return self.target[0], st

        def adapt_step_size(self, t0, t1, y0, y1, args, err, order, state):
            keep, a, _, j, st, r = super().adapt_step_size(
                t0, t1, y0, y1, args, err, order, state
            )
            i = jnp.minimum(state["i"] + 1, self.target.shape[0] - 1)
            nt = jnp.where(
                state["i"] + 1 < self.target.shape[0], self.target[i], a + 100.0
            )
            return keep, a, nt.astype(a.dtype), j, st, r

    def solve(t0, t1, target):
        sol = dfx.diffeqsolve(
            S.TERM,
            S.ScriptSolver(),
            t0,
            t1,
            t1 - t0,
            S.zero_y(),
            stepsize_controller=Ctrl(jnp.array([0]), target=target),
            saveat=dfx.SaveAt(t1=True, dense=True),
            max_steps=8,
            throw=False,
        )
        return sol.ts[0], sol.ys["n"][0], sol.ys["log"][0], common.result_codes(
            sol.result
        )

    fn = eqx.filter_jit(jax.vmap(solve))
    for t0, t1 in [(0.0, 1.0), (1.0, 2.0), (-2.0, -1.0), (0.3, 0.7), (5.0, 4.0), (-1, 1)]:
        for steps_before in (0, 1):
            sgn = 1 if t0 < t1 else -1
            a, b = ft_(sgn * t0), ft_(sgn * t1)
            targets = []
            for k in ks:
                x = b
                for _ in range(abs(k)):
                    x = np.nextafter(x, ft_(np.inf if k > 0 else -np.inf))
                # `target` entry 0 is the end of the first step, 1 of the second.
                mid = ft_(a + (b - a) / 2)
                targets.append([x, b + 1] if steps_before == 0 else [mid, x])
            t, n, log, res = jax.device_get(
                fn(
                    jnp.full(len(ks), t0, dtype),
                    jnp.full(len(ks), t1, dtype),
                    jnp.asarray(targets, dtype),
                )
            )
            for i, k in enumerate(ks):
                m = int(n[i])
                rows = log[i][:m]
                case = dict(
                    t0=t0, t1=t1, dtype=dtype, ulps=k, before=steps_before, rows=rows
                )
                rep.check(res[i] == 0, "not successful", **case)
                rep.check(ft_(t[i]) == ft_(t1), "final time is not t1", got=t[i], **case)
                rep.check(
                    m > 0
                    and rows[0, 0] == a
                    and rows[-1, 1] == b
                    and np.all(rows[1:, 0] == rows[:-1, 1])
                    and np.all(rows[:, 1] > rows[:, 0]),
                    "accepted steps do not tile [t0, t1]",
                    **case,
                )
                rep.state(t0, t1, steps_before, k)
                rep.transitions += m
                rep.traces += 1
                rep.outcome(m)
    rep.sample(dict(t0=t0, t1=t1, ulps=list(ks), dtype=dtype))
    return rep


def dtypes():
    """Times given as Python ints, floats, numpy and JAX scalars of either precision:
    the same tiling."""
    rep = common.Report()
    scripts = S.scripts(("a1", "rh", "a2"), 3)
    enc = jnp.asarray(S.encode(scripts))
    kinds = {
        "int": int,
        "float": float,
        "np.float32": np.float32,
        "np.float64": np.float64,
        "jnp.float32": lambda x: jnp.asarray(x, jnp.float32),
    }
    for name, mk in kinds.items():
        for iv in [(0, 4, 1), (4, 0, -1)]:
            sgn = 1 if iv[0] < iv[1] else -1
            t0, t1, dt0 = map(mk, iv)
            out = jax.vmap(
                lambda s: _solve(
                    t0,
                    t1,
                    dt0,
                    s,
                    jnp.array(np.inf),
                    adjoint=dfx.RecursiveCheckpointAdjoint(),
                    fail=False,
                )
            )(enc)
            out = jax.device_get(out)
            for k, script in enumerate(scripts):
                tr = S.model(
                    sgn * iv[0], sgn * iv[1], sgn * iv[2], script, MAX_STEPS, report=rep,
                    key=(name, iv),
                )
                _check_lane(rep, {a: b[k] for a, b in out.items()}, tr, sgn, iv, script)
                rep.traces += 1
    rep.sample(dict(kinds=list(kinds)))
    return rep


def SCENARIOS(tier):
    thorough = tier == "thorough"
    d = 7 if thorough else 5
    out = []
    for i, iv in enumerate(INTERVALS):
        out.append((f"tile-{i}", ft.partial(explore, ALPHABET, d, [iv])))
    d2 = 5 if thorough else 3
    out.append(
        (
            "loop-direct",
            ft.partial(explore, ALPHABET, d2, INTERVALS, adjoint=dfx.DirectAdjoint()),
        )
    )
    out.append(
        (
            "loop-forward",
            ft.partial(explore, ALPHABET, d2, INTERVALS, adjoint=dfx.ForwardMode()),
        )
    )
    out.append(
        (
            "loop-backsolve",
            ft.partial(explore, ALPHABET, d2, INTERVALS, adjoint=dfx.BacksolveAdjoint()),
        )
    )
    out.append(
        (
            "failures",
            ft.partial(
                explore,
                ("a1", "rh", "a2", "f", "rf"),
                d2 + 1,
                [(0.0, 1.0, 0.25), (1.0, 0.0, -0.25)],
                fail=True,
                hfail=0.3,
            ),
        )
    )
    out.append(
        (
            "no-jumps",
            ft.partial(explore, ("a1", "rh", "ah", "a2"), d2 + 1, INTERVALS, jumps=False),
        )
    )
    ks = list(range(-160, 161)) if thorough else list(range(-120, 121, 1))
    out.append(("end-offset-f64", ft.partial(end_offsets, "float64", ks)))
    out.append(("end-offset-f32", ft.partial(end_offsets, "float32", ks)))
    out.append(("dtypes", dtypes))
    return out
