"""C07: fixed grids: a constant step size visits t0 + i dt0 and then t1; prescribed steps
visit exactly the prescribed times; whatever the intervals, the direction and the dtype."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from . import common, scripted as S

BOUNDS = (
    "constant steps: 5 origins x 7 step sizes x (0..9 (thorough 0..40) whole steps plus a "
    "remainder from {0, 1e-3, 0.3, 0.5, 0.999, +-1 ULP}) x both directions x "
    "units of time 2^{-60,0,60} x float32/float64; prescribed steps: every subset of a grid of 8 (thorough 11) times x "
    "both directions; unbounded horizon ended by an event after each of 0..12 steps"
)
M = 50


def _const(dtype):
    @eqx.filter_jit
    @jax.vmap
    def run(t0, t1, dt0):
        sol = dfx.diffeqsolve(
            S.TERM, S.ScriptSolver(), t0, t1, dt0, S.zero_y(M), max_steps=M, throw=False
        )
        st = sol.stats
        return (
            sol.ys["n"][0], sol.ys["log"][0], common.result_codes(sol.result), sol.ts[0],
            st["num_steps"], st["num_rejected_steps"],
        )

    return lambda g: jax.device_get(
        run(*(jnp.asarray(g[:, i].astype(dtype)) for i in range(3)))
    )


def constant(dtype, kmax, backward):
    """The grid is the same in all units of time (powers of two, so rounding is as well)."""
    rep = common.Report()
    for unit in (1.0, 2.0**-60, 2.0**60):
        _constant(rep, dtype, kmax, backward, unit)
    return rep


def _constant(rep, dtype, kmax, backward, unit):
    eps = float(np.finfo(dtype).eps)
    rows, info = [], []
    for t0 in (0.0, 1.0, -2.5, 100.1, -0.3):
        for dt in (0.25, 0.1, 1 / 3, 1.0, 0.013, 7.3, 1e-3):
            for k in range(kmax + 1):
                for r in (0.0, 1e-3, 0.3, 0.5, 0.999, "up", "down"):
                    sg = -1.0 if backward else 1.0
                    a = dtype(sg * t0)
                    h = dtype(sg * dt)
                    if isinstance(r, str):
                        b = a + dtype(k) * h
                        b = np.nextafter(b, dtype(np.inf if r == "up" else -np.inf))
                        frac = 0.0
                    else:
                        b = a + dtype(k + r) * h
                        frac = r
                    if sg * (b - a) < 0 or 0 < abs(b) < np.finfo(dtype).tiny:
                        continue
                    # What fraction of a step is left over is only meaningful if it is
                    # well above the rounding of the times themselves.
                    noise = 300 * eps * max(abs(a), abs(b), 1.0)
                    if frac > 0 and frac * dt < 3 * noise:
                        continue
                    if frac > 0 and (1 - frac) * dt < 3 * noise:
                        continue
                    if dt < 10 * noise:
                        continue
                    rows.append((a, b, h))
                    info.append((k, frac, noise))
    g = np.array(rows, dtype=dtype) * dtype(unit)
    n, log, res, ts, steps, rej = _const(dtype)(g)
    for i, (k, frac, noise) in enumerate(info):
        noise = noise * unit
        a, b, h = (float(x) for x in g[i])
        case = dict(t0=a, t1=b, dt0=h, dtype=np.dtype(dtype).name)
        want_n = k + (1 if frac > 0 else 0)
        if k == 0 and frac == 0 and a != b:
            want_n = 1
        rep.check(res[i] == 0, "not successful", **case)
        got = log[i][: int(n[i])]
        ok = int(n[i]) == want_n == int(steps[i]) and rej[i] == 0
        if not rep.check(ok, "number of steps", got=n[i], want=want_n, steps=got[:, :2], **case):
            continue
        sg = -1.0 if backward else 1.0
        edges = sg * np.array([a + j * h for j in range(want_n)] + [b])
        rep.check(
            np.allclose(got[:, 0], edges[:-1], rtol=0, atol=noise)
            and np.allclose(got[:, 1], edges[1:], rtol=0, atol=noise),
            "steps are not at t0 + i dt0",
            got=got[:, :2], want=edges, **case,
        )
        if want_n:
            rep.check(
                got[0, 0] == sg * a and got[-1, 1] == sg * b and np.all(got[1:, 0] == got[:-1, 1]),
                "does not tile [t0, t1]", got=got[:, :2], **case,
            )
        rep.check(float(ts[i]) == b, "final time", got=ts[i], **case)
        rep.check(not np.any(got[:, 2]), "made_jump", **case)
        rep.state(a, b, h)
        rep.transitions += want_n
        rep.traces += 1
        rep.outcome(want_n)
    rep.sample(dict(t0=a, t1=b, dt0=h))


def step_to(n, backward):
    rep = common.Report()
    base = np.array([0.0, 0.1, 0.25, 0.3, 1.0, 1.5, 1.75, 4.0, 4.5, 7.0, 9.0])[:n]
    if backward:
        base = 3.0 - base
    sg = -1.0 if backward else 1.0
    for size in range(0, n - 1):

        @eqx.filter_jit
        @jax.vmap
        def run(ts):
            sol = dfx.diffeqsolve(
                S.TERM, S.ScriptSolver(), ts[0], ts[-1], None, S.zero_y(M),
                stepsize_controller=dfx.StepTo(ts=ts), max_steps=M, throw=False,
                saveat=dfx.SaveAt(steps=True, t0=True),
            )
            return sol.ts, sol.ys, common.result_codes(sol.result)

        combos = [
            np.concatenate([base[:1], c, base[-1:]])
            for c in itertools.combinations(base[1:-1], size)
        ]
        ts, ys, res = jax.device_get(run(jnp.asarray(np.array(combos))))
        for i, c in enumerate(combos):
            m = len(c)
            case = dict(ts=c)
            rep.check(res[i] == 0, "not successful", **case)
            rep.check(
                np.array_equal(ts[i][:m], c) and not np.any(np.isfinite(ts[i][m:])),
                "steps are not the prescribed times", got=ts[i], **case,
            )
            log = ys["log"][i][m - 1][: m - 1]
            rep.check(
                np.array_equal(log[:, 0], sg * c[:-1]) and np.array_equal(log[:, 1], sg * c[1:]),
                "the solver did not step between the prescribed times", got=log, **case,
            )
            rep.state(tuple(c))
            rep.transitions += m - 1
            rep.traces += 1
    rep.sample(dict(ts=combos[-1]))
    return rep


def misuse():
    """Prescribed times that do not fit the interval or are out of order are refused."""
    rep = common.Report()
    S_ = lambda ts, t0, t1: dfx.diffeqsolve(
        S.TERM, S.ScriptSolver(), t0, t1, None, S.zero_y(8),
        stepsize_controller=dfx.StepTo(ts=jnp.asarray(ts)), max_steps=8,
    )
    pts = [0.0, 1.0, 2.0]
    for perm in itertools.product(pts, repeat=3):
        for t0, t1 in itertools.permutations(pts, 2):
            d = np.diff(perm)
            mono = np.all(d > 0) if t0 < t1 else np.all(d < 0)
            ok = mono and perm[0] == t0 and perm[-1] == t1
            try:
                sol = S_(perm, t0, t1)
                jax.block_until_ready(sol.ys)
                raised = False
            except Exception:
                raised = True
            rep.check(raised != ok, "StepTo misuse", ts=perm, t0=t0, t1=t1, raised=raised)
            rep.state(perm, t0, t1)
            rep.transitions += 1
            rep.traces += 1
            rep.outcome("accepted" if ok else "refused")
    rep.sample(dict(ts=perm, t0=t0, t1=t1))
    return rep


def unbounded():
    """No final time: the grid goes on until an event."""
    rep = common.Report()

    @eqx.filter_jit
    @jax.vmap
    def run(stop, dt0, sg):
        sol = dfx.diffeqsolve(
            S.TERM, S.ScriptSolver(), 0.5, sg * jnp.inf, sg * dt0, S.zero_y(M),
            event=dfx.Event(lambda t, y, args, **kw: y["n"] >= args), args=stop,
            max_steps=M, throw=False,
        )
        return sol.ys["n"][0], sol.ys["log"][0], sol.ts[0], common.result_codes(sol.result)

    g = np.array(list(itertools.product(range(13), (0.1, 0.25, 3.0), (1.0, -1.0))))
    n, log, ts, res = jax.device_get(run(*(jnp.asarray(g[:, i]) for i in range(3))))
    for i, (stop, dt0, sg) in enumerate(g):
        case = dict(stop=stop, dt0=dt0, direction=sg)
        rep.check(common.RESULT_NAMES[int(res[i])] == "event_occurred", "result", **case)
        rep.check(int(n[i]) == stop, "number of steps", got=n[i], **case)
        want = sg * 0.5 + dt0 * np.arange(stop + 1)
        rep.check(
            np.allclose(log[i][: int(stop), 1], want[1:]) and np.isclose(sg * ts[i], want[-1]),
            "grid", got=log[i][: int(stop)], **case,
        )
        rep.state(i)
        rep.transitions += int(stop)
        rep.traces += 1
    rep.sample(case)
    return rep


def SCENARIOS(tier):
    thorough = tier == "thorough"
    out = []
    for dt in (np.float64, np.float32):
        for bw in (False, True):
            out.append(
                (
                    f"constant-{np.dtype(dt).name}-{'back' if bw else 'forw'}",
                    ft.partial(constant, dt, 40 if thorough else 9, bw),
                )
            )
    for bw in (False, True):
        out.append(
            (f"stepto-{'back' if bw else 'forw'}", ft.partial(step_to, 11 if thorough else 8, bw))
        )
    out.append(("misuse", misuse))
    out.append(("unbounded", unbounded))
    return out
