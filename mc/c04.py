"""C04: outcomes are reported faithfully: the step budget, failures of the solver or of the
controller, and the statistics."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from . import c01, common, scripted as S, zoo

BOUNDS = (
    "all scripts of depth 4 (thorough 5) over {accept, reject, grow, controller failure on "
    "an accepted / on a rejected step} x solver failures by step length x every step budget "
    "1..6 and none x 4 loop implementations x both directions; every kind of outcome with "
    "throw=True; NaN/inf error estimates at every attempt of a history of 4"
)


def budget(adjoint, max_steps, alphabet, depth, intervals, hfail):
    rep = common.Report()
    scripts = S.scripts(alphabet, depth)
    enc = jnp.asarray(S.encode(scripts))
    fn = eqx.filter_jit(
        jax.vmap(
            ft.partial(c01._solve, adjoint=adjoint, fail=True, max_steps=max_steps),
            in_axes=(None, None, None, 0, None),
        )
    )
    for iv in intervals:
        t0, t1, dt0 = iv
        sgn = 1.0 if t0 < t1 else -1.0
        for hf in hfail:
            out = jax.device_get(
                fn(jnp.array(t0), jnp.array(t1), jnp.array(dt0), enc, jnp.array(hf))
            )
            for k, script in enumerate(scripts):
                tr = S.model(
                    sgn * t0, sgn * t1, sgn * dt0, script, max_steps, hf, report=rep,
                    key=(iv, hf, max_steps),
                )
                c01._check_lane(
                    rep, {a: b[k] for a, b in out.items()}, tr, sgn, iv, script
                )
                rep.traces += 1
    rep.sample(
        dict(interval=iv, script=script, max_steps=max_steps, hfail=hf, result=tr.result)
    )
    return rep


def throw():
    """throw=True raises exactly when the result is a failure; throw=False never raises."""
    rep = common.Report()
    iv = (0.0, 1.0, 0.25)

    event = dfx.Event(lambda t, y, args, **kw: t >= args["te"])

    def make(throw, max_steps):
        @eqx.filter_jit
        def run(script, hfail, tevent):
            return dfx.diffeqsolve(
                S.TERM,
                S.ScriptSolver(can_fail=True),
                *iv,
                S.zero_y(8),
                args={"hfail": hfail, "te": tevent},
                stepsize_controller=S.ScriptController(script, can_fail=True),
                event=event,
                max_steps=max_steps,
                throw=throw,
            )

        return run

    runs = {(th, ms): make(th, ms) for th in (True, False) for ms in (3, 16)}

    def solve(script, hfail, tevent, throw, max_steps):
        return runs[throw, max_steps](script, hfail, tevent)

    for script in itertools.product(("a1", "rh", "f", "rf"), repeat=3):
        for hf in (0.2, np.inf):
            for te in (0.25, np.inf):
                for max_steps in (3, 16):
                    tr = S.model(
                        0.0, 1.0, 0.25, script, max_steps, hf,
                        event=lambda t, n: t >= te, report=rep, key=(hf, te, max_steps),
                    )
                    enc = jnp.asarray(S.encode([script])[0])
                    raised = False
                    try:
                        sol = solve(enc, jnp.array(hf), jnp.array(te), True, max_steps)
                        jax.block_until_ready(sol.ts)
                    except Exception as e:
                        raised = True
                    ok = tr.result in ("successful", "event_occurred")
                    case = dict(
                        script=script, hfail=hf, event=te, max_steps=max_steps,
                        result=tr.result,
                    )
                    rep.check(raised == (not ok), "throw=True", raised=raised, **case)
                    sol = solve(enc, jnp.array(hf), jnp.array(te), False, max_steps)
                    got = common.result_name(sol.result)
                    rep.check(got == tr.result, "throw=False result", got=got, **case)
                    r = sol.result
                    rep.check(
                        (bool(dfx.is_okay(r)), bool(dfx.is_successful(r)), bool(dfx.is_event(r)))
                        == (
                            ok,
                            tr.result == "successful",
                            tr.result == "event_occurred",
                        ),
                        "is_okay/is_successful/is_event",
                        **case,
                    )
                    rep.outcome(tr.result)
                    rep.traces += 2
    rep.sample(case)
    return rep


def nan_errors():
    """A NaN or infinite error estimate (equivalently: a NaN vector field) never leads to
    an accepted step with an adaptive controller, and an unlucky run is reported."""
    rep = common.Report()
    bad = {"ok": 0.0, "nan": np.nan, "inf": np.inf}

    class BadSolver(dfx.AbstractAdaptiveSolver):
        term_structure = dfx.ODETerm
        interpolation_cls = dfx.LocalLinearInterpolation

        def order(self, terms):
            return 2

        def init(self, terms, t0, t1, y0, args):
            return None

        def func(self, terms, t0, y0, args):
            return terms.vf(t0, y0, args)

        def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
            # Steps of length h are bad with the value args[log2(1/h)]
            lvl = jnp.clip(jnp.round(-jnp.log2(t1 - t0)).astype(int), 0, 11)
            e = args[lvl]
            y1 = jnp.where(jnp.isnan(e), jnp.nan, y0 + (t1 - t0))
            return y1, jnp.zeros_like(y0) + e, dict(y0=y0, y1=y1), None, dfx.RESULTS.successful

    def solve(errs):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, args: jnp.ones_like(y)),
            BadSolver(),
            0.0,
            1.0,
            1.0,
            jnp.array(0.0),
            args=errs,
            stepsize_controller=dfx.PIDController(
                rtol=0.0, atol=1.0, factormin=0.5, factormax=1.0, safety=1.0, dtmin=0.012,
                force_dtmin=False,
            ),
            saveat=dfx.SaveAt(steps=True, t0=True),
            max_steps=100,
            throw=False,
        )
        return sol.ts, sol.ys, common.result_codes(sol.result), sol.stats["num_rejected_steps"]

    fn = eqx.filter_jit(jax.vmap(solve))
    choices = list(itertools.product(bad, repeat=5))
    errs = np.zeros((len(choices), 12))
    for i, c in enumerate(choices):
        errs[i, :5] = [bad[x] for x in c]
    allbad = np.full((2, 12), np.nan)
    allbad[1] = np.inf
    ts, ys, res, rej = jax.device_get(fn(jnp.asarray(np.concatenate([errs, allbad]))))
    for i, c in enumerate(choices):
        lvl = next((k for k, x in enumerate(c) if x == "ok"), 5)
        n = int(np.sum(np.isfinite(ts[i])))
        case = dict(errors=c, ts=ts[i][:n], ys=ys[i][:n])
        rep.check(res[i] == 0, "not successful", **case)
        rep.check(rej[i] == lvl, "rejections", got=rej[i], want=lvl, **case)
        rep.check(
            np.allclose(ys[i][:n], ts[i][:n]) and ts[i][n - 1] == 1.0,
            "a step with a non-finite error estimate was accepted",
            **case,
        )
        rep.check(
            n >= 2 and np.isclose(ts[i][1], 2.0**-lvl), "first accepted step", **case
        )
        rep.state(lvl, c)
        rep.transitions += n + lvl
        rep.traces += 1
    for i in (len(choices), len(choices) + 1):
        rep.check(
            common.RESULT_NAMES[int(res[i])] == "dt_min_reached",
            "a run in which every step fails has to be reported",
            got=common.RESULT_NAMES[int(res[i])],
        )
        rep.traces += 1
    rep.sample(dict(errors=choices[-1]))
    return rep


def real_nan(name):
    """A vector field that is NaN beyond a threshold: never in an accepted value."""
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    solver = spec.make()

    def vf(t, y, args):
        return jnp.where(y > args, -jnp.sqrt(y - args), jnp.nan)

    def solve(dt0, thr):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(vf),
            solver,
            0.0,
            0.5,
            dt0,
            jnp.array(1.0),
            args=thr,
            stepsize_controller=dfx.PIDController(rtol=1e-4, atol=1e-6),
            saveat=dfx.SaveAt(steps=True),
            max_steps=300,
            throw=False,
        )
        return sol.ts, sol.ys, common.result_codes(sol.result)

    dts = [0.01, 0.1, 0.25, 0.5]
    thrs = [0.0, 0.5, 0.75, 0.9]
    g = np.array(list(itertools.product(dts, thrs)))
    ts, ys, res = jax.device_get(
        eqx.filter_jit(jax.vmap(solve))(jnp.asarray(g[:, 0]), jnp.asarray(g[:, 1]))
    )
    for i in range(len(g)):
        fin = np.isfinite(ts[i])
        rep.check(
            not np.any(np.isnan(ys[i][fin])),
            "an accepted value is NaN",
            solver=name, dt0=g[i, 0], thr=g[i, 1],
        )
        if res[i] == 0:
            t = ts[i][fin]
            # exact: sqrt(y - thr) = sqrt(1 - thr) - t/2, whilst positive
            w = np.sqrt(1 - g[i, 1]) - t / 2
            want = np.where(w > 0, g[i, 1] + w**2, np.nan)
            m = np.isfinite(want)
            rep.check(
                np.allclose(ys[i][fin][m], want[m], atol=2e-2),
                "inaccurate",
                solver=name, dt0=g[i, 0], thr=g[i, 1],
            )
        rep.outcome(common.RESULT_NAMES[int(res[i])])
        rep.state(name, i)
        rep.transitions += int(fin.sum())
        rep.traces += 1
    rep.sample(dict(solver=name, dt0=g[-1, 0], thr=g[-1, 1]))
    return rep


def SCENARIOS(tier):
    thorough = tier == "thorough"
    d = 5 if thorough else 4
    ivs = [(0.0, 1.0, 0.25), (1.0, 0.0, -0.25)]
    alphabet = ("a1", "rh", "a2", "f", "rf")
    hf = (0.1, 0.3, np.inf)
    out = []
    for ms in (1, 2, 3, 4, 5, 6, 8):
        out.append(
            (
                f"budget-{ms}",
                ft.partial(
                    budget, dfx.RecursiveCheckpointAdjoint(), ms, alphabet, d, ivs, hf
                ),
            )
        )
        if ms in (3, 5) or thorough:
            out.append(
                (
                    f"budget-direct-{ms}",
                    ft.partial(budget, dfx.DirectAdjoint(), ms, alphabet, d, ivs, hf),
                )
            )
            out.append(
                (
                    f"budget-forward-{ms}",
                    ft.partial(budget, dfx.ForwardMode(), ms, alphabet, d, ivs, hf),
                )
            )
    out.append(
        (
            "budget-none",
            ft.partial(budget, dfx.ForwardMode(), None, alphabet, d, ivs, hf),
        )
    )
    out.append(
        (
            "budget-backsolve-none",
            ft.partial(budget, dfx.BacksolveAdjoint(), None, alphabet, d, ivs, hf),
        )
    )
    out.append(("throw", throw))
    out.append(("nan-errors", nan_errors))
    for n in ("Tsit5", "Dopri5", "Bosh3", "Heun", "Kvaerno3", "Dopri8") if thorough else (
        "Tsit5",
        "Heun",
        "Kvaerno3",
    ):
        out.append((f"nan-vf-{n}", ft.partial(real_nan, n)))
    return out
