"""C11: the elements of a batch do not influence each other.

For several kinds of solve there is a set of behaviours (fast, slow, rejecting, failing, running
out of steps, stopped by an event, empty, ...), each selected by data.  Every ordered batch of
three (thorough: four) of them is run through `vmap`, and every element is compared with the
same solve run alone."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx

from . import common, scripted as S, zoo

BOUNDS = (
    "13 kinds of solve (Langevin, scripted, adaptive, events with and without root finding, implicit, "
    "clipped with jumps, stochastic, saving, steady state, constant steps to different ends) x "
    "5-8 behaviours each x all ordered batches of 3 (thorough 4) x all of times, values, dense "
    "output, statistics, results, event masks and states; nested batches; partial batching"
)


def _stats(sol):
    keys = ("num_steps", "num_accepted_steps", "num_rejected_steps")
    return jnp.stack([jnp.asarray(sol.stats[k]) for k in keys])


def _out(sol, q=None, extra=None):
    out = dict(ts=sol.ts, ys=sol.ys, res=common.result_codes(sol.result), stats=_stats(sol))
    if q is not None:
        out["dense"] = jax.vmap(sol.evaluate)(q)
    if sol.event_mask is not None:
        out["mask"] = sol.event_mask
    if sol.solver_state is not None:
        out["ss"] = sol.solver_state
    if sol.controller_state is not None:
        out["cs"] = sol.controller_state
    if sol.made_jump is not None:
        out["mj"] = sol.made_jump
    return out


# ------------------------------------------------------------------------ kinds of solve
def kind_scripted():
    names = [
        ("a1", "a1", "a1", "a1"), ("rh", "rh", "a1", "rh"), ("a2", "j1", "a1", "rq"),
        ("a1", "f", "a1", "a1"), ("rf", "a1", "a1", "a1"), ("rq", "rq", "rq", "rq"),
    ]
    enc = S.encode(names)
    t1s = [1.0, 1.0, 2.0, 1.0, 1.0, 0.5]
    hf = [np.inf, np.inf, 0.6, np.inf, np.inf, np.inf]
    lanes = [dict(s=jnp.asarray(e), t1=jnp.array(t), hf=jnp.array(h)) for e, t, h in zip(enc, t1s, hf)]
    lanes.append(dict(s=jnp.asarray(enc[0]), t1=jnp.array(0.0), hf=jnp.array(np.inf)))

    def run(x):
        sol = dfx.diffeqsolve(
            S.TERM, S.ScriptSolver(can_fail=True), 0.0, x["t1"], 0.25, S.zero_y(14),
            args={"hfail": x["hf"]},
            stepsize_controller=S.ScriptController(x["s"], jumps=True, can_fail=True),
            saveat=dfx.SaveAt(
                subs=[dfx.SubSaveAt(t0=True, steps=2, t1=True), dfx.SubSaveAt(ts=x["t1"] * jnp.array([0.1, 0.5, 1.0]))],
                dense=True, solver_state=True, controller_state=True, made_jump=True,
            ),
            max_steps=8, throw=False,
        )
        return _out(sol, x["t1"] * jnp.array([0.0, 0.2, 0.25]))

    return run, lanes


def _stiff(t, y, args):
    out = zoo.f_tree(t, y, 0.1)
    return {"a": args * out["a"] + jnp.sin(args * t), "b": out["b"]}


def kind_adaptive():
    lanes = [
        dict(k=jnp.array(k), t1=jnp.array(t), dt=jnp.array(d), tol=jnp.array(tol))
        for k, t, d, tol in [
            (1.0, 1.0, 0.1, 1e-3), (20.0, 1.0, 1.0, 1e-4), (1.0, 5.0, 0.01, 1e-2),
            (50.0, 3.0, 0.5, 1e-9), (1.0, -1.0, -0.2, 1e-5), (np.inf, 1.0, 0.1, 1e-3),
        ]
    ]

    def run(x):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(_stiff), dfx.Tsit5(), 0.0, x["t1"], x["dt"], zoo.y_tree(), args=x["k"],
            stepsize_controller=dfx.PIDController(
                rtol=x["tol"], atol=x["tol"], pcoeff=0.2, icoeff=0.4, dtmin=1e-4, force_dtmin=False
            ),
            saveat=dfx.SaveAt(
                dense=True, controller_state=True, solver_state=True,
                subs=[dfx.SubSaveAt(steps=1), dfx.SubSaveAt(ts=x["t1"] * jnp.array([0.3, 0.9])), dfx.SubSaveAt(t1=True)],
            ),
            max_steps=60, throw=False,
        )
        return _out(sol, x["t1"] * jnp.array([0.0, 0.01]))

    return run, lanes


def kind_events(root, mixed):
    thr = [-5.0, 0.05, 0.3, 0.31, 0.9, 7.0]
    lanes = [dict(thr=jnp.array(v), dt=jnp.array(d)) for v, d in zip(thr, [0.3, 0.3, 0.1, 0.3, 0.17, 0.3])]

    def run(x):
        real = lambda t, y, args, **kw: t + 0.1 * y["b"] - x["thr"] - 0.09
        boo = lambda t, y, args, **kw: t > 2 * x["thr"] + 0.2
        ev = (real, boo) if mixed else real
        sol = dfx.diffeqsolve(
            dfx.ODETerm(zoo.f_tree), dfx.Tsit5(), 0.0, 1.0, x["dt"], zoo.y_tree(), args=jnp.array(0.1),
            event=dfx.Event(ev, optx.Newton(1e-12, 1e-12) if root else None),
            saveat=dfx.SaveAt(
                dense=True,
                subs=[dfx.SubSaveAt(t0=True, steps=1, t1=True), dfx.SubSaveAt(ts=jnp.array([0.2, 0.35, 1.0])), dfx.SubSaveAt(t1=True)],
            ),
            max_steps=20, throw=False,
        )
        return _out(sol, jnp.array([0.0, 0.01]))

    return run, lanes


def kind_implicit():
    lanes = [
        dict(k=jnp.array(k), t1=jnp.array(t), dt=jnp.array(0.2))
        for k, t in [(1.0, 1.0), (30.0, 1.0), (0.0, 2.0), (200.0, 0.4), (np.nan, 1.0)]
    ]

    def vf(t, y, args):
        return -args * (y**3 - jnp.cos(t)) + 0.1 * y[::-1]

    def run(x):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(vf), dfx.Kvaerno3(root_finder=zoo.chord(1e-11), root_find_max_steps=60), 0.0, x["t1"], x["dt"], jnp.array([0.3, 1.2]), args=x["k"],
            stepsize_controller=dfx.PIDController(rtol=1e-4, atol=1e-4, dtmin=1e-3, force_dtmin=False),
            saveat=dfx.SaveAt(steps=True, t1=True, solver_state=False, dense=True),
            max_steps=48, throw=False,
        )
        return _out(sol, jnp.array([0.0, 0.01]))

    return run, lanes


def kind_clip():
    J = [[0.2, 0.6], [0.0, 0.45], [0.5, 0.5], [-1.0, 3.0], [0.1, 0.9], [1.0, 0.3]]
    lanes = [dict(j=jnp.array(sorted(j)), h=jnp.array(h)) for j, h in zip(J, [0.3, 0.1, 0.7, 2.0, 0.3, 0.5])]

    def run(x):
        def vf(t, y, args):
            n = jnp.sum(t >= x["j"])
            return -y * (1 + 3 * n) + n

        sol = dfx.diffeqsolve(
            dfx.ODETerm(vf), dfx.Bosh3(), 0.0, 1.0, x["h"], jnp.array([0.3, 1.2]),
            stepsize_controller=dfx.ClipStepSizeController(
                dfx.PIDController(rtol=1e-2, atol=1e-2), jump_ts=x["j"], step_ts=x["j"] + 0.05, store_rejected_steps=5
            ),
            saveat=dfx.SaveAt(steps=True, dense=True, made_jump=True), max_steps=32, throw=False,
        )
        return _out(sol, jnp.array([0.0, 0.01]))

    return run, lanes


def kind_sde():
    lanes = [
        dict(key=jax.random.PRNGKey(k), tol=jnp.array(tol), t1=jnp.array(t))
        for k, tol, t in [(0, 1e-1, 1.0), (1, 2e-2, 1.0), (2, 1e-1, 0.3), (0, 5e-2, 0.7), (3, 1e-2, 0.6)]
    ]

    def run(x):
        bm = dfx.VirtualBrownianTree(0.0, 1.0, 2.0**-10, (2,), x["key"], levy_area=dfx.SpaceTimeLevyArea)
        terms = dfx.MultiTerm(
            dfx.ODETerm(lambda t, y, args: -y + 0.3 * t),
            dfx.ControlTerm(lambda t, y, args: jnp.diag(0.3 + 0.2 * jnp.sin(y)), bm),
        )
        sol = dfx.diffeqsolve(
            terms, dfx.SPaRK(), 0.0, x["t1"], 0.2, jnp.array([0.4, -0.7]),
            stepsize_controller=dfx.ClipStepSizeController(
                dfx.PIDController(rtol=x["tol"], atol=x["tol"], pcoeff=0.1, icoeff=0.3, dtmin=2.0**-9),
                store_rejected_steps=20,
            ),
            saveat=dfx.SaveAt(subs=[dfx.SubSaveAt(steps=1), dfx.SubSaveAt(t1=True)]), max_steps=40, throw=False,
        )
        return _out(sol)

    return run, lanes


def kind_constant():
    lanes = [
        dict(t0=jnp.array(a), t1=jnp.array(b), dt=jnp.array(d), y=jnp.array([y, -y]))
        for a, b, d, y in [
            (0.0, 1.0, 0.3, 1.0), (1.0, -1.0, -0.25, 2.0), (0.5, 0.5, 0.1, 3.0), (0.0, 9.0, 0.1, 0.5), (-1.0, -0.5, 0.7, 1.0),
            (0.0, 1.0, 0.1, np.nan),
        ]
    ]

    def run(x):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, args: -y * t), dfx.Heun(), x["t0"], x["t1"], x["dt"], x["y"],
            saveat=dfx.SaveAt(
                dense=True,
                subs=[dfx.SubSaveAt(t0=True, steps=3), dfx.SubSaveAt(ts=x["t0"] + (x["t1"] - x["t0"]) * jnp.array([0.0, 0.45, 1.0]))],
            ),
            max_steps=16, throw=False,
        )
        return _out(sol, x["t0"] + (x["t1"] - x["t0"]) * jnp.array([0.0, 0.05]))

    return run, lanes


def kind_steady():
    lanes = [dict(k=jnp.array(k)) for k in (0.5, 3.0, 0.01, 10.0, 1.0)]

    def run(x):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, args: x["k"] * (1.0 - y)), dfx.Tsit5(), 0.0, jnp.inf, 0.1, jnp.array([0.0, 2.0]),
            stepsize_controller=dfx.PIDController(rtol=1e-4, atol=1e-4),
            event=dfx.Event(dfx.steady_state_event(rtol=1e-3, atol=1e-3)),
            saveat=dfx.SaveAt(t1=True), max_steps=60, throw=False,
        )
        return _out(sol)

    return run, lanes


def kind_langevin(solver):
    lanes = [
        dict(g=jnp.array(g), h=jnp.array(h), t1=jnp.array(t), j=jnp.array([j]))
        for g, h, t, j in [(1.0, 0.01, 0.05, 0.02), (5.0, 0.5, 1.0, 0.4), (0.1, 0.3, 0.9, 9.0), (2.0, 0.05, 0.3, 0.1), (80.0, 0.2, 0.6, 0.3)]
    ]

    def run(x):
        gamma = x["g"] * jnp.array([0.8, 1.7])
        u = jnp.array([0.5, 1.2])
        bm = dfx.VirtualBrownianTree(0.0, 1.0, 2.0**-8, (2,), jax.random.PRNGKey(1), levy_area=dfx.SpaceTimeTimeLevyArea)
        terms = dfx.MultiTerm(
            dfx.UnderdampedLangevinDriftTerm(gamma, u, lambda z, *a: jnp.sin(z) + 0.3 * z),
            dfx.UnderdampedLangevinDiffusionTerm(gamma, u, bm),
        )
        sol = dfx.diffeqsolve(
            terms, solver(), 0.0, x["t1"], x["h"], (jnp.array([0.3, -0.4]), jnp.array([0.1, 0.6])),
            stepsize_controller=dfx.ClipStepSizeController(
                dfx.PIDController(rtol=1e-1, atol=1e-1, dtmin=2.0**-6), jump_ts=x["j"]
            ) if solver is dfx.ALIGN else dfx.ConstantStepSize(),
            saveat=dfx.SaveAt(subs=[dfx.SubSaveAt(steps=1), dfx.SubSaveAt(t1=True)]), max_steps=24, throw=False,
        )
        return _out(sol)

    return run, lanes


KINDS = {
    "align": ft.partial(kind_langevin, dfx.ALIGN),
    "quicsort": ft.partial(kind_langevin, dfx.QUICSORT),
    "should": ft.partial(kind_langevin, dfx.ShOULD),
    "scripted": kind_scripted,
    "adaptive": kind_adaptive,
    "event": ft.partial(kind_events, False, False),
    "event-root": ft.partial(kind_events, True, False),
    "event-mixed": ft.partial(kind_events, True, True),
    "implicit": kind_implicit,
    "clip": kind_clip,
    "sde": kind_sde,
    "constant": kind_constant,
    "steady": kind_steady,
}


def batches(name, n):
    rep = common.Report()
    run, lanes = KINDS[name]()
    solo = eqx.filter_jit(run)
    alone = [jax.device_get(solo(x)) for x in lanes]
    for i, out in enumerate(alone):
        rep.outcome(common.RESULT_NAMES[int(out["res"])])
        rep.transitions += int(out["stats"][0])
    fn = eqx.filter_jit(jax.vmap(run))
    # (the memory of the controller holds reciprocals of errors that may be rounding errors)
    tols = {"cs": (1e-3, 1e-9)}
    main = (1e-8, 1e-9) if name in ("scripted", "constant", "event") else (1e-6, 1e-7)
    for combo in itertools.product(range(len(lanes)), repeat=n):
        x = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *[lanes[i] for i in combo])
        out = jax.device_get(fn(x))
        rep.state(name, combo)
        for j, i in enumerate(combo):
            got = zoo.tree_index(out, j)
            for k in got:
                rep.check(
                    zoo.tree_close(got[k], alone[i][k], *tols.get(k, main)),
                    f"{k} of a batch element differs from the same solve run alone",
                    kind=name, batch=combo, element=j, got=got[k], want=alone[i][k],
                )
            rep.transitions += int(got["stats"][0])
            rep.traces += 1
    rep.sample(dict(kind=name, batch=combo))
    return rep


def partial_batching(thorough):
    """Only some of the inputs are batched; nested batches; all have to agree."""
    rep = common.Report()
    vals = dict(
        y0=jnp.array([0.5, -1.0, 2.0]), t1=jnp.array([1.0, 0.4, -0.7]),
        dt=jnp.array([0.1, 0.35, 3.0]), k=jnp.array([1.0, 5.0, 0.0]),
    )

    def run(y0, t1, dt, k):
        thr = 0.2
        sol = dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, args: -args * y + t), dfx.Bosh3(), 0.0, t1, jnp.sign(t1) * dt, y0, args=k,
            stepsize_controller=dfx.PIDController(rtol=1e-3, atol=1e-3),
            event=dfx.Event(lambda t, y, args, **kw: y - thr * jnp.cos(t)),
            saveat=dfx.SaveAt(ts=jnp.stack([0.3 * t1, 0.8 * t1]), t1=True), max_steps=40, throw=False,
        )
        return dict(_out(sol))

    names = list(vals)
    solo = eqx.filter_jit(run)
    cache = {}

    def want(idx):
        if idx not in cache:
            cache[idx] = jax.device_get(solo(*[vals[n][i] for n, i in zip(names, idx)]))
        return cache[idx]

    for subset in itertools.product((False, True), repeat=4):
        if not any(subset) or (not thorough and sum(subset) not in (1, 4)):
            continue
        axes = tuple(0 if s else None for s in subset)
        fn = eqx.filter_jit(jax.vmap(run, in_axes=axes))
        for fixed in (0, 1):
            out = jax.device_get(fn(*[vals[n] if s else vals[n][fixed] for n, s in zip(names, subset)]))
            for j in range(3):
                idx = tuple(j if s else fixed for s in subset)
                got, ref = zoo.tree_index(out, j), want(idx)
                rep.state(subset, fixed, j)
                rep.traces += 1
                for k in got:
                    rep.check(
                        zoo.tree_close(got[k], ref[k], 1e-8, 1e-9), f"{k} (partially batched)",
                        batched=[n for n, s in zip(names, subset) if s], element=idx,
                    )
                rep.transitions += int(got["stats"][0])
    nested = eqx.filter_jit(
        jax.vmap(jax.vmap(run, in_axes=(0, None, 0, None)), in_axes=(None, 0, None, 0))
    )
    out = jax.device_get(nested(*[vals[n] for n in names]))
    for a, b in itertools.product(range(3), range(3)):
        got = jax.tree_util.tree_map(lambda x: x[a, b], out)
        ref = want((b, a, b, a))
        rep.state("nested", a, b)
        rep.traces += 1
        for k in got:
            rep.check(zoo.tree_close(got[k], ref[k], 1e-8, 1e-9), f"{k} (nested batch)", element=(a, b))
    return rep


def throwing():
    """With errors on, a batch raises exactly if one of its elements would."""
    rep = common.Report()

    @eqx.filter_jit
    @jax.vmap
    def run(k):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, args: -args * y), dfx.Tsit5(), 0.0, 1.0, 0.1, jnp.array(1.0), args=k,
            stepsize_controller=dfx.PIDController(rtol=1e-5, atol=1e-5), max_steps=20,
        )
        return sol.ys

    ks = [1.0, 2.0, 1e4]
    for combo in itertools.product(range(3), repeat=3):
        try:
            jax.block_until_ready(run(jnp.array([ks[i] for i in combo])))
            raised = False
        except Exception:
            raised = True
        rep.state(combo)
        rep.traces += 1
        rep.transitions += 1
        rep.check(raised == (2 in combo), "raising of a batch", combo=combo, raised=raised)
        rep.outcome(raised)
    return rep


def SCENARIOS(tier):
    n = 4 if tier == "thorough" else 3
    out = [("partial", ft.partial(partial_batching, tier == "thorough")), ("throwing", throwing)]
    out += [(f"batch-{k}", ft.partial(batches, k, n)) for k in KINDS]
    return out
