"""C12: every way of differentiating a solve gives the derivative of that very solve.

The reference calls the solver's `step` by hand along the accepted steps of the history and
differentiates that (no loop, no checkpointing, no custom derivative rules)."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx

from . import common, scripted as S, zoo

BOUNDS = (
    "discretise-then-optimise: 12 (thorough: all) solvers x all histories of depth 2 over "
    "{accept, reject, shrink} x 4 derivatives (checkpointed, direct reverse, direct forward, "
    "forward mode) w.r.t. state, parameters and times; all checkpoint numbers 1..7 x all "
    "histories of depth 3; continuous adjoint: all subsets of {t0, ts, t1} outputs x 4 solvers; "
    "implicit: 6 parameters x both modes; event times: 6 thresholds x both modes"
)
T0, T1, DT = 0.25, 1.25, 0.5
TS = np.array([0.25, 0.4, 0.75, 1.1, 1.25])
Q = np.array([0.3, 0.75, 1.2])
ACT = ("a1", "rh", "ah")
N = 12


def accepted(script, t0=T0, t1=T1, dt=DT):
    """The accepted steps of a history: (a, b) pairs."""
    t, nt, out, i = t0, min(t0 + dt, t1), [], 0
    while t < t1:
        keep, factor, _, _ = S.ACTIONS[script[i] if i < len(script) else "a1"]
        h = nt - t
        if keep:
            out.append((t, nt))
            t = nt
        nt = min(t + factor * h, t1)
        i += 1
    return out, i


def flat(tree):
    return jnp.concatenate([jnp.ravel(x) for x in jax.tree_util.tree_leaves(tree)])


def weights(n):
    return jnp.sin(1.0 + 2.0 * jnp.arange(n))


def solve_loss(terms, solver, adjoint, y0, args, t0, t1, dt, script):
    sol = dfx.diffeqsolve(
        terms, solver, t0, t1, dt, y0, args=args, adjoint=adjoint, max_steps=N, throw=False,
        stepsize_controller=zoo.ReplayController(script),
        saveat=dfx.SaveAt(
            dense=True, subs=[dfx.SubSaveAt(steps=1), dfx.SubSaveAt(ts=TS), dfx.SubSaveAt(t0=True, t1=True)]
        ),
    )
    fin = lambda x: jnp.where(jnp.isfinite(x), x, 0.0)
    vals = [
        jax.tree_util.tree_map(fin, sol.ys[0]), sol.ys[1], sol.ys[2],
        jax.vmap(sol.evaluate)(jnp.asarray(Q)),
    ]
    out = flat(vals)
    return jnp.dot(weights(out.shape[0]), out), out


def reference_loss(terms, solver, y0, args, steps, init, step):
    """The same by hand."""
    y, state = y0, None
    ys, evals = [], []
    for a, b in steps:
        if state is None:
            state = init(jnp.array(a), jnp.array(b), y, args)
        y, state, ev = step(jnp.array(a), jnp.array(b), y, args, state)
        ys.append(y)
        evals.append(ev)
    all_t = np.concatenate([TS, Q])

    def at(i):
        for (a, b), ev in zip(steps, evals):
            if all_t[i] <= b:
                return zoo.tree_index(ev, i)

    zero = jax.tree_util.tree_map(jnp.zeros_like, y0)
    saved = ys + [zero] * (N - len(ys))
    stack = lambda l: jax.tree_util.tree_map(lambda *x: jnp.stack(x), *l)
    nt = len(TS)
    vals = [
        stack(saved), stack([y0 if TS[i] == T0 else at(i) for i in range(nt)]), stack([y0, y]),
        stack([at(nt + i) for i in range(len(Q))]),
    ]
    out = flat(vals)
    return jnp.dot(weights(out.shape[0]), out), out


def stepper(terms, solver):
    @jax.jit
    def init(a, b, y, args):
        return solver.init(terms, a, b, y, args)

    @jax.jit
    def step(a, b, y, args, state):
        y1, _, info, state, _ = solver.step(terms, a, b, y, args, state, False)
        ip = solver.interpolation_cls(t0=a, t1=b, **info)
        return y1, state, jax.vmap(ip.evaluate)(jnp.asarray(np.concatenate([TS, Q])))

    return init, step


def _modes():
    return {
        "checkpointed": (dfx.RecursiveCheckpointAdjoint(), "rev"),
        "direct": (dfx.DirectAdjoint(), "rev"),
        "direct-jvp": (dfx.DirectAdjoint(), "fwd"),
        "forward": (dfx.ForwardMode(), "fwd"),
    }


def _gradient(f, mode):
    """-> (gradient in all differentiable inputs, values)"""

    def run(*x):
        if mode == "rev":
            return jax.grad(f, argnums=tuple(range(len(x))), has_aux=True)(*x)
        flatx, unravel = jax.flatten_util.ravel_pytree(x)
        g = lambda v: f(*unravel(v))
        grads, vals = jax.vmap(lambda e: jax.jvp(lambda v: g(v)[0], (flatx,), (e,))[1])(jnp.eye(flatx.size)), g(flatx)[1]
        return unravel(grads), vals

    return run


def histories(name, depth, modes):
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    solver = spec.make()
    terms, y0 = spec.problem()
    args = jnp.array(0.1)
    noise = spec.kind not in ("ode", "imex", "semi")  # not differentiable in time
    scripts = S.scripts(ACT, depth)
    enc = jnp.asarray(S.encode(scripts))
    init, step = stepper(terms, solver)
    outs = {}
    for m in modes:
        adjoint, mode = _modes()[m]

        @eqx.filter_jit
        def run(enc):
            def one(script):
                f = lambda y0, args, t0=T0, t1=T1, dt=DT: solve_loss(
                    terms, solver, adjoint, y0, args, t0, t1, dt, script
                )
                times = () if noise else (jnp.array(T0), jnp.array(T1), jnp.array(DT))
                return _gradient(f, mode)(y0, args, *times)

            return jax.vmap(one)(enc) if mode == "rev" else jax.lax.map(one, enc)

        outs[m] = jax.device_get(run(enc))
    for k, script in enumerate(scripts):
        steps, n = accepted(script)
        if n > N:
            continue
        rep.state(name, script)
        rep.transitions += n
        # (Compiling the reference is what costs time; steps depend on the script only
        # through the accepted ones.)
        want = _reference(terms, solver, tuple(steps), y0, args, init, step)
        for m in modes:
            g, vals = zoo.tree_index(outs[m], k)
            case = dict(solver=name, script=script, mode=m)
            rep.check(
                np.allclose(vals, want[1], rtol=1e-8, atol=1e-8), "values",
                got=vals, want=want[1], **case,
            )
            rep.check(
                zoo.tree_close(g[:2], want[0], 1e-7, 1e-7),
                "derivative w.r.t. initial value and parameters is not that of the steps taken",
                got=g[:2], want=want[0], **case,
            )
            rep.traces += 1
            if noise:
                continue
            ref = zoo.tree_index(outs[modes[0]], k)[0]
            rep.check(
                zoo.tree_close(g[2:], ref[2:], 1e-7, 1e-7),
                "derivative w.r.t. times depends on how it is computed", got=g[2:], want=ref[2:], **case,
            )
    rep.sample(dict(solver=name, script=script, steps=steps))
    return rep


_CACHE = {}


def _reference(terms, solver, steps, y0, args, init, step):
    key = (id(solver), steps)
    if key not in _CACHE:
        f = lambda y0, args: reference_loss(terms, solver, y0, args, steps, init, step)
        _CACHE[key] = jax.device_get(jax.grad(f, argnums=(0, 1), has_aux=True)(y0, args))
    return _CACHE[key]


def checkpoints(numbers, depth):
    """Any number of checkpoints, with and without a bound on the number of steps."""
    rep = common.Report()
    terms, y0 = zoo.ode_problem()
    args = jnp.array(0.1)
    solver = dfx.Euler()
    scripts = S.scripts(ACT, depth)
    enc = jnp.asarray(S.encode(scripts))
    for c, bounded in itertools.product(numbers, (True, False)):

        def loss(y0, args, script):
            sol = dfx.diffeqsolve(
                terms, solver, T0, T1, 0.25, y0, args=args, throw=False,
                adjoint=dfx.RecursiveCheckpointAdjoint(checkpoints=c), max_steps=64 if bounded else None,
                stepsize_controller=zoo.ReplayController(script),
                saveat=dfx.SaveAt(ts=TS, fn=lambda t, y, args: jax.tree_util.tree_map(lambda v: v * args * t, y)),
            )
            out = flat(sol.ys)
            return jnp.dot(weights(out.shape[0]), out)

        got = jax.device_get(
            eqx.filter_jit(jax.vmap(jax.grad(loss, argnums=(0, 1)), in_axes=(None, None, 0)))(y0, args, enc)
        )
        for k, script in enumerate(scripts):
            steps, n = accepted(script, dt=0.25)
            want = _euler_ref(terms, y0, args, tuple(steps))
            rep.state(c, bounded, script)
            rep.transitions += n
            rep.traces += 1
            rep.check(
                zoo.tree_close(zoo.tree_index(got, k), want, 1e-9, 1e-9), "gradient with this number of checkpoints",
                checkpoints=c, bounded=bounded, script=script, got=zoo.tree_index(got, k), want=want,
            )
    rep.sample(dict(checkpoints=c, script=script))
    return rep


def _euler_ref(terms, y0, args, steps):
    key = ("euler", steps)
    if key not in _CACHE:
        solver = dfx.Euler()

        @jax.jit
        def run(a, b, y0, args):
            def loss(y0, args):
                def body(y, ab):
                    y1 = solver.step(terms, ab[0], ab[1], y, args, None, False)[0]
                    return y1, y1

                # (zero-length steps pad the history)
                y1, ys = jax.lax.scan(body, y0, (a, b))
                full = jax.tree_util.tree_map(lambda u, v: jnp.concatenate([u[None], v]), y0, ys)
                knots = jnp.concatenate([a[:1], b])
                idx = jnp.clip(jnp.searchsorted(b, TS, side="left"), 0, len(steps) - 1)
                w = (TS - a[idx]) / (b[idx] - a[idx])
                at = jax.tree_util.tree_map(
                    lambda v: jax.vmap(lambda i, s: v[i] + s * (v[i + 1] - v[i]))(idx, w), full
                )
                at = jax.tree_util.tree_map(lambda v: jax.vmap(lambda x, t: x * args * t)(v, jnp.asarray(TS)), at)
                out = flat(at)
                return jnp.dot(weights(out.shape[0]), out)

            return jax.grad(loss, argnums=(0, 1))(y0, args)

        a = jnp.array([s[0] for s in steps])
        b = jnp.array([s[1] for s in steps])
        _CACHE[key] = jax.device_get(run(a, b, y0, args))
    return _CACHE[key]


def backsolve(name, backwards, const=False):
    """The continuous adjoint: agrees with the direct one up to discretisation error, for every
    combination of outputs."""
    rep = common.Report()
    solver = zoo.BY_NAME[name].make()
    _, y0 = zoo.ode_problem()
    sg = -1.0 if backwards else 1.0
    t0, t1 = sg * T0, sg * T1
    ts = sg * TS
    terms = dfx.ODETerm(zoo.f_tree)
    # Fixed steps: nothing corrects a wrong stage of the backward solve (an adaptive one would just take more steps).
    fixed = const or name in ("ReversibleHeun", "LeapfrogMidpoint", "Heun")
    high = name in ("Tsit5", "Dopri5", "Dopri8")

    def ctrl():
        return dfx.ConstantStepSize() if fixed else dfx.PIDController(rtol=1e-9, atol=1e-9)

    dt = sg * ((1 / 64 if high else 1 / 512) if fixed else 0.1)
    for s0, sts, s1 in itertools.product((False, True), repeat=3):
        if not (s0 or sts or s1):
            continue

        def loss(y0, args, adjoint):
            sol = dfx.diffeqsolve(
                terms, solver, t0, t1, dt, y0, args=args, stepsize_controller=ctrl(), adjoint=adjoint,
                saveat=dfx.SaveAt(t0=s0, ts=ts if sts else None, t1=s1), max_steps=1024,
            )
            out = flat(sol.ys)
            return jnp.dot(weights(out.shape[0]), out), out

        g = {}
        # (checkpointed is pinned to the exact derivative by the other scenarios)
        for nm, adj in [("back", dfx.BacksolveAdjoint()), ("exact", dfx.RecursiveCheckpointAdjoint())]:
            if nm == "back" and not fixed:
                adj = dfx.BacksolveAdjoint(solver=solver, stepsize_controller=ctrl())
            elif nm == "back" and const:
                adj = dfx.BacksolveAdjoint()
            g[nm] = jax.device_get(
                eqx.filter_jit(lambda y, a, adj=adj: jax.grad(lambda y, a: loss(y, a, adj), argnums=(0, 1), has_aux=True)(y, a))(
                    y0, jnp.array(0.1)
                )
            )
        case = dict(solver=name, t0=s0, ts=sts, t1=s1, backwards=backwards)
        rep.state(*case.values())
        rep.transitions += 1
        rep.traces += 1
        rep.check(np.allclose(g["back"][1], g["exact"][1], rtol=1e-12, atol=1e-12), "values", **case)
        tol = 1e-4 if fixed and not high else 1e-6
        rep.check(
            zoo.tree_close(g["back"][0], g["exact"][0], tol, tol), "continuous adjoint",
            got=g["back"][0], want=g["exact"][0], **case,
        )
    rep.sample(case)
    return rep


def implicit():
    rep = common.Report()
    A = jnp.array([[2.0, 0.3], [-0.1, 1.5]])

    # (Before the steady state is reached the vector field was a different one; the one of the
    # end of time is different again.)
    def vf(t, y, args):
        early = jnp.where(t < 1.5, 0.5, jnp.where(t < 1e3, 1.0, 3.0))
        return args["b"] * early - A @ y - 0.1 * args["c"] * y**3

    def solve(args, y0, back=False):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(vf), dfx.Tsit5(), 0.0, jnp.inf, 0.1, y0, args=args, adjoint=dfx.ImplicitAdjoint(),
            stepsize_controller=dfx.PIDController(rtol=1e-10, atol=1e-10),
            event=dfx.Event(dfx.steady_state_event(rtol=1e-9, atol=1e-9)), max_steps=4096,
        )
        return sol.ys[0]

    def run(args, y0):
        y = solve(args, y0)
        return dict(
            y=y, rev=jax.jacrev(solve, argnums=(0, 1))(args, y0), fwd=jax.jacfwd(solve, argnums=(0, 1))(args, y0)
        )

    fn = eqx.filter_jit(run)
    for b, c in itertools.product(([1.0, -2.0], [0.0, 0.5], [3.0, 3.0]), (0.0, 1.0)):
        args = dict(b=jnp.array(b), c=jnp.array(c))
        y0 = jnp.array([0.1, 0.2])
        out = jax.device_get(fn(args, y0))
        y = out["y"]
        J = np.asarray(A) + np.diag(0.3 * c * y**2)
        want_b = np.linalg.inv(J)
        want_c = np.linalg.solve(J, -0.1 * y**3)
        case = dict(b=b, c=c)
        rep.state(str(case))
        rep.transitions += 1
        rep.traces += 1
        for m in ("rev", "fwd"):
            ga, gy = out[m]
            rep.check(np.allclose(ga["b"], want_b, atol=1e-6), f"implicit d/db ({m})", got=ga["b"], want=want_b, **case)
            rep.check(np.allclose(ga["c"], want_c, atol=1e-6), f"implicit d/dc ({m})", got=ga["c"], want=want_c, **case)
            rep.check(np.allclose(gy, 0), f"implicit d/dy0 ({m})", got=gy, **case)
    rep.sample(case)
    return rep


def event_times(adjoint_name, backwards):
    """d(time of the event)/d(anything) and d(value there)/d(anything)."""
    rep = common.Report()
    adjoint, mode = _modes()[adjoint_name]
    s = -1.0 if backwards else 1.0
    thr = np.array([0.05, 0.33, 0.5, 0.71, 1.3, 2.0])

    # y' = s k, y(t) = y0 + k |t|: crosses thr at |t| = (thr - y0)/k.
    def f(y0, k, thr, vec):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, args: {"y": s * k, "z": -y["z"] * s}), dfx.Tsit5(), 0.0, s * 1.5, s * 0.4,
            {"y": y0, "z": jnp.array(1.0)}, adjoint=adjoint, max_steps=16,
            event=dfx.Event(lambda t, y, args, **kw: y["y"] - thr, optx.Newton(1e-13, 1e-13)),
        )
        out = jnp.stack([sol.ts[0], sol.ys["y"][0], sol.ys["z"][0]])
        return jnp.dot(vec, out), out

    run = eqx.filter_jit(lambda *x: _gradient(lambda a, b, c: f(a, b, c, x[3]), mode)(*x[:3]))
    for th, (y0, k) in itertools.product(thr, ((0.0, 1.0), (-0.2, 1.3))):
        tau = min((th - y0) / k, 1.5)
        hit = (th - y0) / k < 1.5
        for i in range(3):
            g, vals = jax.device_get(run(jnp.array(y0), jnp.array(k), jnp.array(th), jnp.eye(3)[i]))
            rep.state(th, y0, i)
            rep.traces += 1
            rep.transitions += 1
            case = dict(threshold=th, y0=y0, k=k, output=i, mode=adjoint_name)
            dt = np.array([-1 / k, -tau / k, 1 / k]) if hit else np.zeros(3)  # w.r.t. y0, k, thr
            dz = np.exp(-tau)
            want = {
                0: s * dt,
                1: np.array([1.0, tau, 0.0]) + k * dt,
                2: -dz * dt,
            }[i]
            wv = [s * tau, y0 + k * tau, dz]
            rep.check(np.allclose(vals, wv, atol=1e-4), "values at the event", got=vals, want=wv, **case)
            rep.check(
                np.allclose(np.array(g), want, atol=1e-3), "derivative of the event", got=np.array(g), want=want, **case
            )
            rep.outcome("event" if hit else "no event")
    rep.sample(case)
    return rep


QUICK = (
    "Euler", "Tsit5", "ReversibleHeun", "Kvaerno3", "KenCarp3", "SemiImplicitEuler",
    "ShARK", "Half-Heun",
)


def SCENARIOS(tier):
    th = tier == "thorough"
    out = []
    for sp in zoo.SPECS:
        if th or sp.name in QUICK:
            modes = ["checkpointed", "direct", "direct-jvp", "forward"]
            if not th:
                modes = ["checkpointed", "direct", "forward"]
            out.append((f"history-{sp.name}", ft.partial(histories, sp.name, 3 if th else 2, modes)))
    for c in range(1, 8) if th else (1, 3):
        out.append((f"checkpoints-{c}", ft.partial(checkpoints, (c,), 4 if th else 3)))
    for n in ("Tsit5", "Heun", "ReversibleHeun", "Bosh3") if th else ("Tsit5",):
        for b in (False, True) if th else (False,):
            out.append((f"backsolve-{n}-{b}", ft.partial(backsolve, n, b)))
    for n in ("Tsit5", "Dopri5", "Bosh3") if th else ("Tsit5",):
        for b in (False, True) if th else (True,):
            out.append((f"backsolve-fixed-{n}-{b}", ft.partial(backsolve, n, b, True)))
    out.append(("implicit", implicit))
    for m in _modes():
        for b in (False, True):
            out.append((f"event-{m}-{b}", ft.partial(event_times, m, b)))
    slow = ("backsolve", "history-Kv", "history-KenCarp")
    return sorted(out, key=lambda x: not x[0].startswith(slow))
