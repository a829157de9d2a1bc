"""C10: a solve that is stopped and continued is the uninterrupted solve.

The uninterrupted solve is run once per history; then it is interrupted after every one of
its steps (by an event after every accepted step; by the step budget after every attempted
step), and continued from the states that were returned."""

import functools as ft

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from . import common, scripted as S, zoo
from .c09 import cheap_bm

BOUNDS = (
    "scripted solver: all histories of depth 4 (thorough 5) over {accept, reject, shrink, "
    "grow, jump} x every interruption after an accepted step, and after every attempted step "
    "by budget, x both directions; every solver of the library: all histories of depth 2 "
    "(thorough 3) x every interruption; PID, PI with bounds, clipped (step times, jump times), "
    "revisiting, constant and prescribed controllers x 3 tolerances x every interruption"
)
NL = 40


class _Logging:
    def wrap(self, direction):
        return type(self)(self.inner.wrap(direction))

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        t, state = self.inner.init(terms, t0, t1, y0, dt0, args, func, error_order)
        return t, (state, jnp.array(0), jnp.zeros((NL, 3)))

    def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
        state, i, log = controller_state
        keep, a, b, jump, state, result = self.inner.adapt_step_size(
            t0, t1, y0, y1_candidate, args, y_error, error_order, state
        )
        log = log.at[i].set(jnp.stack([jnp.asarray(x, float) for x in (t0, t1, keep)]))
        return keep, a, b, jump, (state, i + 1, log), result


class LoggingFixed(_Logging, dfx.AbstractStepSizeController):
    """Logs every attempt of another controller."""

    inner: dfx.AbstractStepSizeController


class LoggingAdaptive(_Logging, dfx.AbstractAdaptiveStepSizeController):
    inner: dfx.AbstractStepSizeController

    @property
    def rtol(self):
        return self.inner.rtol

    @property
    def atol(self):
        return self.inner.atol

    @property
    def norm(self):
        return self.inner.norm


def Logging(inner):
    if isinstance(inner, dfx.AbstractAdaptiveStepSizeController):
        return LoggingAdaptive(inner)
    return LoggingFixed(inner)


def _cut(t, y, args, **kw):
    return args[1] * (t - args[2]) >= 0


def _terms(terms):
    """The problems take one argument; ours carries the position of the cut along."""

    def wrap(tm):
        if isinstance(tm, dfx.MultiTerm):
            return dfx.MultiTerm(*map(wrap, tm.terms))
        if isinstance(tm, tuple):
            return tuple(map(wrap, tm))
        if isinstance(tm, dfx.ODETerm):
            f = tm.vector_field
            return dfx.ODETerm(lambda t, y, args: f(t, y, args[0]))
        if isinstance(tm, dfx.ControlTerm):
            f = tm.vector_field
            return dfx.ControlTerm(lambda t, y, args: f(t, y, args[0]), tm.control)
        return tm

    return wrap(terms)


SAVE = dict(solver_state=True, controller_state=True, made_jump=True)


def explore(rep, terms, solver, make, lanes, t0, t1, dt0, y0, *, max_steps, key, tol=1e-11,
            budgets=(), adjoint=None, event=True, ncuts):
    """`make(lane)` -> controller; `lanes` is an array, whose first axis is the histories."""
    kw = dict(adjoint=dfx.RecursiveCheckpointAdjoint() if adjoint is None else adjoint, throw=False)
    sgn = 1.0 if t1 > t0 else -1.0
    terms = _terms(terms)
    args0 = jnp.array(0.1)
    fr = np.array([0.0, 0.3, 0.55, 0.8, 1.0])
    q = jnp.asarray(t0 + fr * (t1 - t0))

    def go(lane, a, dt, y, cut, ss, cs, mj, max_steps):
        sol = dfx.diffeqsolve(
            terms, solver, a, t1, dt, y, args=(args0, sgn, cut),
            stepsize_controller=Logging(make(lane)),
            saveat=dfx.SaveAt(
                dense=True,
                subs=[dfx.SubSaveAt(steps=1), dfx.SubSaveAt(t1=True), dfx.SubSaveAt(ts=jnp.array([t1]))], **SAVE
            ),
            event=dfx.Event(_cut) if event else None,
            solver_state=ss, controller_state=cs, made_jump=mj, max_steps=max_steps, **kw,
        )
        dense = jax.vmap(sol.evaluate)(q)
        return dict(
            ts=sol.ts[0], ys=sol.ys[0], t=sol.ts[1][0], y=zoo.tree_index(sol.ys[1], 0),
            ss=sol.solver_state, cs=sol.controller_state, mj=sol.made_jump,
            dense=dense, res=common.result_codes(sol.result), end=sol.ys[2],
            n=sol.stats["num_accepted_steps"], m=sol.stats["num_steps"],
        )

    far = t1 + sgn
    lanes = jnp.asarray(lanes)
    start = eqx.filter_jit(jax.vmap(
        lambda lane, cut: go(lane, t0, dt0, y0, cut, None, None, None, max_steps)
    ))

    def resume(lane, first, log):
        # the size of the step that the uninterrupted solve attempted next
        row = log[jnp.minimum(first["cs"][1], NL - 1)]
        dt = sgn * (row[1] - row[0])
        none = ~jnp.isfinite(first["t"])  # (nothing was accepted yet)
        a = jnp.where(none, t0, first["t"])
        y = jax.tree_util.tree_map(lambda u, v: jnp.where(none, u, v), y0, first["y"])
        return go(lane, a, dt, y, far, first["ss"], first["cs"], first["mj"], max_steps), a

    resume = eqx.filter_jit(jax.vmap(resume))
    # (Everything in batches of the same size, so that it is compiled once.)
    L = lanes.shape[0]
    size = L * ncuts
    full = start(lanes[np.arange(size) % L], jnp.full((size,), far))
    full = jax.device_get(zoo.tree_index(full, slice(0, L)))
    K = max(int(full["n"].max()) - 1, 1)
    # Cut number k of a lane is after its k-th accepted step (and is stated as a time
    # just before its end, as compilations may differ in the last place).
    pairs = [
        (l, k) for l in range(lanes.shape[0]) for k in range(K)
        if k + 1 < int(full["n"][l]) and np.isfinite(full["ts"][l, k])
    ]
    cuts = np.array([full["ts"][p] for p in pairs])
    log = jnp.asarray(full["cs"][2])
    chunks = []
    for c in range(0, len(pairs), size):
        ids = (c + np.arange(size)) % len(pairs)
        li = np.array([pairs[i][0] for i in ids])
        first = start(lanes[li], jnp.asarray(cuts[ids] - sgn * 1e-8))
        second, _ = resume(lanes[li], first, log[li])
        chunks.append(jax.device_get((first, second)))
    first, second = jax.tree_util.tree_map(lambda *x: np.concatenate(x), *chunks)

    def compare(l, k, f, s, case, at):
        want = zoo.tree_index(full, l)
        total = int(want["n"])
        if common.RESULT_NAMES[int(want["res"])] == "max_steps_reached":
            return  # (each leg has a budget of its own)
        rep.check(
            common.RESULT_NAMES[int(s["res"])] == common.RESULT_NAMES[int(want["res"])],
            "outcome of the continued solve",
            got=common.RESULT_NAMES[int(s["res"])], want=common.RESULT_NAMES[int(want["res"])], **case,
        )
        if common.RESULT_NAMES[int(want["res"])] != "successful":
            return
        nf, ns = int(f["n"]), int(s["n"])
        rep.check(nf + ns == total, "number of accepted steps", got=(nf, ns), want=total, **case)
        rep.check(int(f["m"]) + int(s["m"]) == int(want["m"]), "number of steps", **case)
        if nf + ns != total:
            return
        ts = np.concatenate([f["ts"][:nf], s["ts"][:ns]])
        rep.check(
            np.allclose(ts, want["ts"][:total], rtol=0, atol=tol), "times of the two legs",
            got=ts, want=want["ts"][:total], **case,
        )
        cat = lambda a, b: np.concatenate([a[:nf], b[:ns]])
        ys = jax.tree_util.tree_map(cat, f["ys"], s["ys"])
        rep.check(
            zoo.tree_close(ys, jax.tree_util.tree_map(lambda x: x[:total], want["ys"]), tol, tol),
            "values of the two legs", got=ys, want=want["ys"], **case,
        )
        for nm in ("y", "ss", "mj", "end"):
            rep.check(
                zoo.tree_close(s[nm], want[nm], tol, tol),
                f"final {dict(y='value', ss='solver state', mj='jump flag', end='output at t1')[nm]}",
                got=s[nm], want=want[nm], **case,
            )
        ok = sgn * np.asarray(q) >= sgn * at
        pick = lambda tr: jax.tree_util.tree_map(lambda x: x[ok], tr)
        rep.check(
            zoo.tree_close(pick(s["dense"]), pick(want["dense"]), tol, tol),
            "dense output of the continued solve", **case,
        )
        rep.traces += 1

    for l in range(lanes.shape[0]):
        rep.transitions += int(full["m"][l])
        rep.outcome(common.RESULT_NAMES[int(full["res"][l])])
    for i, (l, k) in enumerate(pairs):
        f, s = zoo.tree_index(first, i), zoo.tree_index(second, i)
        case = dict(key=key, lane=np.asarray(lanes[l]), cut=cuts[i])
        rep.state(key, l, "event", k)
        rep.transitions += int(f["m"]) + int(s["m"])
        rep.check(abs(float(f["t"]) - cuts[i]) < 1e-9, "stopped elsewhere", got=f["t"], **case)
        compare(l, k, f, s, case, float(cuts[i]))
    # Interrupted by the budget, possibly right after a rejected step.
    for b in budgets:
        cut_short = eqx.filter_jit(jax.vmap(
            lambda lane: go(lane, t0, dt0, y0, far, None, None, None, b)
        ))
        ids = np.arange(size) % L
        first = cut_short(lanes[ids])
        second, at = jax.device_get(resume(lanes[ids], first, log[ids]))
        first = jax.device_get(first)
        for l in range(lanes.shape[0]):
            if int(full["m"][l]) <= b:
                continue
            f, s = zoo.tree_index(first, l), zoo.tree_index(second, l)
            case = dict(key=key, lane=np.asarray(lanes[l]), budget=b)
            rep.state(key, l, "budget", b)
            rep.transitions += int(f["m"]) + int(s["m"])
            compare(l, b, f, s, case, float(at[l]))
    rep.sample(dict(key=key, lanes=lanes.shape[0], cuts=len(pairs)))


def scripted(interval, depth, alphabet, budgets, adjoint=None):
    rep = common.Report()
    scripts = S.scripts(alphabet, depth)
    a, b, dt0 = interval
    explore(
        rep, dfx.ODETerm(lambda t, y, args: y), S.ScriptSolver(), zoo.ReplayController,
        S.encode(scripts), a, b, dt0, S.zero_y(), max_steps=24, key=("scripted", interval),
        budgets=budgets, adjoint=adjoint, ncuts=4,
    )
    return rep


def solver(name, depth, backwards):
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    terms, y0 = spec.problem()
    adjoint = None
    if spec.kind.startswith("sde"):
        terms = eqx.tree_at(lambda t: t.terms[1].control, terms, cheap_bm())
        adjoint = dfx.ForwardMode()
    scripts = S.scripts(("a1", "rh", "ah", "j1"), depth)
    iv = (1.25, 0.25, -0.25) if backwards else (0.25, 1.25, 0.25)
    explore(
        rep, terms, spec.make(), zoo.ReplayController, S.encode(scripts), *iv, y0,
        max_steps=12, key=(name, iv), budgets=(), ncuts=3, tol=1e-9, adjoint=adjoint,
    )
    return rep


def controllers(which, backwards, budgets):
    rep = common.Report()
    s = -1.0 if backwards else 1.0
    t0, t1 = s * 0.0, s * 2.0
    st = s * jnp.array([0.55, 1.1])
    ju = s * jnp.array([0.8, 1.5])

    def jumpy(t, y, args):
        out = zoo.f_tree(t, y, args)
        bump = jnp.where(s * t > 1.5, 8.0, jnp.where(s * t > 0.8, -5.0, 0.7))
        stiff = 4 * jnp.sin(9 * t)
        return {"a": out["a"] + bump + stiff, "b": out["b"]}

    _, y0 = zoo.ode_problem()
    pid = lambda tol, **kw: dfx.PIDController(rtol=tol, atol=tol, **kw)
    cfg = {
        "i": lambda tol: pid(tol),
        "pid": lambda tol: pid(tol, pcoeff=0.3, icoeff=0.3, dcoeff=0.1),
        "pi-dt": lambda tol: pid(tol, pcoeff=0.4, icoeff=0.3, dtmin=2.0**-5, dtmax=0.25),
        "clip": lambda tol: dfx.ClipStepSizeController(pid(tol, pcoeff=0.2, icoeff=0.4), step_ts=st, jump_ts=ju),
        "revisit": lambda tol: dfx.ClipStepSizeController(
            pid(tol, pcoeff=0.2, icoeff=0.4), step_ts=st, store_rejected_steps=20
        ),
        "constant": lambda tol: dfx.ConstantStepSize(),
        "stepto": lambda tol: dfx.StepTo(s * jnp.array([0.0, 0.2, 0.5, 1.25, 1.4, 2.0])),
    }[which]
    dt0 = None if which == "stepto" else s * 0.3
    explore(
        rep, dfx.ODETerm(jumpy), dfx.Bosh3(), cfg, jnp.array([1.0, 1e-1, 1e-2]), t0, t1,
        dt0, y0, max_steps=NL - 2, key=(which, backwards), tol=1e-9, budgets=budgets,
        ncuts=16,
    )
    return rep


# Quick: those with a memory, and one of each family.
QUICK = (
    "Tsit5", "Dopri8", "LeapfrogMidpoint", "ReversibleHeun", "ImplicitEuler", "Kvaerno3",
    "KenCarp3", "SemiImplicitEuler", "SPaRK", "ALIGN", "ReversibleHeun-sde", "Half-Heun",
)


def SCENARIOS(tier):
    th = tier == "thorough"
    out = []
    for w in ("i", "pid", "pi-dt", "clip", "revisit", "constant", "stepto") if th else ("pid", "pi-dt", "clip", "revisit", "constant", "stepto"):
        for back in (False, True) if th or w in ("clip",) else (False,):
            out.append((f"controller-{w}-{'back' if back else 'forw'}",
                        ft.partial(controllers, w, back, range(1, 13) if th else (2,))))
    full = ("a1", "rh", "ah", "a2", "j1")
    ivs = [(0.0, 1.0, 0.25), (1.0, -0.5, -0.5)]
    for i, iv in enumerate(ivs):
        out.append((f"scripted-{i}", ft.partial(scripted, iv, 5 if th else 4, full, (1, 2, 3, 4) if th else (1, 3))))
    out.append(("scripted-direct", ft.partial(scripted, ivs[0], 3, full, (2,), dfx.DirectAdjoint())))
    out.append(("scripted-forward", ft.partial(scripted, ivs[0], 3, full, (2,), dfx.ForwardMode())))
    for s in zoo.SPECS:
        if s.name not in QUICK and not th:
            continue
        for back in (False, True) if th else (False,):
            out.append((f"solver-{s.name}-{'back' if back else 'forw'}", ft.partial(solver, s.name, 3 if th else 2, back)))
    return out
