"""C24: work shared between steps never changes a step.

Slopes that are carried over from one step to the next (first same as last), states of
solvers, caches of coefficients and conditional evaluation exist to save work only.  Along
every short history of accepted and rejected steps and jumps of the vector field, every
step's value and error estimate have to be those of a fresh solver making just that step."""

import functools as ft

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

from . import common, scripted as S, zoo

BOUNDS = (
    "every one-step solver x all histories of depth 4 (thorough 5) over {accept, reject, grow, jump} "
    "x both directions x {checkpointed, forward mode, direct} x vector fields that jump "
    "where the controller says so x value, error estimate and dense output of every step; "
    "every way of executing the stages"
)
T0, T1, DT = 0.25, 1.75, 0.25
MULTI = ("LeapfrogMidpoint", "ReversibleHeun", "ReversibleHeun-sde")  # memory is part of the method


class Recorder(dfx.AbstractStepSizeController):
    """Follows a script; after a jump, the next step starts a little later. Records the steps."""

    script: jax.Array
    n: int = eqx.field(static=True)

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        err = jtu.tree_map(lambda x: jnp.zeros((self.n,) + x.shape, x.dtype), y0)
        return t0 + dt0, (jnp.array(0), jnp.zeros((self.n, 3)), err, err, err)

    def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
        i, ts, y0s, y1s, errs = controller_state
        k = self.script.shape[0]
        act = jnp.where(i < k, self.script[jnp.minimum(i, k - 1)], S.IDX["a1"])
        keep = jnp.asarray(S._KEEP)[act]
        jump = jnp.asarray(S._JUMP)[act]
        put = lambda a, v: jtu.tree_map(lambda x, z: x.at[i].set(z), a, v)
        ts = ts.at[i].set(jnp.stack([t0, t1, keep.astype(t0.dtype)]))
        y0s, y1s = put(y0s, y0), put(y1s, y1_candidate)
        if y_error is not None:
            errs = put(errs, y_error)
        # the vector field is different just after a jump
        next_t0 = jnp.where(keep, jnp.where(jump, t1 + 1e-7, t1), t0)
        next_t1 = next_t0 + jnp.asarray(S._FACTOR)[act] * (t1 - t0)
        return keep, next_t0, next_t1, jump, (i + 1, ts, y0s, y1s, errs), dfx.RESULTS.successful


def jumping(terms, grid):
    """The vector field changes right before and right after every time of the grid."""

    def amp(t):
        n = jnp.sum(t > grid + 5e-8) + jnp.sum(t > grid - 5e-8)
        return 1 + 0.3 * (n % 3)

    def wrap(tm):
        if isinstance(tm, dfx.MultiTerm):
            return dfx.MultiTerm(*map(wrap, tm.terms))
        if isinstance(tm, tuple):
            return tuple(map(wrap, tm))
        f = tm.vector_field
        g = lambda t, y, a: jtu.tree_map(lambda x: amp(t) * x, f(t, y, a))
        return dfx.ODETerm(g) if isinstance(tm, dfx.ODETerm) else dfx.ControlTerm(g, tm.control)

    return wrap(terms)


def fresh(terms, solver, struct):
    """One step of a fresh solver: value, error estimate, dense output at two points."""

    def one(t0, t1, y0):
        sol = dfx.diffeqsolve(
            terms, solver, t0, t1, t1 - t0, y0, args=jnp.array(0.1), max_steps=2, throw=False,
            stepsize_controller=Recorder(jnp.array([S.IDX["a1"]]), 2),
            saveat=dfx.SaveAt(t1=True, dense=True, controller_state=True),
        )
        _, _, _, y1s, errs = sol.controller_state
        first = lambda s: jtu.tree_map(lambda x: x[0], s)
        mid = jax.vmap(sol.evaluate)(t0 + (t1 - t0) * jnp.array([0.3, 0.8]))
        return first(y1s), first(errs), mid

    return one


def _grid():
    """Ends of all steps that any history can make, where jumps may happen."""
    return jnp.asarray(np.arange(-8, 40) * 0.0625)


def histories(name, depth, adjoint="checkpointed"):
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    solver = spec.make()
    terms, y0 = spec.problem()
    grid = _grid()
    jumps = spec.kind not in ("langevin", "sde-additive")
    # (jumps shift all later times by 1e-7: the grid is met up to a few of those)
    if jumps:
        terms = jumping(terms, grid)
    adj = {"checkpointed": dfx.RecursiveCheckpointAdjoint, "forward": dfx.ForwardMode, "direct": dfx.DirectAdjoint}[adjoint]()
    scripts = S.scripts(("a1", "rh", "a2", "j1"), depth)
    enc = jnp.asarray(S.encode(scripts))
    iv = jnp.array([[T0, T1, DT], [T1, T0, -DT]])
    n = 14

    def go(enc, iv):
        sol = dfx.diffeqsolve(
            terms, solver, iv[0], iv[1], iv[2], y0, args=jnp.array(0.1), max_steps=n, throw=False, adjoint=adj,
            stepsize_controller=Recorder(enc, n),
            saveat=dfx.SaveAt(steps=True, controller_state=True, dense=True),
        )
        i, ts, y0s, y1s, errs = sol.controller_state
        frac = jnp.array([0.3, 0.8])
        # (controllers see time in the direction of integration)
        ts = ts * jnp.array([jnp.sign(iv[2]), jnp.sign(iv[2]), 1.0])

        def mid(row):
            # (only the dense output of accepted steps is kept)
            t = row[0] + (row[1] - row[0]) * frac
            return jax.vmap(lambda t: sol.evaluate(t, left=True))(jnp.clip(t, jnp.minimum(iv[0], iv[1]), jnp.maximum(iv[0], iv[1])))

        return i, ts, y0s, y1s, errs, jax.vmap(mid)(ts)

    num, ts, y0s, y1s, errs, mids = jax.device_get(eqx.filter_jit(jax.vmap(jax.vmap(go, (0, None)), (None, 0)))(enc, iv))
    sel = np.arange(n)[None, None] < num[..., None]
    pick = lambda s: jtu.tree_map(lambda x: np.asarray(x)[sel], s)
    t_, a_, b_, e_, m_ = ts[sel], pick(y0s), pick(y1s), pick(errs), pick(mids)
    want = jax.device_get(eqx.filter_jit(jax.vmap(fresh(terms, solver, y0)))(t_[:, 0], t_[:, 1], a_))
    lane = np.argwhere(sel)
    for r in np.unique(np.round(t_[:, :2], 5), axis=0):
        rep.state(name, *r)
    rep.transitions += len(t_)
    rep.traces += 2 * len(scripts)
    implicit = getattr(solver, "root_finder", None) is not None
    tol = 1e-8 if implicit else 1e-12
    keep = t_[:, 2] > 0
    ends = zoo.leaves(want[0])
    if not rep.check(all(np.isfinite(x).all() for x in ends), "finite", solver=name):
        return rep
    for what, got, ref, rows in (("value", b_, want[0], None), ("error estimate", e_, want[1], None), ("dense output", m_, want[2], keep)):
        for g, w in zip(zoo.leaves(got), zoo.leaves(ref)):
            # (the gap after a jump belongs to the dense output of the step before it)
            tl = tol if rows is None else 1e-5
            bad = ~np.isclose(g, w, rtol=tl, atol=tl).reshape(len(g), -1).all(1)
            if rows is not None:
                bad &= rows
            for j in np.argwhere(bad)[:, 0][:3]:
                d, k, i = lane[j]
                rep.fail(what, solver=name, script=scripts[k], backwards=bool(d), attempt=i, step=t_[j], got=g[j], want=w[j], adjoint=adjoint)
    rep.sample(dict(solver=name, script=scripts[-1], steps=ts[0, -1][: num[0, -1]]))
    return rep


def execution(name):
    """Every way of executing the stages gives the same step."""
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    terms, y0 = spec.problem()
    base = spec.make()
    ref = None
    for kind in (None, "lax", "checkpointed", "bounded"):
        solver = eqx.tree_at(lambda s: s.scan_kind, base, kind, is_leaf=lambda x: x is None) if hasattr(base, "scan_kind") else base
        if hasattr(base, "scan_kind"):
            kw = dict(scan_kind=kind)
            if getattr(base, "root_finder", None) is not None:
                kw.update(root_finder=base.root_finder, root_find_max_steps=base.root_find_max_steps)
            solver = type(base)(**kw)
        for jit in (True, False):
            def one(y):
                sol = dfx.diffeqsolve(terms, solver, T0, T1, DT, y, args=jnp.array(0.1), saveat=dfx.SaveAt(steps=True), max_steps=8)
                return sol.ts, sol.ys

            got = jax.device_get((eqx.filter_jit(one) if jit else one)(y0))
            rep.state(name, kind, jit)
            rep.transitions += 6
            rep.traces += 1
            if ref is None:
                ref = got
            rep.check(zoo.tree_close(got, ref, 1e-8, 1e-8), "execution of the stages", solver=name, kind=kind, jit=jit)
    return rep


# Those with work to share, and one of each family.
QUICK = (
    "Euler", "Heun", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "ImplicitEuler", "Kvaerno3", "Kvaerno5", "KenCarp3", "Sil3",
    "SemiImplicitEuler", "ItoMilstein", "SPaRK", "SlowRK", "ShARK", "ALIGN", "Heun-sde", "Half-Heun",
)


def SCENARIOS(tier):
    th = tier == "thorough"
    out = []
    for s in zoo.SPECS:
        if s.name in MULTI or not (th or s.name in QUICK):
            continue
        out.append((f"history-{s.name}", ft.partial(histories, s.name, 5 if th else 4)))
        if th or s.name in ("Tsit5", "KenCarp3"):
            for a in ("forward", "direct"):
                out.append((f"history-{s.name}-{a}", ft.partial(histories, s.name, 4 if th else 3, a)))
    for n in ("Tsit5", "Dopri8", "Kvaerno3", "KenCarp3", "Sil3") if th else ("Dopri5", "KenCarp3"):
        out.append((f"execution-{n}", ft.partial(execution, n)))
    return out
