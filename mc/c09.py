"""C09: integrating backwards in time is the mirror image of integrating forwards.

Every solve over [a, b] with a > b is compared with the solve of the reflected equation
(z(s) = y(-s), with the reflected control) forwards over [-a, -b]: two different runs of
the real code that have to agree, for every history of steps and every kind of output."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx

from . import common, scripted as S, zoo

BOUNDS = (
    "every solver of the library except the Langevin family (C18) x all histories of depth "
    "2 (thorough 3) over {accept, reject, shrink, jump} x all of {t0, ts, steps, t1, dense} "
    "outputs; adaptive, clipped, prescribed and constant steps x 3 tolerances; events "
    "(boolean/real/located) x 8 thresholds; linear, cubic and Brownian controls"
)


class Reflected(dfx.AbstractPath):
    """s -> path(-s)."""

    path: dfx.AbstractPath

    @property
    def t0(self):
        return -self.path.t1

    @property
    def t1(self):
        return -self.path.t0

    def evaluate(self, t0, t1=None, left=True, **kw):
        if t1 is None:
            return self.path.evaluate(-t0, left=not left, **kw)
        x = self.path.evaluate(-t1, -t0, left=not left, **kw)
        return jax.tree_util.tree_map(lambda v: -v, x)

    def derivative(self, t, left=True):
        return jax.tree_util.tree_map(
            lambda v: -v, self.path.derivative(-t, left=not left)
        )


class ReflectedBM(dfx.AbstractBrownianPath):
    path: dfx.AbstractBrownianPath
    levy_area: type = eqx.field(static=True)

    def __init__(self, path):
        self.path = path
        self.levy_area = path.levy_area

    @property
    def t0(self):
        return -self.path.t1

    @property
    def t1(self):
        return -self.path.t0

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        neg = ft.partial(jax.tree_util.tree_map, lambda v: -v)
        if t1 is None:
            return self.path.evaluate(-t0, use_levy=use_levy)
        x = self.path.evaluate(-t1, -t0, use_levy=use_levy)
        if not use_levy:
            return neg(x)
        # The bridge is run through backwards: increments and K change sign, H does not.
        if isinstance(x, dfx.SpaceTimeTimeLevyArea):
            return dfx.SpaceTimeTimeLevyArea(dt=x.dt, W=neg(x.W), H=x.H, K=neg(x.K))
        if isinstance(x, dfx.SpaceTimeLevyArea):
            return dfx.SpaceTimeLevyArea(dt=x.dt, W=neg(x.W), H=x.H)
        return dfx.BrownianIncrement(dt=x.dt, W=neg(x.W))


def reflect(term):
    """The term of the reflected equation, written from the outside."""
    neg = lambda tree: jax.tree_util.tree_map(lambda v: -v, tree)
    if isinstance(term, dfx.MultiTerm):
        return dfx.MultiTerm(*(reflect(t) for t in term.terms))
    if isinstance(term, tuple):
        return tuple(reflect(t) for t in term)
    if isinstance(term, dfx.ODETerm):
        f = term.vector_field
        return dfx.ODETerm(lambda s, z, args: neg(f(-s, z, args)))
    if isinstance(term, dfx.ControlTerm):
        f = term.vector_field
        c = term.control
        R = ReflectedBM if isinstance(c, dfx.AbstractBrownianPath) else Reflected
        return dfx.ControlTerm(lambda s, z, args: f(-s, z, args), R(c))
    raise TypeError(type(term))


def ito_correction(terms):
    """The inverse of an Ito equation, run forwards and written as an Ito equation again,
    has the additional drift g g' (here: diagonal noise)."""
    f, g = terms.terms

    def drift(s, z, args):
        gd = lambda z: jnp.diagonal(g.vf(s, z, args))
        return f.vf(s, z, args) + gd(z) * jnp.diagonal(jax.jacfwd(gd)(z))

    return dfx.MultiTerm(dfx.ODETerm(drift), g)


def cheap_bm():
    return dfx.UnsafeBrownianPath(
        (2,), jax.random.PRNGKey(5), levy_area=dfx.SpaceTimeLevyArea
    )


def _outputs(sol, q, back):
    return dict(
        ts=sol.ts,
        ys=sol.ys,
        # the left of the mirror image is the right
        dense=jax.vmap(lambda t: sol.evaluate(t, left=back))(q),
        res=common.result_codes(sol.result),
        steps=jnp.stack(
            [sol.stats[k] for k in ("num_steps", "num_accepted_steps", "num_rejected_steps")]
        ),
    )


FR = np.array([0.0, 0.2, 0.25, 0.6, 1.0])


def _saveat(q):
    return dfx.SaveAt(
        dense=True,
        subs=[
            dfx.SubSaveAt(t0=True, steps=1),
            dfx.SubSaveAt(ts=q),
            dfx.SubSaveAt(t1=True, fn=lambda t, y, args: (jnp.abs(t), y)),
        ],
    )


def _compare(rep, back, forw, k, case, rtol=1e-9, atol=1e-10, times=True):
    b, f = zoo.tree_index(back, k), zoo.tree_index(forw, k)
    rep.check(b["res"] == f["res"], "result", got=b["res"], want=f["res"], **case)
    rep.check(
        np.array_equal(b["steps"], f["steps"]), "statistics", got=b["steps"], want=f["steps"], **case
    )
    neg = lambda x: np.where(np.isfinite(x), -x, x)
    rep.check(
        zoo.tree_close([neg(x) for x in b["ts"]], f["ts"], rtol, atol),
        "times", got=b["ts"], want=f["ts"], **case,
    )
    for nm in ("ys", "dense"):
        rep.check(
            zoo.tree_close(b[nm], f[nm], rtol, atol),
            f"{nm} is not the mirror image", got=b[nm], want=f[nm], **case,
        )
    rep.outcome(common.RESULT_NAMES[int(b["res"])])


def solver_histories(name, depth, interval=(1.25, 0.25, -0.25)):
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    solver = spec.make()
    terms, y0 = spec.problem()
    if spec.kind.startswith("sde"):
        # Steps only have to agree with themselves: a cheap source of increments will do.
        terms = eqx.tree_at(lambda t: t.terms[1].control, terms, cheap_bm())
    scripts = S.scripts(("a1", "rh", "ah", "j1"), depth)
    enc = jnp.asarray(S.encode(scripts))
    a, b, dt0 = interval

    def run(terms, t0, t1, dt0, script):
        q = t0 + FR * (t1 - t0)
        sol = dfx.diffeqsolve(
            terms, solver, t0, t1, dt0, y0,
            stepsize_controller=zoo.ReplayController(script),
            saveat=_saveat(q), max_steps=12, throw=False, adjoint=dfx.ForwardMode(),
        )
        return _outputs(sol, q, t0 > t1)

    go = lambda tm, *iv: jax.device_get(
        eqx.filter_jit(jax.vmap(ft.partial(run, tm, *iv)))(enc)
    )
    back = go(terms, a, b, dt0)
    mirror = reflect(terms)
    if name == "ItoMilstein":
        mirror = ito_correction(mirror)
    forw = go(mirror, -a, -b, -dt0)
    for k, script in enumerate(scripts):
        case = dict(solver=name, interval=interval, script=script)
        # (root finders stop at a tolerance of 1e-12)
        _compare(rep, back, forw, k, case, 1e-8, 1e-8)
        rep.state(name, script)
        rep.transitions += int(back["steps"][k][0])
        rep.traces += 1
    rep.sample(case)
    return rep


CONTROLLERS = ("pid", "pi-dt", "clip", "revisit", "stepto", "constant")


def controllers(which, dts):
    rep = common.Report()
    terms, y0 = zoo.ode_problem()
    a, b = 2.0, -0.5
    st = jnp.array([1.1, 0.3])
    ju = jnp.array([1.6, 0.0])

    def jumpy(t, y, args):
        out = zoo.f_tree(t, y, args)
        bump = jnp.where(t > 1.6, 1.0, jnp.where(t > 0.0, -0.5, 0.7))
        return {"a": out["a"] + bump, "b": out["b"]}

    pid = lambda tol, **kw: dfx.PIDController(rtol=tol, atol=tol, **kw)
    grid = jnp.array([2.0, 1.7, 1.1, 0.2, -0.5])
    cfgs = {
        "pid": (lambda tol: pid(tol), lambda tol: pid(tol), False),
        "pi-dt": (
            lambda tol: pid(tol, pcoeff=0.3, icoeff=0.4, dtmin=0.05, dtmax=0.4),
            lambda tol: pid(tol, pcoeff=0.3, icoeff=0.4, dtmin=0.05, dtmax=0.4),
            False,
        ),
        "clip": (
            lambda tol: dfx.ClipStepSizeController(pid(tol), step_ts=st, jump_ts=ju),
            lambda tol: dfx.ClipStepSizeController(pid(tol), step_ts=-st, jump_ts=-ju),
            True,
        ),
        "revisit": (
            lambda tol: dfx.ClipStepSizeController(pid(tol), store_rejected_steps=20),
            lambda tol: dfx.ClipStepSizeController(pid(tol), store_rejected_steps=20),
            True,
        ),
        "stepto": (lambda tol: dfx.StepTo(grid), lambda tol: dfx.StepTo(-grid), False),
        "constant": (lambda tol: dfx.ConstantStepSize(), lambda tol: dfx.ConstantStepSize(), False),
    }
    tols = np.array([1e-2, 1e-4, 1e-6])
    for nm, (cb, cf, jump) in [(which, cfgs[which])]:
        tm = dfx.ODETerm(jumpy) if jump else terms
        for dt0 in dts:
            d = None if nm == "stepto" else dt0

            def run(tm, make, t0, t1, dt0, tol):
                q = t0 + FR * (t1 - t0)
                sol = dfx.diffeqsolve(
                    tm, dfx.Tsit5(), t0, t1, dt0, y0, stepsize_controller=make(tol),
                    saveat=_saveat(q), max_steps=200, throw=False,
                )
                return _outputs(sol, q, t0 > t1)

            go = lambda *x: jax.device_get(
                eqx.filter_jit(jax.vmap(ft.partial(run, *x)))(jnp.asarray(tols))
            )
            back = go(tm, cb, a, b, None if d is None else -d)
            forw = go(reflect(tm), cf, -a, -b, d)
            for k, tol in enumerate(tols):
                _compare(
                    rep, back, forw, k, dict(controller=nm, tol=tol, dt0=dt0), 1e-7, 1e-8
                )
                rep.state(nm, dt0, k)
                rep.transitions += int(back["steps"][k][0])
                rep.traces += 1
    rep.sample(dict(controller=nm, tol=tol))
    return rep


def events(kind):
    """Condition functions and save functions see the real time in both directions."""
    rep = common.Report()
    terms, y0 = zoo.ode_problem()
    a, b, dt0 = 2.0, -0.5, -0.3
    thr = np.array([2.5, 1.9, 1.4, 1.1, 0.5, 0.0, -0.3, -1.0])

    def cond(flip):
        def f(t, y, args, **kw):
            t = -t if flip else t
            c = t + 0.1 * y["b"] - args[1]
            return c < 0 if kind == "bool" else c

        return f

    finder = optx.Newton(1e-12, 1e-12) if kind == "root" else None
    direction = False if kind == "down" else None

    def run(flip, t0, t1, dt0, thr):
        tm = reflect(terms) if flip else terms
        tm = terms if not flip else tm
        q = t0 + FR * (t1 - t0)
        wrapped = lambda f: (lambda t, y, args: f(t, y, args[0]))
        tm = dfx.ODETerm(wrapped(tm.vector_field))
        sol = dfx.diffeqsolve(
            tm, dfx.Tsit5(), t0, t1, dt0, y0, args=(jnp.array(0.1), thr),
            event=dfx.Event(cond(flip), finder, direction=direction),
            saveat=_saveat(q), max_steps=30, throw=False,
        )
        out = _outputs(sol, q, t0 > t1)
        out["mask"] = sol.event_mask
        return out

    go = lambda *x: jax.device_get(
        eqx.filter_jit(jax.vmap(ft.partial(run, *x)))(jnp.asarray(thr))
    )
    back, forw = go(False, a, b, dt0), go(True, -a, -b, -dt0)
    for k in range(len(thr)):
        case = dict(kind=kind, threshold=thr[k])
        _compare(rep, back, forw, k, case, 1e-8, 1e-8)
        rep.check(back["mask"][k] == forw["mask"][k], "event_mask", **case)
        rep.state(kind, k)
        rep.transitions += int(back["steps"][k][0])
        rep.traces += 1
    rep.sample(case)
    return rep


def controls(name, solvers):
    """Controlled equations: linear, cubic and Brownian controls, as control terms and
    converted to ordinary ones."""
    rep = common.Report()
    knots = jnp.array([-1.0, -0.4, 0.1, 0.5, 1.2, 2.0])
    xs = jnp.stack([jnp.sin(3 * knots), knots**2 - knots], axis=-1)
    if name == "linear":
        path = dfx.LinearInterpolation(knots, xs)
    elif name == "cubic":
        path = dfx.CubicInterpolation(knots, dfx.backward_hermite_coefficients(knots, xs))
    else:
        path = zoo.bm(levy=dfx.BrownianIncrement)
    vf = lambda t, y, args: jnp.stack([jnp.stack([jnp.cos(y[0]), t]), jnp.stack([y[1], 0.3 * y[0]])])
    term = dfx.ControlTerm(vf, path)
    terms = {"contr": term}
    if name != "bm":
        terms["to_ode"] = term.to_ode()
    y0 = jnp.array([0.3, -0.5])
    for nm, tm in terms.items():
        rt = reflect(tm) if nm == "contr" else dfx.ControlTerm(
            lambda s, z, args: vf(-s, z, args), Reflected(path)
        ).to_ode()
        for solver in [zoo.BY_NAME[n].make() for n in solvers]:
            scripts = S.scripts(("a1", "rh", "ah"), 2)
            enc = jnp.asarray(S.encode(scripts))

            def run(tm, t0, t1, dt0, script):
                q = t0 + FR * (t1 - t0)
                sol = dfx.diffeqsolve(
                    tm, solver, t0, t1, dt0, y0, saveat=_saveat(q), max_steps=16,
                    stepsize_controller=zoo.ReplayController(script), throw=False,
                )
                return _outputs(sol, q, t0 > t1)

            go = lambda *x: jax.device_get(eqx.filter_jit(jax.vmap(ft.partial(run, *x)))(enc))
            # no step meets a knot, where the derivative is one-sided
            back, forw = go(tm, 1.93, -0.87, -0.7), go(rt, -1.93, 0.87, 0.7)
            for k, script in enumerate(scripts):
                case = dict(control=name, term=nm, solver=type(solver).__name__, script=script)
                _compare(rep, back, forw, k, case, 1e-8, 1e-8)
                rep.state(name, nm, type(solver).__name__, script)
                rep.transitions += int(back["steps"][k][0])
                rep.traces += 1
    rep.sample(case)
    return rep


LATER = ("Kvaerno4", "Kvaerno5", "KenCarp4", "KenCarp5", "Ralston")  # as their siblings


def SCENARIOS(tier):
    thorough = tier == "thorough"
    out = []
    for s in zoo.SPECS:
        if s.kind == "langevin" or (s.name in LATER and not thorough):
            continue
        out.append((f"solver-{s.name}", ft.partial(solver_histories, s.name, 3 if thorough else 2)))
        if thorough:
            out.append(
                (
                    f"solver-zero-{s.name}",
                    ft.partial(solver_histories, s.name, 2, (0.5, -0.75, -0.3)),
                )
            )
    for c in CONTROLLERS:
        out.append(
            (f"controllers-{c}", ft.partial(controllers, c, (0.3, 0.07) if thorough else (0.3,)))
        )
    for k in ("bool", "float", "down", "root"):
        out.append((f"event-{k}", ft.partial(events, k)))
    for c in ("linear", "cubic", "bm"):
        sv = ("Heun", "ReversibleHeun", "Tsit5") if thorough else ("Heun",)
        out.append((f"control-{c}", ft.partial(controls, c, sv)))
    # The slowest to compile first.
    slow = ("controllers", "control", "solver-K", "solver-Sil", "event", "solver-Dopri8")
    out.sort(key=lambda x: not x[0].startswith(slow))
    return out
