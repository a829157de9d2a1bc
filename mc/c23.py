"""C23: what would give a wrong answer is refused, and nothing else is.

A reference predicate says which combinations of solver, equation, noise, step size
controller, adjoint, outputs and times are meaningful.  Every combination of the tables is
tried on the real code (traced, or run where the refusal depends on values), and has to be
refused exactly when the predicate says so."""

import functools as ft
import itertools
import warnings

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from . import common, scripted as S, zoo

BOUNDS = (
    "every solver x 16 forms of equation x {fixed, adaptive} x every adjoint; every adjoint x every choice of outputs; "
    "all sequences of up to 3 (thorough 4) output times, step times and query times of a grid, both directions; "
    "all signs of (t0, t1, dt0); all shapes and types of events, derivatives and friction; all outcomes x throw"
)


def refuses(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            out = fn()
            jax.block_until_ready([x for x in jax.tree_util.tree_leaves(out) if hasattr(x, "block_until_ready")])
            jax.effects_barrier()
            return None
        except Exception as e:
            return f"{type(e).__name__}: {str(e).strip()[:120]}"


def compare(rep, fn, want, what, **case):
    got = refuses(fn)
    rep.traces += 1
    rep.transitions += 1
    rep.outcome("refused" if got else "accepted")
    if want == "refuse":
        rep.check(got is not None, what + ": not refused", **case)
    else:
        rep.check(got is None, what + ": refused", **case, error=got)


def shape(fn):
    return lambda: eqx.filter_eval_shape(fn)


# ---------------------------------------------------------------- solvers and equations
LEVELS = {"bm": 0, "st": 1, "stt": 2}
AREAS = {"bm": dfx.BrownianIncrement, "st": dfx.SpaceTimeLevyArea, "stt": dfx.SpaceTimeTimeLevyArea}
NEEDS = {
    "GeneralShARK": 1, "ShARK": 1, "SlowRK": 1, "SPaRK": 1, "SRA1": 1, "SEA": 1,
    "ALIGN": 1, "ShOULD": 2, "QUICSORT": 2,
}  # fmt: skip
ADDITIVE = ("ShARK", "SRA1", "SEA")
LANGEVIN = ("ALIGN", "ShOULD", "QUICSORT")
ONE = (
    "Euler", "Heun", "Midpoint", "Ralston", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "LeapfrogMidpoint",
    "ReversibleHeun", "ImplicitEuler", "Kvaerno3", "Kvaerno4", "Kvaerno5",
)  # fmt: skip
IMEX = ("KenCarp3", "KenCarp4", "KenCarp5", "Sil3")
DRIFTDIFF = ("EulerHeun", "ItoMilstein", "StratonovichMilstein")
IMPLICIT = ("ImplicitEuler", "Kvaerno3", "Kvaerno4", "Kvaerno5") + IMEX
ITO = ("Euler", "ItoMilstein")
NO_ERROR = ("Euler", "LeapfrogMidpoint", "SemiImplicitEuler", "EulerHeun", "ItoMilstein", "StratonovichMilstein", "GeneralShARK", "SlowRK", "SEA", "ShOULD", "QUICSORT")
ALL = ONE + IMEX + DRIFTDIFF + ("SemiImplicitEuler",) + tuple(NEEDS)

_drift = dfx.ODETerm(lambda t, y, a: -y)


def _noise(kind, unsafe, additive=False):
    if unsafe:
        path = dfx.UnsafeBrownianPath((2,), jax.random.PRNGKey(0), AREAS[kind])
    else:
        path = dfx.VirtualBrownianTree(0.0, 1.0, 0.125, (2,), jax.random.PRNGKey(0), AREAS[kind])
    vf = (lambda t, y, a: jnp.eye(2) * 0.3) if additive else (lambda t, y, a: jnp.diag(0.1 * y))
    return dfx.ControlTerm(vf, path)


def _langevin(kind, unsafe=False):
    path = _noise(kind, unsafe).control
    g, u = jnp.array([1.0, 2.0]), jnp.array([0.5, 0.7])
    return dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(g, u, lambda x, *a: x), dfx.UnderdampedLangevinDiffusionTerm(g, u, path))


Y = lambda: jnp.array([0.5, 1.0])
EQUATIONS = {
    "ode": lambda: (_drift, Y()),
    "cde": lambda: (dfx.ControlTerm(lambda t, y, a: jnp.outer(y, jnp.ones(1)), dfx.LinearInterpolation(jnp.array([0.0, 1.0]), jnp.array([[0.0], [1.0]]))), Y()),
    "two": lambda: (dfx.MultiTerm(_drift, _drift), Y()),
    "three": lambda: (dfx.MultiTerm(_drift, _drift, _drift), Y()),
    "pair": lambda: ((_drift, _drift), (Y(), Y())),
    "noise": lambda: (_noise("stt", False), Y()),
}
for _k in AREAS:
    EQUATIONS[f"sde-{_k}"] = lambda k=_k: (dfx.MultiTerm(_drift, _noise(k, False)), Y())
    EQUATIONS[f"additive-{_k}"] = lambda k=_k: (dfx.MultiTerm(_drift, _noise(k, False, True)), Y())
    EQUATIONS[f"unsafe-{_k}"] = lambda k=_k: (dfx.MultiTerm(_drift, _noise(k, True)), Y())
    EQUATIONS[f"langevin-{_k}"] = lambda k=_k: (_langevin(k), (Y(), Y()))
EQUATIONS["swapped"] = lambda: (dfx.MultiTerm(_noise("stt", False), _drift), Y())


def make(name, tol):
    cls = getattr(dfx, name)
    return cls(root_finder=zoo.chord(1e-3)) if name in IMPLICIT and tol else cls()


def meaningful(name, eq, adaptive, adjoint, tol):
    """None if meaningful, otherwise why not."""
    kind, _, area = eq.partition("-")
    noisy = kind in ("sde", "additive", "unsafe", "langevin", "noise", "swapped")
    # does the equation have the form that the solver is for?
    if name in ONE:
        if kind == "pair":
            return "form"
    elif name in IMEX:
        if kind not in ("two", "sde", "additive", "unsafe", "swapped", "langevin"):
            return "form"
    elif name in DRIFTDIFF:
        if kind not in ("two", "sde", "additive", "unsafe", "langevin"):
            return "form"
        if kind == "two" and name != "EulerHeun":
            return "not an SDE"
    elif name == "SemiImplicitEuler":
        if kind != "pair":
            return "form"
    elif name in LANGEVIN:
        if kind != "langevin" or LEVELS[area] < NEEDS[name]:
            return "form"
    else:
        if kind not in ("sde", "additive", "unsafe"):
            return "form"
        if LEVELS[area] < NEEDS[name]:
            return "area"
        if name in ADDITIVE and kind != "additive":
            return "noise depends on the state"
    if adaptive:
        if name in NO_ERROR:
            return "no error estimate"
        if kind == "unsafe":
            return "not a fixed path"
    elif name in IMPLICIT and not tol:
        return "no tolerances"
    if kind == "unsafe" and adjoint in ("checkpointed", "backsolve"):
        return "not a fixed path"
    if adjoint == "backsolve":
        if name == "SemiImplicitEuler":
            return "form"
        if noisy and name in ITO:
            return "Ito"
    return None


ADJOINTS = {
    "checkpointed": dfx.RecursiveCheckpointAdjoint,
    "direct": dfx.DirectAdjoint,
    "forward": dfx.ForwardMode,
    "backsolve": dfx.BacksolveAdjoint,
    "implicit": dfx.ImplicitAdjoint,
}
SKIP = {
    # not claimed either way
    ("langevin", "one"),
}


QUICK = ("ode", "two", "pair", "noise", "sde-bm", "unsafe-stt", "swapped")


def table(names, adjoints, equations=tuple(EQUATIONS)):
    rep = common.Report()
    for name in names:
        for eq in equations:
            terms, y0 = EQUATIONS[eq]()
            if eq.startswith("langevin") and name not in LANGEVIN:
                # (Langevin terms also are ordinary ones; whether they can be used as such is not claimed)
                continue
            for adaptive in (False, True):
                for adj in adjoints:
                    for tol in (True, False) if name in IMPLICIT else (True,):
                        if adj != adjoints[0] and not tol:
                            continue
                        why = meaningful(name, eq, adaptive, adj, tol)
                        if eq == "noise" and why is None and adaptive:
                            continue
                        ctl = dfx.PIDController(rtol=1e-3, atol=1e-3, error_order=1.5) if adaptive else dfx.ConstantStepSize()

                        def go():
                            return dfx.diffeqsolve(terms, make(name, tol), 0.0, 1.0, 0.25, y0, stepsize_controller=ctl, adjoint=ADJOINTS[adj](), max_steps=16).ys

                        rep.state(name, eq, adaptive, adj, tol)
                        compare(rep, shape(go), "refuse" if why else "accept", "combination", solver=name, equation=eq, adaptive=adaptive, adjoint=adj, tolerances=tol, why=why)
    rep.sample(dict(solver=name))
    return rep


# ------------------------------------------------------------- adjoints and outputs
def outputs(fine):
    rep = common.Report()
    fn = lambda t, y, a: y[0]
    subs = {
        "t1": dict(t1=True), "t0": dict(t0=True), "t0t1": dict(t0=True, t1=True), "ts": dict(ts=jnp.array([0.5])),
        "steps": dict(steps=True), "steps2": dict(steps=2), "fn": dict(t1=True, fn=fn), "all": dict(t0=True, t1=True, ts=jnp.array([0.5]), steps=True),
    }  # fmt: skip
    for name, kw in subs.items():
        for nested in (False, True):
            for dense in (False, True):
                for adj in ADJOINTS:
                    for max_steps in (16, None):
                        for ev in (False, True):
                            ref = max_steps is None and (dense or "steps" in kw)
                            if adj == "direct" and max_steps is None:
                                continue  # (with differentiation only)
                            if not fine and (ev and dense or adj in ("direct", "forward") and (ev or nested)):
                                continue
                            if adj == "backsolve":
                                ref |= nested or dense or "steps" in kw or "fn" in kw or ev
                            if adj == "implicit":
                                ref |= nested or dense or name != "t1"

                            def go():
                                sv = dfx.SaveAt(subs=[dfx.SubSaveAt(**kw)], dense=dense) if nested else dfx.SaveAt(**kw, dense=dense)
                                return dfx.diffeqsolve(
                                    _drift, dfx.Heun(), 0.0, 1.0, 0.25, Y(), saveat=sv, adjoint=ADJOINTS[adj](), max_steps=max_steps,
                                    event=dfx.Event(lambda t, y, a, **k: y[0] < 0) if ev else None,
                                ).ys

                            rep.state(name, nested, dense, adj, max_steps, ev)
                            compare(rep, shape(go), "refuse" if ref else "accept", "outputs", saveat=name, subs=nested, dense=dense, adjoint=adj, max_steps=max_steps, event=ev)
    # an empty request
    for t0, t1, ts, steps, dense in itertools.product((0, 1), (0, 1), (None, [0.5], []), (False, True, 0, 3), (False, True)):
        compare(rep, lambda: dfx.SubSaveAt(t0=bool(t0), t1=bool(t1), ts=ts, steps=steps), "accept" if (t0 or t1 or ts or steps) else "refuse", "empty request", t0=t0, t1=t1, ts=ts, steps=steps)
        both = t0 or t1 or (ts is not None) or steps
        compare(rep, lambda: dfx.SaveAt(t0=bool(t0), t1=bool(t1), ts=ts, steps=steps, subs=dfx.SubSaveAt(t1=True), dense=dense), "refuse" if both else "accept", "request given twice", t0=t0, t1=t1, ts=ts, steps=steps)
    # arguments of the continuous adjoint
    for kw, ok in ((dict(), 1), (dict(solver=dfx.Tsit5()), 1), (dict(dt0=0.1), 1), (dict(y0=1.0), 0), (dict(saveat=None), 0), (dict(max_steps=5), 1), (dict(t0=0.0), 0), (dict(args=None), 0), (dict(throw=False), 1), (dict(adjoint=None), 1), (dict(terms=None), 0), (dict(event=None), 0)):
        compare(rep, lambda: dfx.BacksolveAdjoint(**kw), "accept" if ok else "refuse", "arguments of the continuous adjoint", kw=list(kw))
    rep.sample(dict(saveat=name))
    return rep


# ------------------------------------------------------------------------ values: times
def times(n, fine):
    """All sequences of output times."""
    rep = common.Report()
    grid = (-0.5, 0.0, 0.25, 1.0, 1.5) if not fine else (-0.5, 0.0, 0.25, 0.25 + 1e-6, 1.0, 1.5)

    for k in range(1, n + 1):
        def go(ts, t0, t1, dt):
            return dfx.diffeqsolve(_drift, dfx.Euler(), t0, t1, dt, Y(), saveat=dfx.SaveAt(ts=ts), max_steps=8).ys

        run = eqx.filter_jit(go)
        for ts in itertools.product(grid, repeat=k):
            for t0, t1, dt in ((0.0, 1.0, 0.5), (1.0, 0.0, -0.5)):
                s = 1 if t1 > t0 else -1
                ok = all(s * b >= s * a for a, b in zip(ts, ts[1:])) and all(min(t0, t1) <= x <= max(t0, t1) for x in ts)
                rep.state(ts, t0)
                compare(rep, lambda: run(jnp.array(ts), jnp.array(t0), jnp.array(t1), jnp.array(dt)), "accept" if ok else "refuse", "output times", ts=ts, t0=t0, t1=t1)
    rep.sample(dict(ts=ts))
    return rep


def steps_to(n, fine):
    rep = common.Report()
    grid = (0.0, 0.25, 0.5, 1.0) if not fine else (-0.5, 0.0, 0.25, 0.5, 1.0, 1.5)
    for k in range(2, n + 1):
        run = eqx.filter_jit(lambda ts, t0, t1: dfx.diffeqsolve(_drift, dfx.Euler(), t0, t1, None, Y(), stepsize_controller=dfx.StepTo(ts), max_steps=8).ys)
        for ts in itertools.product(grid, repeat=k):
            for t0, t1 in ((0.0, 1.0), (1.0, 0.0)):
                s = 1 if t1 > t0 else -1
                ok = all(s * b > s * a for a, b in zip(ts, ts[1:])) and ts[0] == t0 and ts[-1] == t1
                rep.state(ts, t0)
                compare(rep, lambda: run(jnp.array(ts), jnp.array(t0), jnp.array(t1)), "accept" if ok else "refuse", "times of steps", ts=ts, t0=t0, t1=t1)
    for ts in (jnp.zeros(()), jnp.zeros((1,)), jnp.zeros((2, 2))):
        compare(rep, lambda: dfx.StepTo(ts), "refuse", "times of steps", shape=ts.shape)
    compare(rep, shape(lambda: dfx.diffeqsolve(_drift, dfx.Euler(), 0.0, 1.0, 0.1, Y(), stepsize_controller=dfx.StepTo(jnp.array([0.0, 1.0]))).ys), "refuse", "times of steps and dt0")
    compare(rep, shape(lambda: dfx.diffeqsolve(_drift, dfx.Euler(), 0.0, 1.0, None, Y()).ys), "refuse", "fixed steps of no size")
    rep.sample(dict(ts=ts))
    return rep


def signs():
    rep = common.Report()
    run = eqx.filter_jit(lambda t0, t1, dt: dfx.diffeqsolve(_drift, dfx.Heun(), t0, t1, dt, Y(), max_steps=1024, stepsize_controller=dfx.PIDController(rtol=1e-3, atol=1e-3)).ys)
    run2 = eqx.filter_jit(lambda t0, t1, dt: dfx.diffeqsolve(_drift, dfx.Heun(), t0, t1, dt, Y(), max_steps=64).ys)
    vals = (-1.0, 0.0, 0.5, 2.0)
    for t0, t1 in itertools.product(vals, vals):
        for dt in (0.3, -0.3, 1e-1, -5.0, 5.0):
            for r in (run, run2):
                ok = (t1 - t0) * dt >= 0
                rep.state(t0, t1, dt)
                compare(rep, lambda: r(jnp.array(t0), jnp.array(t1), jnp.array(dt)), "accept" if ok else "refuse", "sign of dt0", t0=t0, t1=t1, dt0=dt, adaptive=r is run)
    # batches: one bad element is enough
    bat = eqx.filter_jit(jax.vmap(lambda t1, dt: dfx.diffeqsolve(_drift, dfx.Heun(), 0.0, t1, dt, Y(), max_steps=64).ys))
    for t1s in itertools.product((-1.0, 1.0), repeat=2):
        for dts in itertools.product((-0.5, 0.5), repeat=2):
            ok = all(a * b >= 0 for a, b in zip(t1s, dts))
            rep.state(t1s, dts)
            compare(rep, lambda: bat(jnp.array(t1s), jnp.array(dts)), "accept" if ok else "refuse", "sign of dt0 in a batch", t1=t1s, dt0=dts)
    rep.sample(dict(t0=t0, t1=t1))
    return rep


def queries(fine):
    """Paths are asked inside their interval, and only there; observation times increase."""
    rep = common.Report()
    grid = (-0.25, 0.0, 0.3, 1.0, 1.25) + ((1.0 + 1e-6, -1e-6) if fine else ())
    for area in AREAS.values():
        bm = dfx.VirtualBrownianTree(0.0, 1.0, 0.125, (2,), jax.random.PRNGKey(0), area)
        run = eqx.filter_jit(lambda a, b: bm.evaluate(a, b, use_levy=True))
        one = eqx.filter_jit(lambda a: bm.evaluate(a))
        for a in grid:
            compare(rep, lambda: one(jnp.array(a)), "accept" if 0 <= a <= 1 else "refuse", "query", t0=a)
            for b in grid:
                rep.state(a, b)
                ok = all(0 <= x <= 1 for x in (a, b))
                if a > b and ok:
                    continue  # (not claimed)
                compare(rep, lambda: run(jnp.array(a), jnp.array(b)), "accept" if ok else "refuse", "query", t0=a, t1=b, area=area.__name__)
    for a, b in itertools.product((-1.0, 0.0, 1.0), repeat=2):
        mk = lambda: dfx.VirtualBrownianTree(a, b, 0.1, (), jax.random.PRNGKey(0))
        compare(rep, mk, "accept" if a < b else "refuse", "interval of a path", t0=a, t1=b)
    # interpolations of observations
    for k in (1, 2, 3):
        for ts in itertools.product((0.0, 0.5, 1.0), repeat=k):
            inc = all(b > a for a, b in zip(ts, ts[1:])) and k >= 2
            nd = all(b >= a for a, b in zip(ts, ts[1:])) and k >= 2
            ys = jnp.arange(float(k))[:, None]
            rep.state(ts)
            if k >= 2 and nd and not inc:
                continue  # (repeated times: not claimed)
            compare(rep, lambda: dfx.backward_hermite_coefficients(jnp.array(ts), ys), "accept" if inc else "refuse", "observation times", ts=ts)
            compare(rep, lambda: dfx.linear_interpolation(jnp.array(ts), ys), "accept" if inc else "refuse", "observation times", ts=ts)
            compare(rep, lambda: dfx.rectilinear_interpolation(jnp.array(ts), ys), "accept" if inc else "refuse", "observation times", ts=ts)
    for n, m in itertools.product((2, 3, 4), repeat=2):
        compare(rep, lambda: dfx.LinearInterpolation(jnp.arange(float(n)), jnp.zeros((m, 1))), "accept" if n == m else "refuse", "numbers of observations", times=n, values=m)
        compare(rep, lambda: dfx.CubicInterpolation(jnp.arange(float(n)), tuple(jnp.zeros((m - 1, 1)) for _ in range(4))), "accept" if n == m else "refuse", "numbers of coefficients", times=n, values=m)
    # dense output that was not asked for
    sol = dfx.diffeqsolve(_drift, dfx.Euler(), 0.0, 1.0, 0.5, Y())
    compare(rep, lambda: sol.evaluate(0.5), "refuse", "dense output that was not saved")
    compare(rep, lambda: sol.derivative(0.5), "refuse", "dense output that was not saved")
    rep.sample(dict(grid=grid))
    return rep


# ---------------------------------------------------------------------- values: shapes
def forms(fine):
    rep = common.Report()
    # what events may return
    kinds = {
        "float": (lambda y: y[0], 1), "bool": (lambda y: y[0] < 0, 1), "int": (lambda y: jnp.array(1), 0),
        "complex": (lambda y: y[0] + 1j, 0), "vector": (lambda y: y, 0), "bools": (lambda y: y < 0, 0),
        "tuple": (lambda y: (y[0],), 0), "empty": (lambda y: None, 0), "float32": (lambda y: y[0].astype(jnp.float32), 1),
        "python bool": (lambda y: False, 1), "python int": (lambda y: 3, 0), "python float": (lambda y: 0.5, 1),
    }  # fmt: skip
    for (a, (fa, oa)), (b, (fb, ob)) in itertools.product(kinds.items(), kinds.items()):
        for form in ("one", "list") if a == b else ("list",):
            def go():
                ca, cb = (lambda t, y, args, **k: fa(y)), (lambda t, y, args, **k: fb(y))
                ev = dfx.Event(ca if form == "one" else [ca, cb])
                return dfx.diffeqsolve(_drift, dfx.Heun(), 0.0, 1.0, 0.25, Y(), event=ev).ys

            rep.state(a, b, form)
            compare(rep, shape(go), "accept" if oa and ob else "refuse", "value of an event", first=a, second=b, form=form)
    c = lambda t, y, a, **k: y[0]
    trees = {"one": (c, None), "list": ([c, c], [None, None]), "dict": ({"a": c}, {"a": None})}
    dirs = {"none": None, "up": True, "list": [True, None], "list3": [True, None, False], "dict": {"a": False}, "int": [2, 2], "wrong": {"b": True}}
    for tn, (tree, _) in trees.items():
        for dn, d in dirs.items():
            ok = dn in ("none", "up") or (tn, dn) in (("list", "list"), ("dict", "dict"))
            rep.state(tn, dn)
            compare(rep, lambda: dfx.Event(tree, direction=d), "accept" if ok else "refuse", "direction of events", events=tn, direction=dn)
    # derivatives that do not fit the state
    states = {"vector": Y(), "dict": {"a": Y(), "b": jnp.array(1.0)}, "tuple": (Y(),), "scalar": jnp.array(1.0), "matrix": jnp.ones((2, 2))}
    solvers = (dfx.Euler(), dfx.Tsit5(), dfx.Kvaerno3(root_finder=zoo.chord()), dfx.ReversibleHeun(), dfx.LeapfrogMidpoint())
    for (a, y), (b, v) in itertools.product(states.items(), states.items()):
        for solver in solvers if fine else solvers[:3]:
            ok = jax.tree_util.tree_structure(y) == jax.tree_util.tree_structure(v) and all(
                np.broadcast_shapes(np.shape(p), np.shape(q)) == np.shape(p) for p, q in zip(jax.tree_util.tree_leaves(y), jax.tree_util.tree_leaves(v))
            )  # (derivatives are broadcast against the state)
            rep.state(a, b, type(solver).__name__)
            compare(
                rep, shape(lambda: dfx.diffeqsolve(dfx.ODETerm(lambda t, y, args: v), solver, 0.0, 1.0, 0.25, y).ys),
                "accept" if ok else "refuse", "derivative that does not fit the state", state=a, derivative=b, solver=type(solver).__name__,
            )
    # friction of the two Langevin terms
    path = dfx.VirtualBrownianTree(0.0, 1.0, 0.125, (2,), jax.random.PRNGKey(0), dfx.SpaceTimeTimeLevyArea)

    def lang(solver, g1, g2, u1, u2):
        t = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(g1, u1, lambda x, *a: x), dfx.UnderdampedLangevinDiffusionTerm(g2, u2, path))
        return dfx.diffeqsolve(t, solver, 0.0, 1.0, 0.5, (Y(), Y())).ys

    fr = (jnp.array([1.0, 2.0]), jnp.array([1.0, 2.5]), jnp.array([1.5, 1.5]))
    for solver in (dfx.ALIGN(), dfx.ShOULD(), dfx.QUICSORT()):
        run = eqx.filter_jit(ft.partial(lang, solver))
        for i, j in itertools.product(range(3), repeat=2):
            rep.state("friction", i, j)
            compare(rep, lambda: run(fr[i], fr[j], fr[0], fr[0]), "accept" if i == j else "refuse", "friction", drift=fr[i], diffusion=fr[j], solver=type(solver).__name__)
            compare(rep, lambda: run(fr[0], fr[0], fr[i], fr[j]), "accept" if i == j else "refuse", "damping", drift=fr[i], diffusion=fr[j], solver=type(solver).__name__)
        for g in (jnp.ones(3), jnp.ones((2, 2))):
            compare(rep, shape(lambda: lang(solver, g, g, fr[0], fr[0])), "refuse", "shape of friction", shape=g.shape)
    # controllers
    pid = dfx.PIDController(rtol=1e-3, atol=1e-3)
    for n in (-1, 0, 1, 5, None):
        compare(rep, lambda: dfx.ClipStepSizeController(pid, store_rejected_steps=n), "refuse" if n is not None and n <= 0 else "accept", "capacity", capacity=n)
    compare(rep, lambda: dfx.ClipStepSizeController(dfx.ConstantStepSize(), step_ts=[0.5]), "refuse", "clipping fixed steps")
    compare(rep, lambda: dfx.ClipStepSizeController(pid, jump_ts=[1, 2]), "refuse", "jump times that are not floating point")
    # complex times
    for k in range(3):
        ts = [0.0, 1.0, 0.25]
        ts[k] = ts[k] + 0j
        compare(rep, shape(lambda: dfx.diffeqsolve(_drift, dfx.Euler(), *ts, Y()).ys), "refuse", "complex time", which=k)
    # both kinds of events
    rep.sample(dict(forms=list(kinds)))
    return rep


def capacity(n):
    """Rejections beyond the capacity of the memory for them are refused at run time."""
    rep = common.Report()

    class Rejects(dfx.AbstractAdaptiveStepSizeController):
        k: jax.Array
        rtol: float = 1e-3
        atol: float = 1e-3
        norm: object = None
        error_order: object = None

        def wrap(self, direction):
            return self

        def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
            return t0 + dt0, jnp.array(0)

        def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
            i = controller_state
            keep = i >= self.k
            h = t1 - t0
            return keep, jnp.where(keep, t1, t0), jnp.where(keep, t1 + h, t0 + 0.5 * h), False, i + 1, dfx.RESULTS.successful

    for cap in range(1, n + 1):
        run = eqx.filter_jit(lambda k: dfx.diffeqsolve(_drift, dfx.Heun(), 0.0, 1.0, 1.0, Y(), max_steps=64, stepsize_controller=dfx.ClipStepSizeController(Rejects(k), store_rejected_steps=cap)).ys)
        for k in range(0, n + 3):
            rep.state(cap, k)
            compare(rep, lambda: run(jnp.array(k)), "accept" if k <= cap else "refuse", "consecutive rejections", capacity=cap, rejections=k)
    rep.sample(dict(capacity=cap))
    return rep


def outcomes():
    """`throw=True` raises exactly for the outcomes that are not successes."""
    rep = common.Report()

    def go(throw, script, hfail, max_steps, event):
        ev = dfx.Event(lambda t, y, a, **k: t > a["event"]) if event else None
        sol = dfx.diffeqsolve(
            S.TERM, S.ScriptSolver(True), 0.0, 1.0, 0.25, S.zero_y(), args={"hfail": hfail, "event": 0.6}, event=ev, throw=throw, max_steps=max_steps,
            stepsize_controller=S.ScriptController(script, can_fail=True),
        )
        return common.result_codes(sol.result)

    for event in (False, True):
        for n in (2, 16):
            runs = {t: eqx.filter_jit(ft.partial(go, t, max_steps=n, event=event)) for t in (False, True)}
            for script in S.scripts(("a1", "rh", "f"), 3):
                for hfail in (0.2, 9.0):
                    enc = jnp.asarray(S.encode([script])[0])
                    name = common.RESULT_NAMES[int(runs[False](script=enc, hfail=hfail))]
                    rep.state(event, n, script, hfail)
                    rep.outcome(name)
                    ok = name in ("successful", "event_occurred")
                    compare(rep, lambda: runs[True](script=enc, hfail=hfail), "accept" if ok else "refuse", "outcome", result=name, script=script, hfail=hfail, event=event)
    rep.sample(dict(script=script))
    return rep


def SCENARIOS(tier):
    th = tier == "thorough"
    out = []
    adj = tuple(ADJOINTS)
    rest = [
        ("outputs", ft.partial(outputs, th)),
        ("queries", ft.partial(queries, th)),
        ("signs", signs),
        ("forms", ft.partial(forms, th)),
    ]
    slow = ("Kvaerno3", "Kvaerno4", "Kvaerno5", "KenCarp3", "KenCarp4", "KenCarp5", "Sil3")
    out += rest
    for name in slow + tuple(n for n in ALL if n not in slow):
        if th:
            go = ft.partial(table, (name,), adj)
        elif name in slow:
            go = ft.partial(table, (name,), ("checkpointed", "backsolve"), QUICK)
        else:
            go = ft.partial(table, (name,), ("checkpointed", "backsolve", "direct"), EQUATIONS if name in NEEDS or name in DRIFTDIFF else QUICK + ("cde", "three", "unsafe-bm"))
        out.append((f"table-{name}", go))
    out += [
        ("times", ft.partial(times, 4 if th else 3, th)),
        ("steps-to", ft.partial(steps_to, 4 if th else 3, th)),
        ("capacity", ft.partial(capacity, 5 if th else 3)),
        ("outcomes", outcomes),
    ]
    return out
