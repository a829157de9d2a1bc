"""C21: a failed nonlinear solve, or a step that left the domain, is never taken for a step.

Faults are injected into the nonlinear solves of implicit methods (a root finder that gives
up on steps longer than a limit, while returning a perfectly plausible value) and into the
vector field (not-a-number, infinite or huge values away from the solution), for every
solver, limit, first step, controller and direction; and the library's own root finder is
run on all problems of a grid against the true roots."""

import functools as ft

import diffrax as dfx
import equinox as eqx
import jax
import jax.flatten_util as jfu
import jax.numpy as jnp
import numpy as np
import optimistix as optx

from . import common, zoo

BOUNDS = (
    "every implicit solver x all failure limits x first steps x controllers x both directions; "
    "every implicit solver x stiffness x tolerances; every adaptive solver x {nan, inf, 1e300} x distances x first steps; root finder: all cubics "
    "of a grid x starts x tolerances x iteration budgets x kappa; tolerances: grid x wrappings"
)
IMPLICIT = ("ImplicitEuler", "Kvaerno3", "Kvaerno4", "Kvaerno5", "KenCarp3", "KenCarp4", "KenCarp5", "Sil3")
LAM = -1.5


class Fails(optx.AbstractRootFinder):
    """Newton's method, exact for linear equations, that gives up on long steps.

    The length is seen in the equation itself: its derivative is 1 + a h |lambda|. The
    value that comes with a failure is right, so only the failure itself can tell."""

    limit: jax.Array
    kind: str = eqx.field(static=True, default="divergence")
    rtol: float = 1e-6
    atol: float = 1e-6

    def norm(self, x):
        return optx.max_norm(x)

    def init(self, fn, y, args, options, f_struct, aux_struct, tags):
        flat, unravel = jfu.ravel_pytree(y)
        jac = jax.jacfwd(lambda z: jfu.ravel_pytree(fn(unravel(z), args)[0])[0])(flat)
        dev = jnp.max(jnp.abs(jnp.abs(jnp.diag(jac)) - 1))
        return jnp.array(0), dev > self.limit

    def step(self, fn, y, args, options, state, tags):
        flat, unravel = jfu.ravel_pytree(y)
        g = lambda z: jfu.ravel_pytree(fn(unravel(z), args)[0])[0]
        new = flat - jnp.linalg.solve(jax.jacfwd(g)(flat), g(flat))
        return unravel(new), (state[0] + 1, state[1]), fn(y, args)[1]

    def terminate(self, fn, y, args, options, state, tags):
        n, bad = state
        if self.kind == "divergence":
            return n >= 1, optx.RESULTS.where(bad, optx.RESULTS.nonlinear_divergence, optx.RESULTS.successful)
        # never stops on its own: the budget runs out
        return (n >= 1) & ~bad, optx.RESULTS.successful

    def postprocess(self, fn, y, aux, args, options, state, tags, result):
        return y, aux, {}


def diagonal(solver):
    if isinstance(solver, dfx.ImplicitEuler):
        return 1.0
    tab = solver.tableau
    tabs = getattr(tab, "tableaus", (tab,))
    return max(float(np.max(t.a_diagonal)) for t in tabs if t.implicit)


CONTROLLERS = {
    "constant": lambda: dfx.ConstantStepSize(),
    "pid": lambda: dfx.PIDController(rtol=1.0, atol=1e3),
    "pi": lambda: dfx.PIDController(rtol=1.0, atol=1e3, pcoeff=0.3, icoeff=0.4),
    "clip": lambda: dfx.ClipStepSizeController(dfx.PIDController(rtol=1.0, atol=1e3), step_ts=[0.7], jump_ts=[1.1]),
}


def failing(name, controller, kind, fine):
    rep = common.Report()
    cls = getattr(dfx, name)
    multi = name.startswith("KenCarp") or name == "Sil3"
    imp = dfx.ODETerm(lambda t, y, a: jax.tree_util.tree_map(lambda x: LAM * x * a, y))
    # (lambda has the sign that makes it decay in the direction of integration)
    terms = dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: jax.tree_util.tree_map(jnp.zeros_like, y)), imp) if multi else imp
    y0 = {"p": jnp.array([1.0, -0.5]), "q": jnp.array(2.0)}
    n = 2048

    def go(limit, dt, sgn):
        solver = cls(root_finder=Fails(limit, kind), root_find_max_steps=4)
        sol = dfx.diffeqsolve(
            terms, solver, 0.2 * sgn, 2.2 * sgn, dt * sgn, y0, args=sgn, max_steps=n, throw=False,
            stepsize_controller=CONTROLLERS[controller](), saveat=dfx.SaveAt(t0=True, steps=True),
        )
        return sol.ts * sgn, sol.ys, common.result_codes(sol.result), sol.stats

    ad = diagonal(cls()) * abs(LAM)
    hs = np.array([0.03, 0.11, 0.25, 0.6, 1.3, 5.0]) if fine else np.array([0.03, 0.25, 1.3, 5.0])
    limits = ad * hs
    dts = np.array([0.05, 0.2, 0.5, 1.0, 2.0]) if fine else np.array([0.05, 0.5, 2.0])
    L, Dt, G = (x.ravel() for x in np.meshgrid(limits, dts, [1.0, -1.0], indexing="ij"))
    ts, ys, codes, stats = jax.device_get(eqx.filter_jit(jax.vmap(go))(jnp.asarray(L), jnp.asarray(Dt), jnp.asarray(G)))
    for i in range(len(L)):
        h_ok = L[i] / ad
        t = ts[i][np.isfinite(ts[i])]
        steps = np.diff(t)
        res = common.RESULT_NAMES[codes[i]] if codes[i] >= 0 else "other"
        rep.state(name, controller, L[i], Dt[i])
        rep.transitions += int(stats["num_steps"][i])
        rep.traces += 1
        rep.outcome(res)
        case = dict(solver=name, controller=controller, kind=kind, longest_solvable=h_ok, dt0=Dt[i], backwards=G[i] < 0, ts=t, result=res)
        if controller == "constant":
            fails = min(Dt[i], 2.0) > h_ok
            want = "successful" if not fails else "nonlinear_divergence" if kind == "divergence" else "nonlinear_max_steps_reached"
            rep.check(res == want, "outcome", **case, want=want)
            continue
        rep.check(res == "successful", "outcome", **case)
        rep.check(len(steps) > 0 and steps.max() <= h_ok * (1 + 1e-6), "a failed solve was kept", **case)
        rej = int(stats["num_rejected_steps"][i])
        first = min(Dt[i], 0.5 if controller == "clip" else 2.0)
        rep.check(rej > 0 or first <= h_ok * (1 + 1e-9), "rejections", **case, rejected=rej)
        fin = all(np.isfinite(x[i][: len(t)]).all() for x in zoo.leaves(ys))
        rep.check(fin, "finite", **case)
    rep.sample(case)
    return rep


# --------------------------------------------------------------- leaving the domain
def domain(name, fine):
    """Stages that leave the domain (nan, inf, huge) lead to a smaller step."""
    rep = common.Report()
    cls = getattr(dfx, name)
    multi = name.startswith("KenCarp") or name == "Sil3"

    def vf(t, y, args):
        width, bad, sgn = args
        ok = jnp.abs(y - jnp.exp(-(t * sgn - 0.2))).max() < width
        return jnp.where(ok, -y * sgn, bad)

    zero = dfx.ODETerm(lambda t, y, a: jnp.zeros_like(y))
    implicit = multi or name in IMPLICIT
    terms = dfx.MultiTerm(zero, dfx.ODETerm(vf)) if multi else dfx.ODETerm(vf)
    tol = 1e-4 if name not in ("Euler", "ImplicitEuler") else 1e-3

    def go(width, bad, dt, sgn):
        sol = dfx.diffeqsolve(
            terms, cls(), 0.2 * sgn, 2.2 * sgn, dt * sgn, jnp.array([1.0, 1.0]), args=(width, bad, sgn), throw=False, max_steps=2048,
            stepsize_controller=dfx.PIDController(rtol=tol, atol=tol), saveat=dfx.SaveAt(ts=jnp.array([0.2, 0.3, 1.1, 1.9, 2.2]) * sgn, dense=True),
        )
        return sol.ys, common.result_codes(sol.result), sol.stats["num_rejected_steps"], sol.stats["num_steps"], sol.evaluate(1.5 * sgn)

    widths = (0.5, 0.1, 0.02) if fine else (0.5, 0.05)
    dts = (0.1, 0.5, 2.0) if fine else (0.1, 2.0)
    W, B, Dt, G = (x.ravel() for x in np.meshgrid(widths, [np.nan, np.inf, -np.inf, 1e300], dts, [1.0, -1.0], indexing="ij"))
    ys, codes, rej, num, mid = jax.device_get(eqx.filter_jit(jax.vmap(go))(*map(jnp.asarray, (W, B, Dt, G))))
    want = np.exp(-np.array([0.0, 0.1, 0.9, 1.7, 2.0]))
    wmid = np.exp(-1.3)
    acc = 0.02 if tol == 1e-4 else 0.2
    for i in range(len(W)):
        res = common.RESULT_NAMES[codes[i]] if codes[i] >= 0 else "other"
        rep.state(name, W[i], str(B[i]), Dt[i])
        rep.transitions += int(num[i])
        rep.traces += 1
        rep.outcome(res)
        case = dict(solver=name, width=W[i], bad=str(B[i]), dt0=Dt[i], backwards=G[i] < 0, result=res, rejected=rej[i])
        rep.check(res == "successful", "outcome", **case)
        rep.check(np.allclose(ys[i], want[:, None], rtol=0, atol=acc), "value", **case, got=ys[i])
        rep.check(np.allclose(mid[i], wmid, rtol=0, atol=acc), "dense output", **case, got=mid[i])
    rep.sample(case)
    return rep


# ------------------------------------------------------------------------- root finder
def chord(rtol, atol, kappa, budget, tree, singular=False):
    """Every cubic of the grid from every start."""
    rep = common.Report()
    c0 = (-2.0, -0.5, 0.0, 0.3, 1.0)
    c1 = (-1.0, 0.0, 0.5, 1.0, 2.0)
    c2 = (-0.5, 0.0, 0.1, 0.7)
    c3 = (-0.2, 0.0, 0.3)
    xs = (-2.0, 0.0, 0.4, 1.5)
    C = np.array(np.meshgrid(c0, c1, c2, c3, xs, indexing="ij")).reshape(5, -1).T

    def g(x, c):
        return c[0] + c[1] * x + c[2] * x**2 + c[3] * x**3

    def one(c):
        finder = dfx.VeryChord(rtol=rtol, atol=atol, kappa=kappa)
        if tree:
            # a second, harmless unknown
            fn = lambda y, a: {"u": g(y["u"], a), "v": jnp.stack([y["v"][0] - y["u"] * 0, 2 * y["v"][1]])}
            start = {"u": c[4], "v": jnp.array([0.5, -1.0])}
        else:
            fn, start = g, c[4]
        sol = optx.root_find(fn, finder, start, args=c[:4], throw=False, max_steps=budget)
        return (sol.value["u"] if tree else sol.value), sol.result == optx.RESULTS.successful, sol.stats["num_steps"]

    val, ok, num = jax.device_get(eqx.filter_jit(jax.vmap(one))(jnp.asarray(C)))
    worst = 0.0
    with np.errstate(all="ignore"):
        for i, c in enumerate(C):
            x = c[4]
            j = c[1] + 2 * c[2] * x + 3 * c[3] * x**2
            if not tree and (j == 0) != singular:
                continue
            # the chord iteration itself
            it = [x]
            for _ in range(60):
                it.append(it[-1] - g(it[-1], c) / j if j != 0 else np.nan)
            it = np.array(it)
            d = np.abs(np.diff(it))
            scale = atol + rtol * np.abs(it[1:])
            case = dict(cubic=c[:4], start=x, rtol=rtol, atol=atol, kappa=kappa, budget=budget, value=val[i], steps=num[i])
            rep.state(*c)
            rep.transitions += int(num[i])
            rep.traces += 1
            rep.outcome(bool(ok[i]))
            if ok[i]:
                v = val[i]
                good = np.isfinite(v) and j != 0
                left = abs(g(v, c) / j) / (atol + rtol * abs(v)) if good else np.inf
                if j == 0:
                    rep.check(g(v, c) == 0, "success with a singular derivative", **case)
                    continue
                worst = max(worst, left / kappa)
                # (the rate of contraction is estimated from two iterations)
                k = int(num[i])
                size = d / scale
                steady = size[k] < 1e-10 or size[k] / size[k - 1] <= 2 * size[k - 1] / size[k - 2]
                rep.check(left <= (3 * kappa if steady else 1) + 1e-9, "success away from a root", **case, remaining=left, iterates=it[:6])
                rep.outcome("steady" if steady else "unsteady")
                rep.check(num[i] <= budget, "budget", **case)
            else:
                # an iteration that contracts well from the start and has time enough succeeds
                size = d / scale
                live = size > 1e-11
                with np.errstate(all="ignore"):
                    rate = np.where(live[:-1] & live[1:], size[1:] / size[:-1], 0.0)
                if np.isfinite(it).all() and (rate <= 0.5).all():
                    k = np.argmax(size <= kappa / 4) if (size <= kappa / 4).any() else 999
                    rep.check(k + 3 > budget, "failure while converging", **case, sizes=size[:8])
                    rep.outcome("converging, out of budget")
    rep.outcome(f"remaining <= {worst:.2g} kappa")
    rep.sample(case)
    return rep


# --------------------------------------------------------- solvable steps are not refused
def stiff(name, fine):
    """The library's root finder does not make a linear problem harder than exact solves."""
    rep = common.Report()
    cls = getattr(dfx, name)
    multi = name.startswith("KenCarp") or name == "Sil3"
    imp = dfx.ODETerm(lambda t, y, a: -a[0] * (y - a[1]))
    terms = dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: jnp.zeros_like(y)), imp) if multi else imp

    def go(finder, lam, eq, tol):
        kw = {} if finder is None else dict(root_finder=finder)
        sol = dfx.diffeqsolve(
            terms, cls(**kw), 0.0, 20.0, 1e-3, jnp.stack([2 * eq, eq]), args=(lam, eq), max_steps=4096, throw=False,
            stepsize_controller=dfx.PIDController(rtol=tol, atol=tol),
        )
        return sol.ys, sol.stats["num_steps"], common.result_codes(sol.result)

    lams = (1.0, 1e2, 1e4, 1e6) if fine else (1e2, 1e6)
    eqs = (0.3, 1.0, 123.4) if fine else (1.0, 123.4)
    tols = (1e-3, 1e-5, 1e-7) if fine else (1e-3, 1e-6)
    if name == "ImplicitEuler":
        tols = (1e-3, 1e-4)
    L, E, T = (x.ravel() for x in np.meshgrid(lams, eqs, tols, indexing="ij"))
    run = lambda f: jax.device_get(eqx.filter_jit(jax.vmap(ft.partial(go, f)))(*map(jnp.asarray, (L, E, T))))
    y1, n1, c1 = run(None)
    y2, n2, c2 = run(Fails(jnp.array(jnp.inf)))
    for i in range(len(L)):
        case = dict(solver=name, lam=L[i], equilibrium=E[i], tol=T[i], steps=n1[i], exact=n2[i])
        rep.state(L[i], E[i], T[i])
        rep.transitions += int(n1[i])
        rep.traces += 1
        if not rep.check(c2[i] == 0, "reference", **case):
            continue
        rep.check(c1[i] == 0 and n1[i] <= 1.5 * n2[i] + 10, "solvable steps were refused", **case)
        rep.check(np.allclose(y1[i], E[i], rtol=1e3 * T[i], atol=1e3 * T[i]), "value", **case, got=y1[i])
    rep.sample(case)
    return rep


# -------------------------------------------------------------------------- tolerances
class Tells(optx.AbstractRootFinder):
    """Returns its own tolerances as the root."""

    rtol: float
    atol: float
    norm: object

    def init(self, fn, y, args, options, f_struct, aux_struct, tags):
        return jnp.array(False)

    def step(self, fn, y, args, options, state, tags):
        told = self.rtol + 10 * self.atol + 0.1 * self.norm(jnp.array([3.0, 4.0]))
        return jnp.full_like(y, told), jnp.array(True), fn(y, args)[1]

    def terminate(self, fn, y, args, options, state, tags):
        return state, optx.RESULTS.successful

    def postprocess(self, fn, y, aux, args, options, state, tags, result):
        return y, aux, {}


def tolerances(fine):
    rep = common.Report()
    two = lambda x: jnp.sqrt(jnp.sum(x**2))
    norms = {"default": (None, float(np.sqrt(12.5))), "max": (optx.max_norm, 4.0), "two": (two, 5.0)}
    wraps = {
        "pid": lambda c: c,
        "clip": lambda c: dfx.ClipStepSizeController(c, step_ts=[0.5]),
        "clip-clip": lambda c: dfx.ClipStepSizeController(dfx.ClipStepSizeController(c, step_ts=[0.5]), jump_ts=[0.25]),
    }
    term = dfx.ODETerm(lambda t, y, a: jnp.zeros_like(y))
    for rtol in (0.5, 0.125):
        for atol in (0.25, 0.03125):
            if not fine and (rtol, atol) not in ((0.5, 0.25), (0.125, 0.03125)):
                continue
            for nname, (norm, nval) in norms.items():
                for wname, wrap in wraps.items():
                    for kind in ("taken", "explicit"):
                        kw = {} if norm is None else dict(norm=norm)
                        if kind == "taken":
                            finder = dfx.with_stepsize_controller_tols(Tells)()
                            want = rtol + 10 * atol + 0.1 * nval
                        else:
                            finder = Tells(0.75, 0.0625, optx.max_norm)
                            want = 0.75 + 0.625 + 0.4
                        case = dict(rtol=rtol, atol=atol, norm=nname, wrap=wname, kind=kind)
                        rep.state(rtol, atol, nname, wname, kind)
                        rep.traces += 1
                        for name in ("ImplicitEuler", "Half") if fine else ("ImplicitEuler",):
                            rep.transitions += 1
                            solver = dfx.ImplicitEuler(root_finder=finder)
                            if name == "Half":
                                solver = dfx.HalfSolver(solver)
                            try:
                                sol = dfx.diffeqsolve(
                                    term, solver, 0.0, 0.25, 0.25, jnp.array([1e3]), max_steps=4, throw=False,
                                    stepsize_controller=wrap(dfx.PIDController(rtol=rtol, atol=atol, **kw)),
                                )
                            except Exception as e:
                                rep.fail("refused", **case, solver=name, error=str(e)[:200])
                                continue
                            got = float(sol.ys[-1, 0]) - 1e3
                            w = want * (2 if name == "Half" else 1)
                            rep.check(abs(got - w) < 1e-6, "tolerances of the root finder", **case, solver=name, got=got, want=w)
    rep.sample(case)
    return rep


ADAPTIVE = ("Euler", "Heun", "Midpoint", "Ralston", "Bosh3", "Tsit5", "Dopri5", "Dopri8") + IMPLICIT


def SCENARIOS(tier):
    th = tier == "thorough"
    out = []
    for name in IMPLICIT:
        for c in CONTROLLERS:
            if not th and c != "pid" and name not in ("ImplicitEuler", "Kvaerno4", "KenCarp3"):
                continue
            if not th and c in ("pi", "clip") and name != "ImplicitEuler":
                continue
            kinds = ("divergence", "budget") if th or name in ("ImplicitEuler", "Kvaerno3") else ("divergence",)
            for k in kinds:
                out.append((f"failing-{name}-{c}-{k}", ft.partial(failing, name, c, k, th)))
    for name in ADAPTIVE:
        if th or name in ("Heun", "Bosh3", "Tsit5", "Dopri8", "ImplicitEuler", "Kvaerno3", "Kvaerno5", "KenCarp4", "Sil3"):
            out.append((f"domain-{name}", ft.partial(domain, name, th)))
    for name in IMPLICIT:
        if th or name in ("ImplicitEuler", "Kvaerno3", "Kvaerno5", "KenCarp3", "KenCarp5", "Sil3"):
            out.append((f"stiff-{name}", ft.partial(stiff, name, th)))
    for rtol, atol in ((1e-6, 1e-6), (1e-3, 1e-6), (1e-9, 1e-3)) if th else ((1e-6, 1e-6), (1e-9, 1e-3)):
        for kappa in (1e-2, 0.3) if th else (1e-2,):
            for budget in (10, 4, 40) if th else (10, 40):
                out.append((f"chord-{rtol}-{atol}-{kappa}-{budget}", ft.partial(chord, rtol, atol, kappa, budget, False)))
    out.append(("chord-tree", ft.partial(chord, 1e-6, 1e-6, 1e-2, 20, True)))
    out.append(("chord-singular", ft.partial(chord, 1e-6, 1e-6, 1e-2, 10, False, True)))
    out.append(("tolerances", ft.partial(tolerances, th)))
    return out
