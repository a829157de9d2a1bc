"""C05: adaptive step size control: which steps are accepted, and how long the next one is.

The controller is a state machine whose input is the error estimate of each attempted
step.  All error histories over a small alphabet are fed through it, on its own and inside
a complete solve, and compared with the control law written down in plain Python."""

import functools as ft
import itertools
import math

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from . import common, zoo

BOUNDS = (
    "all error histories of length 4 (thorough 5) over 8 magnitudes {0, 1e-12, 0.05, 0.9, "
    "1, 1.5, 300, inf} x 24 controller configurations (P/I/D coefficients, safety, factor "
    "bounds, dtmin with and without force, dtmax, error order); all problems of 4 stages "
    "over 6 local error constants (incl. inf and NaN beyond a step length) in complete "
    "solves, both directions; error norm: all assignments of 3 values to y0, y1, error of "
    "two leaves"
)


class Ref:
    """The control law."""

    def __init__(
        self,
        pcoeff=0.0,
        icoeff=1.0,
        dcoeff=0.0,
        dtmin=None,
        dtmax=None,
        force_dtmin=True,
        factormin=0.2,
        factormax=10.0,
        safety=0.9,
        order=3.0,
    ):
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})
        self.prev = (1.0, 1.0)
        self.at_dtmin = False

    def first(self, dt0):
        if self.dtmax is not None:
            dt0 = min(dt0, self.dtmax)
        if self.dtmin is not None:
            dt0 = max(dt0, self.dtmin)
        return dt0

    def __call__(self, h, err):
        """-> keep, next h, failed"""
        keep = err < 1
        if self.dtmin is not None and self.at_dtmin:
            keep = True
        inv = math.inf if err == 0 else (0.0 if math.isinf(err) else 1 / err)
        b1 = (self.icoeff + self.pcoeff + self.dcoeff) / self.order
        b2 = -(self.pcoeff + 2 * self.dcoeff) / self.order
        b3 = self.dcoeff / self.order

        def power(x, b):
            if b == 0:
                return 1.0
            with np.errstate(all="ignore"):
                return float(np.float64(x) ** b)

        f = self.safety * power(inv, b1) * power(self.prev[0], b2) * power(self.prev[1], b3)
        if keep:
            f = min(max(f, 1.0), self.factormax)
        else:
            f = min(max(f, self.factormin), self.safety)
        dt = h * f
        if inv == 0 or math.isinf(inv):
            inv = 1.0
        failed = False
        if self.dtmax is not None:
            dt = min(dt, self.dtmax)
        if self.dtmin is not None:
            if not self.force_dtmin and dt < self.dtmin:
                failed = True
            if self.at_dtmin and f == 1:
                dt = self.dtmin
            self.at_dtmin = dt <= self.dtmin
            dt = max(dt, self.dtmin)
        if keep:
            self.prev = (inv, self.prev[0])
        return keep, dt, failed


CONFIGS = [
    dict(),
    dict(pcoeff=0.4, icoeff=0.3),
    dict(pcoeff=0.4, icoeff=1.0),
    dict(pcoeff=0.3, icoeff=0.3, dcoeff=0.2),
    dict(pcoeff=0.1, icoeff=0.3, dcoeff=-0.05),
    dict(icoeff=0.7, dcoeff=0.1),
    dict(safety=0.7),
    dict(safety=0.5, factormin=0.6),
    dict(factormin=0.5),
    dict(factormax=2.0),
    dict(factormax=1.0),
    dict(factormin=0.1, factormax=5.0, pcoeff=0.2, icoeff=0.4),
    dict(dtmax=0.3),
    dict(dtmax=0.05),
    dict(dtmin=0.03),
    dict(dtmin=0.03, force_dtmin=False),
    dict(dtmin=0.25),
    dict(dtmin=0.25, force_dtmin=False),
    dict(dtmin=0.05, dtmax=0.15),
    dict(dtmin=0.05, dtmax=0.15, force_dtmin=False),
    dict(dtmin=0.03, pcoeff=0.3, icoeff=0.3, dcoeff=0.1),
    dict(dtmin=0.04, dtmax=0.1, pcoeff=0.3, icoeff=0.3, factormax=1.5),
    dict(order=1.0),
    dict(order=6.0, pcoeff=0.4, icoeff=0.3),
]
MAGNITUDES = (0.0, 1e-12, 0.05, 0.9, 1.0, 1.5, 300.0, np.inf)


def _controller(cfg, **kw):
    cfg = dict(cfg)
    order = cfg.pop("order", 3.0)
    return dfx.PIDController(error_order=order, **cfg, **kw), order


def machine(cfg, depth):
    """The controller on its own, through its public methods."""
    rep = common.Report()
    hist = np.array(list(itertools.product(MAGNITUDES, repeat=depth)))
    controller, _ = _controller(cfg, rtol=0.0, atol=1.0)
    y = jnp.array(0.0)
    t0, t1, dt0 = jnp.array(0.5), jnp.array(100.0), jnp.array(0.125)
    term = dfx.ODETerm(lambda t, y, args: y)

    @eqx.filter_jit
    @jax.vmap
    def run(errs):
        a = t0
        b, state = controller.init(term, t0, t1, y, dt0, None, None, 3.0)
        out = []
        for i in range(depth):
            keep, na, nb, jump, state, result = controller.adapt_step_size(
                a, b, y, y, None, errs[i], 3.0, state
            )
            out.append((a, b, keep, jump, common.result_codes(result)))
            a, b = na, nb
        out.append((a, b, jnp.array(True), jnp.array(False), jnp.array(0)))
        return jax.tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(v) for v in x]), *out)

    A, B, K, J, R = jax.device_get(run(jnp.asarray(hist)))
    for k, errs in enumerate(hist):
        ref = Ref(**cfg)
        t, h = 0.5, ref.first(0.125)
        rep.traces += 1
        case = dict(config=cfg, errors=errs)
        ok = True
        for i in range(depth + 1):
            ok = common.close(A[k, i], t) and common.close(B[k, i] - A[k, i], h, 1e-9, 1e-12)
            if not rep.check(
                ok, "attempted step", i=i, got=(A[k, i], B[k, i]), want=(t, t + h), **case
            ):
                break
            if i == depth:
                break
            rep.state(str(cfg), h, ref.prev, ref.at_dtmin, errs[i])
            rep.transitions += 1
            keep, nh, failed = ref(h, errs[i])
            rep.outcome("keep" if keep else "reject")
            rep.check(bool(K[k, i]) == keep, "accepted or not", i=i, want=keep, **case)
            rep.check(not J[k, i], "made a jump", i=i, **case)
            name = common.RESULT_NAMES[int(R[k, i])]
            rep.check(
                name == ("dt_min_reached" if failed else "successful"),
                "result", i=i, got=name, failed=failed, **case,
            )
            if failed:
                rep.outcome("dtmin")
                break
            if keep:
                t = t + h
            h = nh
    rep.sample(dict(config=cfg, errors=hist[-2]))
    return rep


class ErrSolver(dfx.AbstractAdaptiveSolver):
    """Local error of the n-th accepted step: C[n] h^2, bad (C NaN/inf) only beyond hbad."""

    term_structure = dfx.ODETerm
    interpolation_cls = dfx.LocalLinearInterpolation

    def order(self, terms):
        return 2

    def init(self, terms, t0, t1, y0, args):
        return None

    def func(self, terms, t0, y0, args):
        return terms.vf(t0, y0, args)

    def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
        h = t1 - t0
        c = args[jnp.minimum(y0.astype(int), args.shape[0] - 1)]
        bad = jnp.where(h > HBAD, c, 0.0)
        err = jnp.where(jnp.isfinite(c), c * h**2, bad)
        y1 = jnp.where(jnp.isnan(err), jnp.nan, y0 + 1)
        return y1, err, dict(y0=y0, y1=y1), None, dfx.RESULTS.successful


HBAD = 0.06
CONSTANTS = (0.0, 1.0, 40.0, 3000.0, np.inf, np.nan)


def solve_with(cfg, depth, interval):
    """The same control law inside a complete solve."""
    rep = common.Report()
    probs = np.array(list(itertools.product(CONSTANTS, repeat=depth)))
    t0, t1, dt0 = interval
    sgn = 1.0 if t0 < t1 else -1.0
    max_steps = 60
    # the default for an ODE solver: the order of its error estimate is its order
    kw = dict(cfg)
    kw.pop("order", None)
    controller = dfx.PIDController(rtol=0.0, atol=1.0, **kw)
    order = 2.0

    @eqx.filter_jit
    @jax.vmap
    def run(c):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, args: y),
            ErrSolver(),
            t0,
            t1,
            dt0,
            jnp.array(0.0),
            args=c,
            stepsize_controller=controller,
            saveat=dfx.SaveAt(t0=True, steps=True),
            max_steps=max_steps,
            throw=False,
        )
        st = sol.stats
        return (
            sol.ts,
            sol.ys,
            common.result_codes(sol.result),
            jnp.stack([st["num_steps"], st["num_accepted_steps"], st["num_rejected_steps"]]),
        )

    TS, YS, RES, ST = jax.device_get(run(jnp.asarray(probs)))
    for k, c in enumerate(probs):
        ref = Ref(**{**kw, "order": order})
        t, end = sgn * t0, sgn * t1
        b = min(t + ref.first(sgn * dt0), end)
        ts = [t]
        n = rej = 0
        result = "successful"
        forced_nan = False
        steps = 0
        while t < end and result == "successful":
            if steps >= max_steps:
                result = "max_steps_reached"
                break
            h = b - t
            cc = c[min(n, depth - 1)]
            if np.isfinite(cc):
                err = cc * h**2
            else:
                err = np.inf if h > HBAD else 0.0
            rep.state(str(cfg), t, h, n, ref.prev, ref.at_dtmin)
            rep.transitions += 1
            keep, nh, failed = ref(h, err)
            steps += 1
            if keep:
                forced_nan = forced_nan or (np.isnan(cc) and h > HBAD)
                t = b
                n += 1
                ts.append(t)
            else:
                rej += 1
            if failed:
                result = "dt_min_reached"
            b = min(t + nh, end)
            if end - b < 1e-10:
                b = end
        case = dict(config=cfg, constants=c, interval=interval)
        rep.traces += 1
        rep.outcome(result)
        if forced_nan:
            # y itself is NaN: everything afterwards is undefined.
            continue
        name = common.RESULT_NAMES[int(RES[k])]
        rep.check(name == result, "result", got=name, want=result, **case)
        fin = np.isfinite(TS[k])
        rep.check(
            common.close(TS[k][fin], sgn * np.array(ts), 1e-8, 1e-9),
            "accepted steps",
            got=TS[k][fin], want=sgn * np.array(ts), **case,
        )
        rep.check(
            list(ST[k]) == [steps, n, rej],
            "statistics", got=ST[k], want=(steps, n, rej), **case,
        )
        rep.check(common.close(YS[k][fin], np.arange(n + 1)), "values", **case)
    rep.sample(dict(config=cfg, constants=probs[-1], interval=interval))
    return rep


def norm():
    """The error is scaled elementwise by atol + rtol * max(|y0|, |y1|), and measured in the
    norm that was asked for (by default: root mean square over everything)."""
    rep = common.Report()
    vals0 = (0.0, -2.0, 5.0)
    errs = (0.0, 0.03, -0.8)
    # leaf "a": two elements, one enumerated; leaf "b": scalar
    grid = np.array(list(itertools.product(vals0, (1.0, -3.0, np.nan), errs, vals0, errs)))
    atol, rtol = 0.02, 0.1
    for name, kw in (("rms", {}), ("max", dict(norm=lambda t: jnp.max(jnp.stack([jnp.max(jnp.abs(x)) for x in jax.tree_util.tree_leaves(t)]))))):
        controller = dfx.PIDController(
            rtol=rtol, atol=atol, error_order=1.0, safety=1.0, factormin=1e-9,
            factormax=1e9, **kw,
        )

        @eqx.filter_jit
        @jax.vmap
        def run(g):
            y0 = {"a": jnp.stack([g[0], jnp.array(1.0)]), "b": g[3]}
            y1 = {"a": jnp.stack([g[1], jnp.array(-1.5)]), "b": g[3] + 0.5}
            ye = {"a": jnp.stack([g[2], jnp.array(0.01)]), "b": g[4]}
            t0 = jnp.array(0.0)
            b, state = controller.init(
                dfx.ODETerm(lambda t, y, a: y), t0, jnp.array(1e9), y0, jnp.array(1.0),
                None, None, 1.0,
            )
            keep, na, nb, _, _, _ = controller.adapt_step_size(
                t0, b, y0, y1, None, ye, 1.0, state
            )
            return keep, nb - na

        K, H = jax.device_get(run(jnp.asarray(grid)))
        for k, g in enumerate(grid):
            y0a = np.array([g[0], 1.0])
            y1a = np.array([g[1], -1.5])
            if np.isnan(g[1]):
                y1a = y0a
            y0 = np.append(y0a, g[3])
            y1 = np.append(y1a, g[3] + 0.5)
            e = np.array([g[2], 0.01, g[4]])
            s = e / (atol + rtol * np.maximum(abs(y0), abs(y1)))
            err = np.sqrt(np.mean(s**2)) if name == "rms" else np.max(abs(s))
            keep = err < 1
            f = 1 / err
            f = max(f, 1.0) if keep else min(f, 1.0)
            rep.check(bool(K[k]) == keep, "accepted or not", norm=name, case=g, err=err)
            rep.check(common.close(H[k], f, 1e-8), "next step", norm=name, case=g, got=H[k], want=f)
            rep.state(name, tuple(g))
            rep.transitions += 1
            rep.traces += 1
            rep.outcome("keep" if keep else "reject")
    rep.sample(dict(grid=grid[-1]))
    return rep


def tolerance(name):
    """A real solver: with error control, the error of the answer follows the tolerance,
    whatever the first step was."""
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    terms, y0 = spec.problem()
    solver = spec.make()
    ref = dfx.diffeqsolve(
        dfx.ODETerm(zoo.f_tree), dfx.Dopri8(), 0.0, 2.0, 0.01, y0,
        stepsize_controller=dfx.PIDController(rtol=1e-11, atol=1e-12), max_steps=2000,
    ).ys

    @eqx.filter_jit
    @jax.vmap
    def run(tol, dt0):
        sol = dfx.diffeqsolve(
            terms, solver, 0.0, 2.0, dt0, y0,
            stepsize_controller=dfx.PIDController(rtol=tol, atol=tol),
            max_steps=2000, throw=False,
        )
        return sol.ys, common.result_codes(sol.result), sol.stats["num_accepted_steps"]

    tols = 10.0 ** -np.arange(2.0, 6.0)
    dts = np.array([1e-4, 0.02, 0.5, 2.0])
    g = np.array(list(itertools.product(tols, dts)))
    ys, res, n = jax.device_get(run(jnp.asarray(g[:, 0]), jnp.asarray(g[:, 1])))
    for i in range(len(g)):
        err = max(
            np.max(np.abs(a[i] - b[0]))
            for a, b in zip(zoo.leaves(ys), zoo.leaves(ref))
        )
        case = dict(solver=name, tol=g[i, 0], dt0=g[i, 1], err=err, steps=n[i])
        rep.check(res[i] == 0, "not successful", **case)
        # per-step error times the number of steps, with room for growth by the flow
        rep.check(err < 20 * g[i, 0] * max(n[i], 1), "error out of proportion to tolerance", **case)
        rep.state(name, i)
        rep.transitions += int(n[i])
        rep.traces += 1
    rep.sample(case)
    return rep


def SCENARIOS(tier):
    thorough = tier == "thorough"
    out = []
    for i, cfg in enumerate(CONFIGS):
        out.append((f"machine-{i}", ft.partial(machine, cfg, 5 if thorough else 4)))
    cfgs = CONFIGS[:22] if thorough else [CONFIGS[i] for i in (0, 1, 3, 8, 12, 14, 15, 18)]
    for i, cfg in enumerate(cfgs):
        for iv in [(0.0, 1.0, 0.2), (1.0, -1.0, -0.7)]:
            out.append(
                (
                    f"solve-{i}-{iv[0]:g}",
                    ft.partial(solve_with, cfg, 4 if thorough else 3, iv),
                )
            )
    out.append(("norm", norm))
    names = ["Heun", "Midpoint", "Ralston", "Bosh3", "Tsit5", "Dopri5", "Dopri8", "Kvaerno3", "Kvaerno5", "Half-Euler"]
    for n in names if thorough else ["Heun", "Tsit5", "Kvaerno3", "Half-Euler"]:
        out.append((f"tolerance-{n}", ft.partial(tolerance, n)))
    return out
