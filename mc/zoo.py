"""Every solver of the library, each with a small nonlinear, non-autonomous problem."""

import dataclasses
from typing import Any, Callable

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx


def chord(tol=1e-12):
    return dfx.VeryChord(rtol=tol, atol=tol, norm=optx.max_norm)


def f_tree(t, y, args):
    a, b = y["a"], y["b"]
    p = 0.1 if args is None else args
    return {
        "a": jnp.stack(
            [-a[0] + 0.5 * b * jnp.sin(t), jnp.cos(a[0]) - 0.3 * a[1] * b]
        ),
        "b": 0.2 * a[0] * a[1] - 0.4 * b + p * t,
    }


def y_tree(dtype=float):
    return {
        "a": jnp.array([0.4, -0.7], dtype),
        "b": jnp.array(0.9, dtype),
    }


def _ex(t, y, args):
    a, b = y["a"], y["b"]
    p = 0.1 if args is None else args
    return {
        "a": jnp.stack([0.5 * b * jnp.sin(t), jnp.cos(a[0])]),
        "b": 0.2 * a[0] * a[1] + p * t,
    }


def _im(t, y, args):
    a, b = y["a"], y["b"]
    return {
        "a": jnp.stack([-a[0] * (1 + 0.1 * a[0] ** 2), -0.3 * a[1] * b]),
        "b": -0.4 * b * (1 + 0.2 * t),
    }


def ode_problem():
    return dfx.ODETerm(f_tree), y_tree()


def imex_problem():
    return dfx.MultiTerm(dfx.ODETerm(_ex), dfx.ODETerm(_im)), y_tree()


def semi_problem():
    f = dfx.ODETerm(lambda t, q, args: jnp.sin(q) + 0.1 * t)
    g = dfx.ODETerm(lambda t, p, args: -p + 0.2 * p**3 - 0.1 * t)
    return (f, g), (jnp.array([0.3, -0.2]), jnp.array([0.5, 1.0]))


def bm(t0=-4.0, t1=4.0, levy=dfx.SpaceTimeTimeLevyArea, shape=(2,), tol=2.0**-8, seed=5):
    return dfx.VirtualBrownianTree(
        t0, t1, tol, shape, jax.random.PRNGKey(seed), levy_area=levy
    )


class SmoothPath(dfx.AbstractBrownianPath):
    """A cubic path of any structure with the increments and areas that a Brownian path would
    report; in place of one, where only the use that is made of the path matters."""

    shape: object
    levy_area: type = eqx.field(static=True, default=dfx.SpaceTimeTimeLevyArea)
    t0 = -4.0
    t1 = 4.0

    def _at(self, t):
        leaves, tree = jax.tree_util.tree_flatten(self.shape)
        out = []
        for i, l in enumerate(leaves):
            z = np.arange(1.0, 1 + int(np.prod(l.shape))).reshape(l.shape) + 0.7 * i
            out.append((np.sin(3 * z) * t + np.cos(5 * z) * t**2 - 0.6 * np.sin(7 * z) * t**3).astype(l.dtype))
        return jax.tree_util.tree_unflatten(tree, out)

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        tm = jax.tree_util.tree_map
        if t1 is None:
            t0, t1 = jnp.zeros_like(t0), t0
        a, b = self._at(t0), self._at(t1)
        W = tm(jnp.subtract, b, a)
        if not use_levy:
            return W
        H = K = tm(jnp.zeros_like, W)
        for x, w in zip(*np.polynomial.legendre.leggauss(4)):
            x, w = float(x + 1) / 2, float(w) / 2
            arch = tm(lambda m, u, v: m - u - x * v, self._at(t0 + x * (t1 - t0)), a, W)
            H = tm(lambda h, r: h + w * r, H, arch)
            K = tm(lambda k, r: k + w * (0.5 - x) * r, K, arch)
        dt = tm(lambda l: (t1 - t0).astype(l.dtype), self.shape)
        kw = dict(H=H, K=K)
        if self.levy_area is dfx.BrownianIncrement:
            kw = {}
        elif self.levy_area is dfx.SpaceTimeLevyArea:
            del kw["K"]
        return self.levy_area(dt=dt, W=W, **kw)


def smooth(shape, levy=dfx.SpaceTimeTimeLevyArea):
    is_shape = lambda x: isinstance(x, tuple) and all(isinstance(i, int) for i in x)
    if is_shape(shape):
        shape = jax.ShapeDtypeStruct(shape, jnp.float64)
    return SmoothPath(shape, levy)


def sde_problem(additive=False, levy=dfx.SpaceTimeTimeLevyArea):
    def drift(t, y, args):
        p = 0.1 if args is None else args
        return jnp.stack([-y[0] + 0.5 * jnp.sin(y[1]), jnp.cos(y[0]) * 0.4 + p * t])

    if additive:

        def diff(t, y, args):
            return jnp.array([[0.3, 0.1], [-0.2, 0.4]]) * (1 + 0.2 * t)

    else:
        # Commutative: diagonal, with each entry depending on its own coordinate.
        def diff(t, y, args):
            return jnp.diag(0.3 + 0.2 * jnp.sin(y)) * (1 + 0.1 * t)

    terms = dfx.MultiTerm(
        dfx.ODETerm(drift), dfx.ControlTerm(diff, bm(levy=levy))
    )
    return terms, jnp.array([0.4, -0.7])


def langevin_problem():
    gamma = jnp.array([0.8, 1.7])
    u = jnp.array([0.5, 1.2])
    terms = dfx.MultiTerm(
        dfx.UnderdampedLangevinDriftTerm(gamma, u, lambda x, *a: jnp.sin(x) + 0.3 * x),
        dfx.UnderdampedLangevinDiffusionTerm(gamma, u, bm()),
    )
    return terms, (jnp.array([0.3, -0.4]), jnp.array([0.1, 0.6]))


@dataclasses.dataclass(frozen=True)
class Spec:
    name: str
    make: Callable[[], Any]
    kind: str  # ode, imex, semi, sde, sde-additive, langevin
    adaptive: bool  # has an embedded error estimate

    def problem(self):
        if self.kind == "ode":
            return ode_problem()
        if self.kind == "imex":
            return imex_problem()
        if self.kind == "semi":
            return semi_problem()
        if self.kind == "sde":
            return sde_problem()
        if self.kind == "sde-additive":
            return sde_problem(additive=True)
        if self.kind == "langevin":
            return langevin_problem()
        raise ValueError(self.kind)


SPECS = [
    Spec("Euler", dfx.Euler, "ode", False),
    Spec("Heun", dfx.Heun, "ode", True),
    Spec("Midpoint", dfx.Midpoint, "ode", True),
    Spec("Ralston", dfx.Ralston, "ode", True),
    Spec("Bosh3", dfx.Bosh3, "ode", True),
    Spec("Tsit5", dfx.Tsit5, "ode", True),
    Spec("Dopri5", dfx.Dopri5, "ode", True),
    Spec("Dopri8", dfx.Dopri8, "ode", True),
    Spec("LeapfrogMidpoint", dfx.LeapfrogMidpoint, "ode", False),
    Spec("ReversibleHeun", dfx.ReversibleHeun, "ode", True),
    Spec("ImplicitEuler", lambda: dfx.ImplicitEuler(root_finder=chord(), root_find_max_steps=60), "ode", True),
    Spec("Kvaerno3", lambda: dfx.Kvaerno3(root_finder=chord(), root_find_max_steps=60), "ode", True),
    Spec("Kvaerno4", lambda: dfx.Kvaerno4(root_finder=chord(), root_find_max_steps=60), "ode", True),
    Spec("Kvaerno5", lambda: dfx.Kvaerno5(root_finder=chord(), root_find_max_steps=60), "ode", True),
    Spec("KenCarp3", lambda: dfx.KenCarp3(root_finder=chord(), root_find_max_steps=60), "imex", True),
    Spec("KenCarp4", lambda: dfx.KenCarp4(root_finder=chord(), root_find_max_steps=60), "imex", True),
    Spec("KenCarp5", lambda: dfx.KenCarp5(root_finder=chord(), root_find_max_steps=60), "imex", True),
    Spec("Sil3", lambda: dfx.Sil3(root_finder=chord(), root_find_max_steps=60), "imex", True),
    Spec("SemiImplicitEuler", dfx.SemiImplicitEuler, "semi", False),
    Spec("EulerHeun", dfx.EulerHeun, "sde", False),
    Spec("ItoMilstein", dfx.ItoMilstein, "sde", False),
    Spec("StratonovichMilstein", dfx.StratonovichMilstein, "sde", False),
    Spec("SPaRK", dfx.SPaRK, "sde", True),
    Spec("GeneralShARK", dfx.GeneralShARK, "sde", False),
    Spec("SlowRK", dfx.SlowRK, "sde", False),
    Spec("ShARK", dfx.ShARK, "sde-additive", True),
    Spec("SRA1", dfx.SRA1, "sde-additive", True),
    Spec("SEA", dfx.SEA, "sde-additive", False),
    Spec("ALIGN", dfx.ALIGN, "langevin", True),
    Spec("ShOULD", dfx.ShOULD, "langevin", False),
    Spec("QUICSORT", dfx.QUICSORT, "langevin", False),
    Spec("Euler-sde", dfx.Euler, "sde", False),
    Spec("Heun-sde", dfx.Heun, "sde", True),
    Spec("Midpoint-sde", dfx.Midpoint, "sde", True),
    Spec("ReversibleHeun-sde", dfx.ReversibleHeun, "sde", True),
    Spec("Half-Euler", lambda: dfx.HalfSolver(dfx.Euler()), "ode", True),
    Spec("Half-Heun", lambda: dfx.HalfSolver(dfx.Heun()), "ode", True),
]
BY_NAME = {s.name: s for s in SPECS}


class ReplayController(dfx.AbstractStepSizeController):
    """As scripted.ScriptController, but for any `y`: follows a script of actions."""

    script: jax.Array

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return t0 + dt0, jnp.array(0)

    def adapt_step_size(
        self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state
    ):
        from . import scripted as S

        i = controller_state
        k = self.script.shape[0]
        act = jnp.where(i < k, self.script[jnp.minimum(i, k - 1)], S.IDX["a1"])
        keep = jnp.asarray(S._KEEP)[act]
        jump = jnp.asarray(S._JUMP)[act]
        factor = jnp.asarray(S._FACTOR)[act].astype(jnp.result_type(t0))
        next_t0 = jnp.where(keep, t1, t0)
        next_t1 = next_t0 + factor * (t1 - t0)
        return keep, next_t0, next_t1, jump, i + 1, dfx.RESULTS.successful


def leaves(tree):
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(tree)]


def tree_close(a, b, rtol=1e-9, atol=1e-9):
    la, lb = leaves(a), leaves(b)
    return len(la) == len(lb) and all(
        x.shape == y.shape and np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True)
        for x, y in zip(la, lb)
    )


def tree_index(tree, i):
    return jax.tree_util.tree_map(lambda x: x[i], tree)
