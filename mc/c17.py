"""C17: every SDE solver converges to the solution it documents (Ito or Stratonovich), with its
strong order for each kind of noise.

The local error of a step of an SDE solver is, for *every* smooth drift and diffusion, a
combination of one number per rooted tree whose nodes are coloured as drift (weight 2) or i-th
noise (weight 1).  The number for tau is what the solver computes for the component y_tau of

    dy_tau = product of y_c over the children c of tau  dX^(colour of the root),   y(0) = 0.

All coloured trees up to a weight are enumerated, and steps of the real solver are run on the
system of all of them, driven by polynomial paths X whose increments and Levy areas (W, H, K) run
over a grid.  Strong order p needs

 - every tree of weight <= 2p to be exact, path by path (the exact value is an iterated integral of
   the polynomial path: Stratonovich calculus is ordinary calculus); and
 - every tree of weight 2p + 1 to be exact in the mean.  The mean over the law of (W, H, K) is
   computed exactly by Gauss-Hermite quadrature, as everything is a polynomial in them; the exact
   mean comes from expanding the tree into iterated integrals (shuffle product).
"""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from numpy.polynomial import Polynomial as P

from . import common

BOUNDS = (
    "all coloured rooted trees (drift weight 2, noise weight 1) up to weight 4 (thorough: the same, "
    "more paths) for one noise, up to weight 2 for two noises, with dependence via the state and via "
    "time x 27 (thorough 125) paths (W, H, K) x 3 step sizes x 1..3 steps x every SDE solver; means "
    "by exact quadrature with 6^3 nodes; two commuting noises: 3 nonlinear systems x 12 paths x 2 "
    "scales"
)


def weights(colours):
    return [2] + [1] * (colours - 1)


def forest(maxw, noises, additive=False):
    """Trees as (colour, children ids), colour 0: drift; in order of weight."""
    W = weights(noises + 1)
    trees, wt = [], []

    def multisets(total, maxid):
        if total == 0:
            yield ()
            return
        for i in range(maxid, -1, -1):
            if wt[i] <= total:
                for rest in multisets(total - wt[i], i):
                    yield (i,) + rest

    for n in range(1, maxw + 1):
        new = []
        for c in range(noises + 1):
            if W[c] > n:
                continue
            for ms in multisets(n - W[c], len(trees) - 1):
                if additive and c > 0 and ms:
                    continue
                new.append((c, ms))
        trees += new
        wt += [n] * len(new)
    return trees, np.array(wt)


def describe(trees, i):
    c, ms = trees[i]
    name = "f" if c == 0 else f"g{c}"
    return name + ("[" + ",".join(describe(trees, j) for j in ms) + "]" if ms else "")


def time_forest(maxw, noises):
    """Additive noise, with the diffusion depending on time: nodes g[t, ..., t]."""
    trees, wt = forest(maxw, noises)
    keep = [
        i
        for i, (c, ms) in enumerate(trees)
        if all(trees[j] == (0, ()) for j in ms) or c == 0
    ]
    ok = []
    idx = {}
    for i in keep:
        c, ms = trees[i]
        if all(j in idx for j in ms):
            idx[i] = len(ok)
            ok.append((c, tuple(idx[j] for j in ms)))
    W = weights(noises + 1)
    ww = []
    for c, ms in ok:
        ww.append(W[c] + sum(ww[j] for j in ms))
    return ok, np.array(ww)


class PolyPath(dfx.AbstractBrownianPath):
    """A polynomial path, with the W, H and K that a Brownian path would report."""

    coeffs: jax.Array  # (noises, degree + 1), in t - origin
    origin: float = 0.0
    levy_area: type = eqx.field(static=True, default=dfx.SpaceTimeTimeLevyArea)

    @property
    def t0(self):
        return -jnp.inf

    @property
    def t1(self):
        return jnp.inf

    def _at(self, t):
        t = t - self.origin
        out = jnp.zeros(self.coeffs.shape[0])
        for k in range(self.coeffs.shape[1] - 1, -1, -1):
            out = out * t + self.coeffs[:, k]
        return out

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        assert t1 is not None
        h = t1 - t0
        W = self._at(t1) - self._at(t0)
        if not use_levy:
            return W
        x, w = np.polynomial.legendre.leggauss(6)
        x, w = (x + 1) / 2, w / 2
        H = K = 0.0
        for xi, wi in zip(x, w):
            arch = self._at(t0 + xi * h) - self._at(t0) - xi * W
            H = H + wi * arch
            K = K + wi * arch * (0.5 - xi)
        if self.levy_area is dfx.BrownianIncrement:
            return dfx.BrownianIncrement(dt=h, W=W)
        if self.levy_area is dfx.SpaceTimeLevyArea:
            return dfx.SpaceTimeLevyArea(dt=h, W=W, H=H)
        return dfx.SpaceTimeTimeLevyArea(dt=h, W=W, H=H, K=K)


def path_coeffs(h, W, H, K):
    """Coefficients of the cubic path over [0, h] with these W, H, K."""
    s = P([0, 1 / h])
    p = W * s + 6 * H * s * (1 - s) + 120 * K * s * (1 - s) * (0.5 - s)
    c = np.zeros(4)
    c[: len(p.coef)] = p.coef
    return c


def _selftest():
    for h, W, H, K, t0 in [(0.5, 1.0, 0.3, -0.2, 0.0), (0.25, -0.4, 0.2, 0.7, 1.0)]:
        c = path_coeffs(h, W, H, K)
        out = PolyPath(jnp.asarray(c)[None], t0).evaluate(t0, t0 + h, use_levy=True)
        assert np.allclose([out.W[0], out.H[0], out.K[0]], [W, H, K])


def exact(trees, coeffs, t1):
    """Iterated integrals over polynomial paths, per tree."""
    drv = [P([0.0, 1.0])] + [P(c) for c in coeffs]
    out = []
    for c, ms in trees:
        q = P([1.0])
        for j in ms:
            q = q * out[j]
        q = q * drv[c].deriv()
        I = q.integ()
        out.append(I - I(0.0))
    return np.array([q(t1) for q in out])


# words: tuples of letters -> coefficient; Stratonovich iterated integrals of Brownian motion
def shuffle(u, v):
    if not u:
        return {v: 1.0}
    if not v:
        return {u: 1.0}
    out = {}
    for a, b, last in ((u[:-1], v, u[-1]), (u, v[:-1], v[-1])):
        for w, k in shuffle(a, b).items():
            w = w + (last,)
            out[w] = out.get(w, 0.0) + k
    return out


def words_of(trees):
    out = []
    for c, ms in trees:
        acc = {(): 1.0}
        for j in ms:
            new = {}
            for w1, k1 in acc.items():
                for w2, k2 in out[j].items():
                    for w, k in shuffle(w1, w2).items():
                        new[w] = new.get(w, 0.0) + k * k1 * k2
            acc = new
        out.append({w + (c,): k for w, k in acc.items()})
    return out


def mean_word(w, h):
    """E of the Stratonovich integral: pairs of equal neighbouring noises become dt/2."""
    n, i, f = 0, 0, 1.0
    while i < len(w):
        if w[i] == 0:
            i += 1
        elif i + 1 < len(w) and w[i + 1] == w[i]:
            i += 2
            f /= 2
        else:
            return 0.0
        n += 1
        f *= h / n
    return f


def strat_means(trees, h):
    return np.array([sum(k * mean_word(w, h) for w, k in ws.items()) for ws in words_of(trees)])


def make_terms(trees, noises, control, via_time, t0):
    n = len(trees)
    leaf_f = [i for i, tr in enumerate(trees) if tr == (0, ())]

    def val(t, y, j):
        if via_time and j in leaf_f:
            return t - t0
        return y[j]

    def prods(t, y, colour):
        # Only looks at what it needs: an additive diffusion must not depend on y at all.
        out = []
        for c, ms in trees:
            q = jnp.ones(())
            for j in ms if c == colour else ():
                q = q * val(t, y, j)
            out.append(q if c == colour else 0.0 * q)
        return jnp.stack(out)

    def drift(t, y, args):
        return prods(t, y, 0)

    def diff(t, y, args):
        return jnp.stack([prods(t, y, k) for k in range(1, noises + 1)], axis=-1)

    return dfx.MultiTerm(dfx.ODETerm(drift), dfx.ControlTerm(diff, control))


def runner(make, trees, noises, via_time, t0, nsteps, levy):
    """(coeffs, h) -> final y, of nsteps steps of the real solver."""

    @eqx.filter_jit
    @ft.partial(jax.vmap, in_axes=(0, None))
    def run(coeffs, h):
        control = PolyPath(coeffs, t0, levy)
        terms = make_terms(trees, noises, control, via_time, t0)
        sol = dfx.diffeqsolve(
            terms,
            make(),
            t0,
            t0 + nsteps * h,
            None,
            jnp.zeros(len(trees)),
            stepsize_controller=dfx.StepTo(ts=t0 + h * jnp.arange(nsteps + 1)),
            adjoint=dfx.DirectAdjoint(),
        )
        return sol.ys[0]

    return run


# name -> (solver, calculus, Levy area it needs, orders: general, commutative, additive)
SOLVERS = {
    "Euler": (dfx.Euler, "ito", dfx.BrownianIncrement, 0.5, 0.5, 1.0),
    "Half-Euler": (lambda: dfx.HalfSolver(dfx.Euler()), "ito", dfx.BrownianIncrement, 0.5, 0.5, 1.0),
    "ItoMilstein": (dfx.ItoMilstein, "ito", dfx.BrownianIncrement, None, 1.0, 1.0),
    "StratonovichMilstein": (dfx.StratonovichMilstein, "strat", dfx.BrownianIncrement, 0.5, 1.0, 1.0),
    "EulerHeun": (dfx.EulerHeun, "strat", dfx.BrownianIncrement, 0.5, 0.5, 1.0),
    "Half-EulerHeun": (lambda: dfx.HalfSolver(dfx.EulerHeun()), "strat", dfx.BrownianIncrement, 0.5, 0.5, 1.0),
    "Heun": (dfx.Heun, "strat", dfx.BrownianIncrement, 0.5, 1.0, 1.0),
    "Midpoint": (dfx.Midpoint, "strat", dfx.BrownianIncrement, 0.5, 1.0, 1.0),
    "Ralston": (dfx.Ralston, "strat", dfx.BrownianIncrement, 0.5, 1.0, 1.0),
    "ReversibleHeun": (dfx.ReversibleHeun, "strat", dfx.BrownianIncrement, 0.5, 0.5, 1.0),
    "SPaRK": (dfx.SPaRK, "strat", dfx.SpaceTimeLevyArea, 0.5, 1.0, 1.5),
    "GeneralShARK": (dfx.GeneralShARK, "strat", dfx.SpaceTimeLevyArea, 0.5, 1.0, 1.5),
    "SlowRK": (dfx.SlowRK, "strat", dfx.SpaceTimeLevyArea, 0.5, 1.5, 1.5),
    "ShARK": (dfx.ShARK, "strat", dfx.SpaceTimeLevyArea, None, None, 1.5),
    "SRA1": (dfx.SRA1, "strat", dfx.SpaceTimeLevyArea, None, None, 1.5),
    "SEA": (dfx.SEA, "strat", dfx.SpaceTimeLevyArea, None, None, 1.0),
}
TAYLOR_3_TOO = ("SEA",)  # documented: local error O(h^2), i.e. trees of weight 3 are exact, too


def whk_grid(tier):
    n = 3 if tier == "quick" else 5
    v = np.linspace(-1, 1.2, n)
    return list(itertools.product(v, 0.5 * v + 0.1, 0.3 * v - 0.05))


def pathwise(name, noise, via_time, tier):
    """Trees of weight <= 2p are exact, path by path, after 1..3 steps."""
    rep = common.Report()
    make, calculus, levy, general, comm, add = SOLVERS[name]
    p = add if noise == "additive" else comm
    w = int(round(2 * p)) + (name in TAYLOR_3_TOO)
    if noise == "additive":
        trees, wt = time_forest(w, 1) if via_time else forest(w, 1, additive=True)
    else:
        trees, wt = forest(w, 1)
    t0 = 0.5 if via_time else 0.0
    for nsteps in (1, 2, 3) if tier == "thorough" else (1, 3):
        run = runner(make, trees, 1, via_time, t0, nsteps, levy)
        for h in (0.5, 1.0) if nsteps > 1 else (0.25, 0.5, 1.0):
            T = nsteps * h
            cs = np.array([path_coeffs(T, *x) for x in whk_grid(tier)])
            got = np.asarray(run(jnp.asarray(cs)[:, None], h))
            for c, x, g in zip(cs, whk_grid(tier), got):
                rep.state(nsteps, h, x)
                rep.transitions += nsteps * len(trees)
                rep.traces += 1
                want = exact(trees, c[None], T)
                if calculus == "ito":
                    # Of weight <= 2 only g[g] differs: minus half the quadratic variation.
                    for i, tr in enumerate(trees):
                        if tr[0] == 1 and [trees[j] for j in tr[1]] == [(1, ())]:
                            want[i] -= T / 2
                bad = np.flatnonzero(np.abs(g - want) > 1e-9 * (1 + np.abs(want)))
                for i in bad:
                    rep.fail(
                        "a step disagrees with the stochastic Taylor expansion",
                        solver=name, noise=noise, tree=describe(trees, i), via_time=via_time,
                        h=h, steps=nsteps, whk=x, got=g[i], want=want[i],
                    )
    rep.sample(dict(solver=name, trees=[describe(trees, i) for i in range(len(trees))][:12]))
    return rep


def in_mean(name, noise, via_time, noises):
    """Trees of weight 2p + 1 are exact in the mean, over one step."""
    rep = common.Report()
    make, calculus, levy, general, comm, add = SOLVERS[name]
    p = {"general": general, "commutative": comm, "additive": add}[noise]
    w = int(round(2 * p)) + 1
    if noise == "additive":
        trees, wt = time_forest(w, noises) if via_time else forest(w, noises, additive=True)
    else:
        trees, wt = forest(w, noises)
    t0 = 0.5 if via_time else 0.0
    run = runner(make, trees, noises, via_time, t0, 1, levy)
    nodes = 6 if noises == 1 else 4
    x, q = np.polynomial.hermite_e.hermegauss(nodes)
    q = q / q.sum()
    needs = {
        dfx.BrownianIncrement: 1,
        dfx.SpaceTimeLevyArea: 2,
    }[levy]
    for h in (0.25, 1.0):
        sd = np.sqrt(h * np.array([1, 1 / 12, 1 / 720]))
        dims = noises * needs
        cs, qs = [], []
        for ii in itertools.product(range(nodes), repeat=dims):
            v = np.zeros((noises, 3))
            v[:, :needs] = np.reshape([x[i] for i in ii], (noises, needs))
            cs.append([path_coeffs(h, *(sd * v[k])) for k in range(noises)])
            qs.append(np.prod([q[i] for i in ii]))
        got = np.asarray(run(jnp.asarray(np.array(cs)), h))
        mean = np.tensordot(np.array(qs), got, axes=1)
        want = strat_means(trees, h)
        if calculus == "ito":
            # E of an Ito integral vanishes; of weight <= 2 only trees without noise remain.
            assert w <= 3
            for i, ws in enumerate(words_of(trees)):
                if wt[i] <= 2:
                    want[i] = h if trees[i] == (0, ()) else 0.0
        rep.transitions += len(cs) * len(trees)
        rep.traces += len(cs)
        rep.state(h)
        for i in range(len(trees)):
            rep.state(h, i)
            if calculus == "ito" and wt[i] > 2:
                continue
            rep.check(
                abs(mean[i] - want[i]) <= 1e-9,
                "the mean of a step disagrees with the mean of the exact solution",
                solver=name, noise=noise, tree=describe(trees, i), via_time=via_time, h=h,
                got=mean[i], want=want[i],
            )
    return rep


# Weight up to which the error estimate vanishes (it is the difference to another method).
ERRORS = {
    "Half-Euler": 1, "Half-EulerHeun": 2, "Heun": 1, "Midpoint": 1, "Ralston": 1,
    "ReversibleHeun": 1, "SPaRK": 2, "ShARK": 2, "SRA1": 2,
}


def error_scn(name, tier):
    rep = common.Report()
    make, calculus, levy, general, comm, add = SOLVERS[name]
    w = ERRORS[name]
    trees, wt = forest(w + 2, 1, additive=comm is None)
    solver = make()

    @eqx.filter_jit
    @ft.partial(jax.vmap, in_axes=(0, None))
    def run(coeffs, h):
        terms = make_terms(trees, 1, PolyPath(coeffs, 0.0, levy), False, 0.0)
        y0 = jnp.zeros(len(trees))
        st = solver.init(terms, 0.0, h, y0, None)
        return solver.step(terms, 0.0, h, y0, None, st, False)[1]

    for h in (0.25, 1.0):
        cs = np.array([path_coeffs(h, *x) for x in whk_grid(tier)])
        got = np.asarray(run(jnp.asarray(cs)[:, None], h))
        rep.traces += len(cs)
        rep.transitions += got.size
        for i in range(len(trees)):
            rep.state(h, i)
            rep.check(
                wt[i] > w or np.all(np.abs(got[:, i]) < 1e-10),
                "the error estimate does not vanish with the order of the method",
                solver=name, tree=describe(trees, i), h=h, got=got[:, i],
            )
        rep.check(
            np.any(np.abs(got) > 1e-3, axis=1).mean() > 0.9,
            "the error estimate vanishes identically", solver=name, h=h,
        )
    return rep


# --- several commuting noises ---------------------------------------------------------------


def commuting(kind):
    """(drift, diffusion, y0, change of coordinates): y = phi(x), dx = a(x) dt + dX."""
    A = np.array([[0.3, -0.2], [0.4, 0.1]])
    if kind == "linear":  # commuting matrices: polynomials of one matrix
        B1, B2 = A, 0.5 * np.eye(2) - 0.7 * A @ A
        diff = lambda t, y, args: jnp.stack([B1 @ y, B2 @ y], axis=-1)
        drift = lambda t, y, args: jnp.stack([jnp.sin(y[1]), y[0] * y[1] - 0.3 * y[0]])
        return drift, diff, np.array([0.7, -0.4])
    if kind == "diagonal":
        diff = lambda t, y, args: jnp.diag(0.5 + 0.4 * jnp.sin(y))
        drift = lambda t, y, args: jnp.stack([jnp.cos(y[0] * y[1]), y[0] ** 2 - y[1]])
        return drift, diff, np.array([0.2, 0.6])
    # straightened: y = phi(x), with the noises along x1 and x2
    def phi(x):
        return jnp.stack([x[0] + 0.5 * x[1] ** 2, x[1], x[2] + 0.5 * x[0] * x[1]])

    def inv(y):
        x0 = y[0] - 0.5 * y[1] ** 2
        return jnp.stack([x0, y[1], y[2] - 0.5 * x0 * y[1]])

    def diff(t, y, args):
        return jax.jacfwd(phi)(inv(y))[:, :2]

    def drift(t, y, args):
        x = inv(y)
        return jax.jacfwd(phi)(x) @ jnp.stack([x[1] * x[2], jnp.sin(x[0]), -x[2] + x[0]])

    return drift, diff, np.array(phi(jnp.array([0.3, 0.2, -0.1])))


def commuting_scn(name, kind):
    """The error of a step scales as it must: exact up to weight 2p."""
    rep = common.Report()
    make, calculus, levy, general, comm, add = SOLVERS[name]
    drift, diff, y0 = commuting(kind)
    paths = [
        [(1.0, 0.2, 0.05), (-0.7, 0.3, 0.1)],
        [(0.3, -0.5, 0.1), (0.9, 0.1, -0.2)],
        [(-1.1, 0.0, 0.0), (0.4, 0.0, 0.0)],
        [(0.2, 0.6, -0.1), (-0.3, -0.4, 0.1)],
    ]
    if calculus == "ito":
        # Ito to Stratonovich: subtract half of g'g
        def sdrift(t, y, args):
            g = diff(t, y, args)
            corr = 0
            for k in range(g.shape[1]):
                corr = corr + jax.jvp(lambda y: diff(t, y, args)[:, k], (y,), (g[:, k],))[1]
            return drift(t, y, args) - 0.5 * corr

    else:
        sdrift = drift

    @eqx.filter_jit
    def one(coeffs, h):
        terms = dfx.MultiTerm(dfx.ODETerm(drift), dfx.ControlTerm(diff, PolyPath(coeffs, 0.0, levy)))
        return dfx.diffeqsolve(
            terms, make(), 0.0, h, h, jnp.asarray(y0), adjoint=dfx.DirectAdjoint()
        ).ys[0]

    @eqx.filter_jit
    def ref(coeffs, h):
        def f(t, y):
            dX = jax.jvp(PolyPath(coeffs)._at, (t,), (jnp.ones_like(t),))[1]
            return sdrift(t, y, None) + diff(t, y, None) @ dX

        n = 100
        d = h / n

        def body(i, y):
            t = i * d
            k1 = f(t, y)
            k2 = f(t + d / 2, y + d / 2 * k1)
            k3 = f(t + d / 2, y + d / 2 * k2)
            k4 = f(t + d, y + d * k3)
            return y + d / 6 * (k1 + 2 * k2 + 2 * k3 + k4)

        return jax.lax.fori_loop(0, n, body, jnp.asarray(y0))

    w = int(round(2 * comm))
    for i, path in enumerate(paths):
        errs = []
        for e in (0.08, 0.04, 0.02, 0.01):
            h = e**2
            cs = jnp.asarray([path_coeffs(h, *(e * np.array(x))) for x in path])
            errs.append(float(jnp.max(jnp.abs(one(cs, h) - ref(cs, h)))))
            rep.transitions += 1
        rep.traces += 1
        rep.state(i)
        # error = C eps^(w+1) (1 + O(eps)); at least so
        # (the leading term may vanish for some path; then a single ratio tells nothing)
        le = np.log2(np.array(errs) + 1e-15)
        slope = max(le[1] - le[2], le[2] - le[3], (le[0] - le[3]) / 3)
        ok = errs[3] < 1e-11 or slope > w + 0.5
        rep.check(
            ok, "the error of a step with commuting noises decays too slowly",
            solver=name, kind=kind, path=path, errors=errs, slope=slope, expected=w + 1,
        )
        rep.outcome(f"slope {slope:.1f}")
    return rep


def SCENARIOS(tier):
    _selftest()
    out = []
    for name, (make, calculus, levy, general, comm, add) in SOLVERS.items():
        # The two halves of a polynomial path are not independent: no means there.
        half = name.startswith("Half")
        if add is not None:
            for vt in (False, True) if tier == "thorough" or name in ("SPaRK", "SEA") else (True,):
                out.append((f"additive/{name}/{vt}", ft.partial(pathwise, name, "additive", vt, tier)))
                if not half:
                    out.append((f"additive-mean/{name}/{vt}", ft.partial(in_mean, name, "additive", vt, 1)))
        if comm is not None:
            for vt in (False, True) if tier == "thorough" or name in ("SPaRK", "SlowRK", "GeneralShARK") else (True,):
                out.append((f"scalar/{name}/{vt}", ft.partial(pathwise, name, "commutative", vt, tier)))
                if not half:
                    out.append((f"scalar-mean/{name}/{vt}", ft.partial(in_mean, name, "commutative", vt, 1)))
            for kind in ("linear", "diagonal", "straightened") if tier == "thorough" or name == "SlowRK" else ("diagonal", "straightened"):
                out.append((f"commuting/{name}/{kind}", ft.partial(commuting_scn, name, kind)))
        if name in ERRORS:
            out.append((f"error/{name}", ft.partial(error_scn, name, tier)))
        if general is not None and not half:
            out.append((f"general-mean/{name}", ft.partial(in_mean, name, "general", False, 2)))
    return out
