"""C16: every deterministic solver has its order, error estimate, dense output and stability.

For a Runge--Kutta-like method the error of a step, for *every* smooth vector field, is a
combination of one number per rooted tree (Butcher).  The number for the tree tau is what one
step of the method computes for the component y_tau of the system

    y_tau' = product of y_c over the children c of tau,     y(0) = 0,

whose exact solution is h^|tau| / gamma(tau).  All rooted trees up to the order are enumerated,
and one step of the real solver is run on the system of all of them; so this decides the order
conditions for all vector fields, not for an example.  For methods with several terms the trees
are coloured; for the dependence on time the leaves are replaced by t itself."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx

from . import common, zoo

BOUNDS = (
    "all rooted trees up to order p + 1 (p: the order of the method; up to order 9, 486 trees), "
    "all two-coloured trees up to order 5 (286) for IMEX methods and sums of terms, via state and "
    "via time, x 3 step sizes and starting times, forwards and backwards x solution, error "
    "estimate, dense output at 11 points; every scan_kind; linear stability on a grid of 60 "
    "points of the left half plane; multistep methods: all trees up to order 3 x 5 step counts"
)


def forest(maxorder, colours=1):
    trees, order, gamma = [], [], []

    def multisets(total, maxid):
        if total == 0:
            yield ()
            return
        for i in range(maxid, -1, -1):
            if order[i] <= total:
                for rest in multisets(total - order[i], i):
                    yield (i,) + rest

    for n in range(1, maxorder + 1):
        new = [(c, ms) for ms in multisets(n - 1, len(trees) - 1) for c in range(colours)]
        trees += new
        order += [n] * len(new)
    for (c, ms), n in zip(trees, order):
        gamma.append(n * np.prod([gamma[i] for i in ms]))
    return trees, np.array(order), np.array(gamma, float)


assert [int((forest(7)[1] == n).sum()) for n in range(1, 8)] == [1, 1, 2, 4, 9, 20, 48]
assert [int((forest(4, 2)[1] == n).sum()) for n in range(1, 5)] == [2, 4, 14, 52]


def describe(trees, i):
    c, ms = trees[i]
    return "ab"[c] + ("[" + "".join(describe(trees, j) for j in ms) + "]" if ms else "")


def field(trees, colour, time, t0):
    N = len(trees)
    m = max(1, max(len(ms) for _, ms in trees))
    idx = np.full((N, m), N)
    for i, (c, ms) in enumerate(trees):
        for j, k in enumerate(ms):
            idx[i, j] = N + 1 if (time and trees[k][1] == ()) else k
    mask = np.array([1.0 if colour is None or c == colour else 0.0 for c, _ in trees])

    def f(t, y, args):
        ye = jnp.concatenate([y, jnp.array([1.0]), jnp.asarray(t - t0)[None]])
        return jnp.prod(ye[idx], axis=1) * mask

    return f


def chord():
    return dict(root_finder=zoo.chord(1e-13), root_find_max_steps=100)


# name: (make, order, order up to which the error estimate vanishes, order of dense output)
ODE = {
    "Euler": (dfx.Euler, 1, None, 1),
    "Heun": (dfx.Heun, 2, 1, 2),
    "Midpoint": (dfx.Midpoint, 2, 1, 2),
    "Ralston": (dfx.Ralston, 2, 1, 2),
    "Bosh3": (dfx.Bosh3, 3, 2, 3),
    "Tsit5": (dfx.Tsit5, 5, 4, 4),
    "Dopri5": (dfx.Dopri5, 5, 4, 4),
    "Dopri8": (dfx.Dopri8, 8, 7, 5),
    "ImplicitEuler": (lambda: dfx.ImplicitEuler(**chord()), 1, 1, 1),
    "Kvaerno3": (lambda: dfx.Kvaerno3(**chord()), 3, 2, 3),
    "Kvaerno4": (lambda: dfx.Kvaerno4(**chord()), 4, 3, 3),
    "Kvaerno5": (lambda: dfx.Kvaerno5(**chord()), 5, 4, 3),
    "Half-Euler": (lambda: dfx.HalfSolver(dfx.Euler()), 1, 1, 1),
    "Half-Heun": (lambda: dfx.HalfSolver(dfx.Heun()), 2, 2, 2),
    "Half-Dopri5": (lambda: dfx.HalfSolver(dfx.Dopri5()), 5, 5, 4),
    "Half-Kvaerno3": (lambda: dfx.HalfSolver(dfx.Kvaerno3(**chord())), 3, 3, 3),
}
IMEX = {
    "KenCarp3": (lambda: dfx.KenCarp3(**chord()), 3, 2, 2),
    "KenCarp4": (lambda: dfx.KenCarp4(**chord()), 4, 3, 3),
    "KenCarp5": (lambda: dfx.KenCarp5(**chord()), 5, 4, 3),
    "Sil3": (lambda: dfx.Sil3(**chord()), 2, 1, 2),
}
# Embedded pairs that are known in closed form (A, b, b_hat): the error estimate is exactly the
# difference of the two solutions.
PAIRS = {
    "Heun": ([[], [1]], [1 / 2, 1 / 2], [1, 0]),
    "Midpoint": ([[], [1 / 2]], [0, 1], [1, 0]),
    "Ralston": ([[], [2 / 3]], [1 / 4, 3 / 4], [1, 0]),
    "Bosh3": (
        [[], [1 / 2], [0, 3 / 4], [2 / 9, 1 / 3, 4 / 9]],
        [2 / 9, 1 / 3, 4 / 9, 0],
        [7 / 24, 1 / 4, 1 / 3, 1 / 8],
    ),
    "Dopri5": (
        [
            [],
            [1 / 5],
            [3 / 40, 9 / 40],
            [44 / 45, -56 / 15, 32 / 9],
            [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729],
            [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656],
            [35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84],
        ],
        [35 / 384, 0, 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84, 0],
        [1951 / 21600, 0, 22642 / 50085, 451 / 720, -12231 / 42400, 649 / 6300, 1 / 60],
    ),
}


def pair_error(name, trees, order, h):
    """The error estimate of an embedded pair on all trees, by elementary weights."""
    A, b, bh = PAIRS[name]
    s = len(b)
    M = np.zeros((s, s))
    for i, row in enumerate(A):
        M[i, : len(row)] = row
    stage, w = [], []
    for c, ms in trees:
        phi = np.ones(s)
        for k in ms:
            phi = phi * (M @ stage[k])
        stage.append(phi)
        w.append((np.array(b) - np.array(bh)) @ phi)
    return np.array(w) * h**order


def one_step(sol, terms, t0, t1, y0, th):
    t0, t1 = jnp.asarray(t0), jnp.asarray(t1)
    st = sol.init(terms, t0, t1, y0, None)
    y1, err, dense, st, res = sol.step(terms, t0, t1, y0, None, st, jnp.array(False))
    it = sol.interpolation_cls(t0=t0, t1=t1, **dense)
    D = jax.vmap(lambda x: it.evaluate(x))(t0 + th * (t1 - t0))
    return y1, err, D, common.result_codes(res)


STEPS = [(0.0, 1.0), (0.3, 0.55), (1.0, 0.5)]


def order_of(name, colours, time, th_n=11):
    rep = common.Report()
    make, p, pe, pd = (IMEX if name in IMEX else ODE)[name]
    sol = make()
    if colours == 2:
        top = min(p + 1, 5) if name in IMEX else min(p + 1, 4)
    else:
        top = p + 1
    trees, order, gamma = forest(top, colours)
    th = np.linspace(0, 1, th_n)
    y0 = jnp.zeros(len(trees))
    for t0, t1 in STEPS:
        if colours == 1:
            terms = dfx.ODETerm(field(trees, None, time, t0))
        else:
            terms = dfx.MultiTerm(*[dfx.ODETerm(field(trees, c, time, t0)) for c in range(2)])
        case = dict(solver=name, t0=t0, t1=t1, via_time=time)
        rep.check(sol.order(terms) == p, "claimed order", got=sol.order(terms), want=p, **case)
        want_eo = p if pe is None else pe + 1
        if name == "Sil3":
            want_eo = 2
        rep.check(sol.error_order(terms) == want_eo, "claimed order of the error estimate", got=sol.error_order(terms), want=want_eo, **case)
        y1, err, D, res = jax.device_get(eqx.filter_jit(one_step)(sol, terms, t0, t1, y0, th))
        h = t1 - t0
        exact = h**order / gamma
        unit = np.abs(h) ** order
        rep.check(res == 0, "a step failed", **case)
        tol = 1e-9
        bad = np.where((np.abs(y1 - exact) > tol * unit) & (order <= p))[0]
        for i in bad[:2]:
            rep.fail("order condition of the solution", tree=describe(trees, i), order=order[i], got=y1[i] / unit[i], want=exact[i] / unit[i], **case)
        if name == "Sil3":
            # (for linear problems)
            i = [describe(trees, i) for i in range(len(trees))].index("a[a[a]]")
            rep.check(abs(y1 - exact)[i] < tol, "third order in the explicit term", **case)
        if pe is None:
            rep.check(err is None, "error estimate of a method without", **case)
        else:
            bad = np.where((np.abs(err) > tol * unit) & (order <= pe))[0]
            for i in bad[:2]:
                rep.fail("order condition of the error estimate", tree=describe(trees, i), order=order[i], got=err[i] / unit[i], **case)
            if name != "Sil3" and order.max() > pe:
                rep.check(np.any((np.abs(err) > 1e-6 * unit) & (order == pe + 1)), "error estimate vanishes at its leading order", **case)
            if name in PAIRS:
                rep.check(np.allclose(np.abs(err), np.abs(pair_error(name, trees, order, h)), atol=1e-9), "error estimate is not the difference of the embedded solutions", **case)
        for j, x in enumerate(th):
            ex = (x * h) ** order / gamma
            bad = np.where((np.abs(D[j] - ex) > tol * unit) & (order <= pd))[0]
            for i in bad[:1]:
                rep.fail("order condition of the dense output", tree=describe(trees, i), order=order[i], theta=x, got=D[j][i] / unit[i], want=ex[i] / unit[i], **case)
        if not name.startswith("Half"):
            rep.check(np.allclose(D[-1], y1, atol=1e-9) and np.allclose(D[0], 0, atol=1e-12), "dense output at the ends", **case)
        rep.extra_states += len(trees)
        rep.transitions += len(trees) * (2 + th_n)
        rep.traces += 1
    rep.sample(dict(case, trees=len(trees), example=describe(trees, len(trees) - 1)))
    return rep


def variants(name):
    """Every way of running the stages computes the same thing."""
    rep = common.Report()
    colours = 2 if name in IMEX else 1
    make = (IMEX if name in IMEX else ODE)[name][0]
    trees, order, gamma = forest(4 if colours == 1 else 3, colours)
    y0 = jnp.linspace(0.1, 0.4, len(trees))
    if colours == 1:
        terms = dfx.ODETerm(field(trees, None, True, 0.2))
    else:
        terms = dfx.MultiTerm(*[dfx.ODETerm(field(trees, c, True, 0.2)) for c in range(2)])
    th = np.linspace(0, 1, 4)
    outs = []
    for kind in (None, "lax", "checkpointed", "bounded"):
        sol = make()
        sol = eqx.tree_at(lambda s: s.scan_kind, sol, kind, is_leaf=lambda x: x is None)
        outs.append(jax.device_get(eqx.filter_jit(one_step)(sol, terms, 0.1, 0.6, y0, th)))
        rep.state(name, kind)
        rep.transitions += 1
        rep.traces += 1
        rep.check(zoo.tree_close(outs[-1], outs[0], 1e-11, 1e-11), "result depends on how the stages are looped", solver=name, kind=kind)
    rep.sample(dict(solver=name))
    return rep


def stability(name):
    """A- and L-stability of the implicit methods."""
    rep = common.Report()
    make = (IMEX if name in IMEX else ODE)[name][0]
    sol = make()

    def step(re, im):
        L = jnp.array([[re, -im], [im, re]])
        lin = dfx.ODETerm(lambda t, y, args: L @ y)
        terms = dfx.MultiTerm(dfx.ODETerm(lambda t, y, args: jnp.zeros_like(y)), lin) if name in IMEX else lin
        y1, _, _, res = one_step(sol, terms, 0.0, 1.0, jnp.array([1.0, 0.0]), np.linspace(0, 1, 2))
        return jnp.hypot(*y1), res

    rs = 10.0 ** np.arange(-2, 7)
    angs = np.linspace(np.pi / 2, np.pi, 7)
    pts = [(r * np.cos(a), r * np.sin(a)) for r in rs for a in angs]
    z = np.array(pts)
    R, res = jax.device_get(eqx.filter_jit(jax.vmap(step))(z[:, 0], z[:, 1]))
    for (re, im), r, ok in zip(pts, R, res):
        rep.state(re, im)
        rep.transitions += 1
        rep.check(ok == 0 and r <= 1 + 1e-6, "not A-stable", solver=name, z=(re, im), got=r)
        if np.hypot(re, im) >= 1e6:
            rep.check(r < 1e-3, "not L-stable", solver=name, z=(re, im), got=r)
    rep.traces += len(pts)
    rep.sample(dict(solver=name, R=R[:3]))
    return rep


def multistep(name):
    """Convergence of the methods with memory: the error at t=1 after N steps is c/N^p."""
    rep = common.Report()
    make = dict(LeapfrogMidpoint=dfx.LeapfrogMidpoint, ReversibleHeun=dfx.ReversibleHeun, Heun=dfx.Heun)[name]
    trees, order, gamma = forest(4)
    Ns = [16, 32, 64, 128, 256]
    for time, back in itertools.product((False, True), repeat=2):
        a, b = (0.7, -0.3) if back else (0.3, 1.3)
        f = field(trees, None, time, a)
        errs = []
        for N in Ns:
            sol = eqx.filter_jit(dfx.diffeqsolve)(
                dfx.ODETerm(f), make(), a, b, (b - a) / N, jnp.zeros(len(trees)), max_steps=N + 2
            )
            errs.append(np.abs(np.asarray(sol.ys[-1]) - (b - a) ** order / gamma))
            rep.state(time, back, N)
            rep.transitions += N
            rep.traces += 1
        errs = np.array(errs)
        for i in range(len(trees)):
            if errs[-1, i] < 1e-11:
                continue
            slope = np.log2(errs[-2, i] / errs[-1, i])
            rep.check(slope > 1.9, "order of convergence", solver=name, tree=describe(trees, i), slope=slope, via_time=time, backwards=back)
    rep.sample(dict(solver=name))
    return rep


def reversible():
    """Reversible Heun can be stepped back exactly; so can leapfrog."""
    rep = common.Report()
    trees, order, gamma = forest(4)
    f = field(trees, None, True, 0.0)
    terms = dfx.ODETerm(f)
    sol = dfx.ReversibleHeun()
    step = jax.jit(lambda a, b, y, st: sol.step(terms, a, b, y, None, st, jnp.array(False)))
    for hs in itertools.product((0.1, 0.25, 0.5), repeat=3):
        y = jnp.linspace(-0.3, 0.5, len(trees))
        t = jnp.array(0.2)
        st = sol.init(terms, t, t + hs[0], y, None)
        path = [(t, y, st)]
        for h in hs:
            y, _, _, st, _ = step(t, t + h, y, st)
            t = t + h
            path.append((t, y, st))
        for k in range(3, 0, -1):
            tp, yp, sp = path[k - 1]
            y, _, _, st, _ = step(t, tp, y, st)
            t = tp
            rep.transitions += 1
            rep.check(np.allclose(y, yp, atol=1e-12), "stepping back does not return", hs=hs, k=k, err=np.abs(y - yp).max())
        rep.state(hs)
        rep.traces += 1
    rep.sample(dict(hs=hs))
    return rep


def symplectic():
    """Semi-implicit Euler: first order on all alternating trees, and symplectic."""
    rep = common.Report()
    sol = dfx.SemiImplicitEuler()
    Hs = {
        "pendulum": (lambda q: -jnp.sin(q), lambda p: p),
        "coupled": (lambda q: -jnp.array([q[0] + q[1] ** 2, 2 * q[0] * q[1]]), lambda p: p + 0.3 * p**3),
        "kepler": (lambda q: -q / jnp.sum(q**2) ** 1.5, lambda p: p),
    }
    J = np.block([[np.zeros((2, 2)), np.eye(2)], [-np.eye(2), np.zeros((2, 2))]])
    hs = (0.05, 0.3, -0.2)
    for nm, n in itertools.product(Hs, (1, 3)):
        force, vel = Hs[nm]
        terms = (dfx.ODETerm(lambda t, q, args: force(q)), dfx.ODETerm(lambda t, p, args: vel(p)))

        def flow(z, h):
            s = dfx.diffeqsolve(terms, sol, 0.0, n * h, h, (z[:2], z[2:]), max_steps=n + 1)
            return jnp.concatenate([s.ys[0][-1], s.ys[1][-1]])

        z = jnp.array([0.3, -0.4, 0.8, 0.5])
        both = jax.jit(lambda h: (flow(z, h), jax.jacrev(flow)(z, h)))
        for h in hs:
            got, A = jax.device_get(both(h))
            rep.check(np.allclose(A.T @ J @ A, J, atol=1e-10), "not symplectic", problem=nm, h=h, n=n)
            if n == 1:
                p0, q0 = z[:2], z[2:]
                p1 = p0 + h * force(q0)
                q1 = q0 + h * vel(p1)
                rep.check(np.allclose(got, np.concatenate([p1, q1]), atol=1e-12), "the step itself", problem=nm, h=h)
            rep.state(nm, h, n)
            rep.transitions += n
            rep.traces += 1
    rep.sample(dict(problem=nm))
    return rep


def SCENARIOS(tier):
    th = tier == "thorough"
    out = []
    for name in IMEX:
        for time in (False, True):
            out.append((f"order-{name}-{time}", ft.partial(order_of, name, 2, time, 41 if th else 11)))
    for name in ODE:
        for time in (False, True):
            out.append((f"order-{name}-{time}", ft.partial(order_of, name, 1, time, 41 if th else 11)))
        if not name.startswith("Half") and (th or name in ("Heun", "Bosh3", "Dopri5", "Kvaerno3")):
            out.append((f"sum-{name}", ft.partial(order_of, name, 2, True)))
    for name in list(ODE) + list(IMEX):
        if name in ("Euler", "ImplicitEuler") or name.startswith("Half"):
            continue
        if th or name in ("Midpoint", "Bosh3", "Tsit5", "Dopri8", "Kvaerno4", "KenCarp3", "Sil3"):
            out.append((f"variants-{name}", ft.partial(variants, name)))
    for name in ("ImplicitEuler", "Kvaerno3", "Kvaerno4", "Kvaerno5", "KenCarp3", "KenCarp4", "KenCarp5"):
        out.append((f"stability-{name}", ft.partial(stability, name)))
    for name in ("LeapfrogMidpoint", "ReversibleHeun", "Heun"):
        out.append((f"multistep-{name}", ft.partial(multistep, name)))
    out.append(("reversible", reversible))
    out.append(("symplectic", symplectic))
    return out
