"""C20: the solution does not depend on how the state is arranged.

The same equation is solved with its state as a vector, matrix, scalars, nested PyTree (with
empty parts), in single precision, with mixed precisions, as complex numbers, and - if its
components do not interact - component by component; along all short histories, by every
solver."""

import collections
import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import lineax as lx
import numpy as np

from . import common, scripted as S, zoo

BOUNDS = (
    "every solver x {vector, row, column, scalars, NamedTuple, nested with None and empty leaves, "
    "single and mixed precision, complex, component by component, leaves of different precision or complexity} x all histories of depth 2 "
    "(thorough 3) over {accept, reject, grow, jump} x both directions; adaptive solves with PID "
    "for every arrangement"
)

T0, T1, DT = 0.25, 1.25, 0.5
NT = collections.namedtuple("NT", "p q")
f32 = jnp.float32

# name -> (arrange, unarrange) of a state R^4; batch axes in front are allowed in the latter
ARR = {
    "vector": (lambda v: v, lambda y: y),
    "row": (lambda v: v[None], lambda y: y[..., 0, :]),
    "column": (lambda v: v[:, None], lambda y: y[..., 0]),
    "matrix": (lambda v: v.reshape(2, 2), lambda y: y.reshape(y.shape[:-2] + (4,))),
    "scalars": (lambda v: [v[0], v[1], v[2], v[3]], lambda y: jnp.stack(y, -1)),
    "named": (lambda v: NT(v[:1], (v[1], v[2:])), lambda y: jnp.concatenate([y.p, y.q[0][..., None], y.q[1]], -1)),
    "nested": (
        lambda v: {"b": [None, v[2:]], "a": {"n": {}, "e": jnp.zeros((0,), v.dtype), "m": jnp.zeros((3, 0), v.dtype), "x": v[:2].reshape(2, 1, 1)}},
        lambda y: jnp.concatenate([y["a"]["x"][..., 0, 0], y["b"][1]], -1),
    ),
    "single": (lambda v: v.astype(f32), lambda y: y.astype(float)),
    "mixed": (
        lambda v: (v[:2].astype(f32), v[2:]),
        lambda y: jnp.concatenate([y[0].astype(float), y[1]], -1),
    ),
}


def _register(cls):
    for fn in (lx.is_symmetric, lx.is_diagonal, lx.is_tridiagonal, lx.has_unit_diagonal, lx.is_lower_triangular,
               lx.is_upper_triangular, lx.is_positive_semidefinite, lx.is_negative_semidefinite):
        fn.register(cls)(lambda op: False)
    return cls


@_register
class Operator(lx.AbstractLinearOperator):
    """The matrix m followed by an arrangement (a linear map)."""

    m: jax.Array
    arr: callable = eqx.field(static=True)

    def mv(self, v):
        return self.arr(self.m @ v.astype(self.m.dtype))

    def as_matrix(self):
        raise NotImplementedError

    def transpose(self):
        raise NotImplementedError

    def in_structure(self):
        return jax.ShapeDtypeStruct(self.m.shape[-1:], self.m.dtype)

    def out_structure(self):
        return jax.eval_shape(self.arr, jax.ShapeDtypeStruct(self.m.shape[:1], self.m.dtype))


def rearrange(term, arr, un):
    if isinstance(term, dfx.MultiTerm):
        return dfx.MultiTerm(*(rearrange(t, arr, un) for t in term.terms))
    if isinstance(term, tuple):
        return tuple(rearrange(t, arr, un) for t in term)
    f = term.vector_field
    if isinstance(term, dfx.ODETerm):
        return dfx.ODETerm(lambda t, y, a: arr(f(t, un(y), a)))
    return dfx.ControlTerm(lambda t, y, a: Operator(f(t, un(y), a), arr), term.control)


def _f(t, y, p):
    return jnp.stack([
        -y[0] + 0.5 * y[2] * jnp.sin(t), jnp.cos(y[0]) - 0.3 * y[1] * y[2],
        0.2 * y[0] * y[1] - 0.4 * y[2] + p * t, -y[3] * y[3] + 0.3 * y[0],
    ])


def _e(t, y, p):
    return jnp.stack([0.5 * y[2] * jnp.sin(t), jnp.cos(y[0]), 0.2 * y[0] * y[1] + p * t, 0.3 * y[0]])


def _i(t, y, p):
    return jnp.stack([-y[0], -0.3 * y[1] * y[2], -0.4 * y[2], -y[3] * y[3]])


def _g(t, y, p):
    """Commutative."""
    d = jnp.stack([0.3 + 0.2 * jnp.sin(y[0]), 0.2 * y[1], 0.1 * y[2] * y[2], 0.25 * jnp.cos(y[3])]) * (1 + 0.1 * t)
    return jnp.diag(d)


def _ga(t, y, p):
    return jnp.array([[0.3, 0.1, 0.0, 0.2], [-0.2, 0.4, 0.1, 0.0], [0.1, 0.0, 0.2, 0.1], [0.0, 0.3, 0.0, -0.2]]) * (1 + 0.2 * t)


Y0 = np.array([0.4, -0.7, 0.9, 0.2])


def problem(kind, levy=dfx.SpaceTimeTimeLevyArea, smooth=False):
    y0 = jnp.asarray(Y0)
    if kind == "ode":
        return dfx.ODETerm(_f), y0
    if kind == "imex":
        return dfx.MultiTerm(dfx.ODETerm(_e), dfx.ODETerm(_i)), y0
    if kind == "semi":
        return (dfx.ODETerm(_f), dfx.ODETerm(_e)), (y0, 0.5 * y0)
    g = _ga if kind == "sde-additive" else _g
    return dfx.MultiTerm(dfx.ODETerm(_f), dfx.ControlTerm(g, zoo.smooth((4,), levy) if smooth else zoo.bm(shape=(4,), levy=levy))), y0


def loose(solver):
    """Implicit solvers in single precision need attainable tolerances."""
    if getattr(solver, "root_finder", None) is None:
        return solver
    return type(solver)(root_finder=zoo.chord(1e-5), root_find_max_steps=60)


def run(terms, solver, y0, un, depth, adaptive, dtype=float):
    """-> (scripted observables [2, scripts], adaptive observables [2] or None)"""
    enc = jnp.asarray(S.encode(S.scripts(("a1", "rh", "a2", "j1"), depth)))
    # (the state is promoted to the precision of the times)
    iv = jnp.array([[T0, T1, DT], [T1, T0, -DT]], dtype)
    q = jnp.array([0.3, 0.5, 0.8, 1.2], dtype)

    def obs(sol, dense):
        out = dict(
            ts=sol.ts, ys=un(sol.ys), attempts=sol.stats["num_steps"],
            accepted=sol.stats["num_accepted_steps"], result=common.result_codes(sol.result),
        )
        if dense:
            out["q"] = un(jax.vmap(sol.evaluate)(q))
            out["inc"] = un(jax.vmap(sol.evaluate)(q[:-1], q[1:]))
        raw[:] = [sol.ys]
        return out

    raw = []

    def go(enc, iv):
        return obs(dfx.diffeqsolve(
            terms, solver, iv[0], iv[1], iv[2], y0, args=jnp.array(0.1),
            stepsize_controller=zoo.ReplayController(enc), max_steps=12, throw=False,
            saveat=dfx.SaveAt(steps=True, dense=True),
        ), True)

    def pid(iv):
        return obs(dfx.diffeqsolve(
            terms, solver, iv[0], iv[1], iv[2], y0, args=jnp.array(0.1),
            stepsize_controller=dfx.PIDController(rtol=1e-2, atol=1e-3, dtmin=0.02), max_steps=60, throw=False,
            saveat=dfx.SaveAt(steps=True),
        ), False)

    got = jax.device_get(eqx.filter_jit(jax.vmap(jax.vmap(go, (0, None)), (None, 0)))(enc, iv))
    structure = jtu.tree_structure(raw[0]), [x.dtype for x in jtu.tree_leaves(raw[0])], [x.shape[1:] for x in jtu.tree_leaves(raw[0])]
    gp = jax.device_get(eqx.filter_jit(jax.vmap(pid))(iv)) if adaptive else None
    return got, gp, structure


def compare(rep, got, want, tol, *, keys=None, **case):
    for i, j in np.ndindex(*np.shape(want["attempts"])):
        rep.traces += 1
        for k in keys or want:
            rep.check(common.close(got[k][i, j], want[k][i, j], tol, tol), "arrangement", differ=k, lane=(i, j),
                      got=got[k][i, j], want=want[k][i, j], **case)


def arrangements(name, depth, which, adaptive):
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    terms, y0 = problem(spec.kind, smooth=depth < 3)
    semi = spec.kind == "semi"
    implicit = getattr(spec.make(), "root_finder", None) is not None
    ref = None
    for w in ["vector"] + [x for x in which if x != "vector"]:
        arr, un = ARR[w]
        low = w in ("single", "mixed")
        if low and name == "ItoMilstein":
            continue  # (a control of higher precision than the state is not claimed)
        if w == "mixed" and hasattr(spec.make(), "root_finder"):
            continue  # (the linear solvers of implicit methods need a single type)
        solver = loose(spec.make()) if low else spec.make()
        if semi:
            y, u = (arr(y0[0]), arr(y0[1])), lambda s, un=un: jnp.concatenate([un(s[0]), un(s[1])], -1)
        else:
            y, u = arr(y0), un
        got, gp, (tree, dtypes, shapes) = run(rearrange(terms, arr, un), solver, y, u, depth, adaptive and not low, f32 if low else float)
        case = dict(solver=name, arrangement=w)
        rep.check(
            tree == jtu.tree_structure(y) and dtypes == [x.dtype for x in jtu.tree_leaves(y)]
            and shapes == [x.shape for x in jtu.tree_leaves(y)],
            "structure, shapes and types of the output", got=[str(tree), str(dtypes), str(shapes)], **case,
        )
        if ref is None:
            ref, refp = got, gp
            for i, j in np.ndindex(*got["attempts"].shape):
                rep.state(name, i, j)
                rep.transitions += int(got["attempts"][i, j])
            continue
        # (nothing is divided by small steps here: single precision errors stay of that size)
        compare(rep, got, ref, 2e-4 if low else (1e-8 if implicit else 1e-11), **case)
        if gp is not None:
            rep.traces += 2
            # (step sizes amplify rounding)
            for k in gp:
                rep.check(common.close(gp[k], refp[k], 1e-6, 1e-7), "arrangement, adaptively", differ=k, got=gp[k], want=refp[k], **case)
    rep.sample(dict(solver=name, arrangements=which))
    return rep


# ---------------------------------------------------------------- complex numbers
def _zf(t, z, p):
    return (1j - 0.4) * z * z + jnp.array([0.3 - 0.2j, 0.1 + 0.4j]) * z[::-1] * jnp.cos(t) + p * t * (1 - 2j)


def _ze(t, z, p):
    return jnp.array([0.3 - 0.2j, 0.1 + 0.4j]) * z[::-1] * jnp.cos(t) + p * t * (1 - 2j)


def _zi(t, z, p):
    return (1j - 0.4) * z * z


def _zg(t, z, p):
    return jnp.diag((0.2 - 0.3j) * z * z + 0.1j) * (1 + 0.1 * t)


def _zga(t, z, p):
    return jnp.array([[0.2 - 0.1j, 0.3j], [0.1, -0.2 + 0.2j]]) * (1 + 0.1 * t)


def _pair(z):
    # (unused slots are filled with inf + 0j)
    return jnp.concatenate([z.real, jnp.where(jnp.isinf(z.real), z.real, z.imag)], -1)


def _unpair(v):
    return v[..., :2] + 1j * v[..., 2:]


def complexes(name, depth):
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    z0 = jnp.array([0.4 + 0.3j, -0.2 + 0.5j])
    bm = zoo.smooth((2,)) if depth < 3 else zoo.bm(shape=(2,))

    def term(f):
        return dfx.ODETerm(f), dfx.ODETerm(lambda t, v, p: _pair(f(t, _unpair(v), p)))

    def cterm(g):
        h = lambda t, v, p: jnp.concatenate([(m := g(t, _unpair(v), p)).real, m.imag], 0)
        return dfx.ControlTerm(g, bm), dfx.ControlTerm(h, bm)

    pair = _pair
    if spec.kind == "ode":
        forms = term(_zf)
    elif spec.kind == "imex":
        forms = [dfx.MultiTerm(*x) for x in zip(term(_ze), term(_zi))]
    elif spec.kind == "semi":
        forms = list(zip(term(_zf), term(_ze)))
        pair = lambda s: jnp.concatenate([_pair(s[0]), _pair(s[1])], -1)
    else:
        forms = [dfx.MultiTerm(*x) for x in zip(term(_zf), cterm(_zga if spec.kind == "sde-additive" else _zg))]
    y0 = (z0, 0.5j * z0) if spec.kind == "semi" else z0
    v0 = (_pair(y0[0]), _pair(y0[1])) if spec.kind == "semi" else _pair(y0)
    flat = (lambda s: jnp.concatenate(s, -1)) if spec.kind == "semi" else (lambda v: v)
    want, _, _ = run(forms[1], spec.make(), v0, flat, depth, False)
    got, _, (_, dtypes, _) = run(forms[0], spec.make(), y0, pair, depth, False)
    rep.check(all(jnp.issubdtype(d, jnp.complexfloating) for d in dtypes), "type of the output", solver=name)
    for i, j in np.ndindex(*want["attempts"].shape):
        rep.state(name, i, j)
        rep.transitions += int(want["attempts"][i, j])
    compare(rep, got, want, 1e-8 if getattr(spec.make(), "root_finder", None) is not None else 1e-11, solver=name, arrangement="complex")
    rep.sample(dict(solver=name))
    return rep


# ---------------------------------------------------------------- components that do not interact
def components(name, depth):
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    solver = spec.make()
    levy = dfx.SpaceTimeTimeLevyArea
    bm = zoo.smooth((3,), levy) if depth < 3 else zoo.bm(shape=(3,), levy=levy)
    c = jnp.array([0.3, -0.5, 1.0])
    y0 = jnp.array([0.4, -0.7, 0.9])

    class One(dfx.AbstractBrownianPath):
        i: jax.Array
        levy_area: type = eqx.field(static=True, default=levy)
        t0 = bm.t0
        t1 = bm.t1

        def evaluate(self, t0, t1=None, left=True, use_levy=False):
            return jtu.tree_map(lambda x: x[self.i] if jnp.ndim(x) else x, bm.evaluate(t0, t1, left, use_levy))

    f = lambda t, y, c: c * jnp.sin(y) * (1 + t) - 0.3 * y * y
    e = lambda t, y, c: c * jnp.cos(y + t)
    g = lambda t, y, c: 0.3 + 0.2 * jnp.sin(y + c)
    ga = lambda t, y, c: 0.3 * c * (1 + t)

    def make(all_, i=None):
        k = jnp.asarray(c) if all_ else c[i]
        o = lambda h: dfx.ODETerm(lambda t, y, p: h(t, y, k))
        if spec.kind == "ode":
            return o(f)
        if spec.kind == "imex":
            return dfx.MultiTerm(o(e), o(f))
        if spec.kind == "semi":
            return o(f), o(e)
        h = ga if spec.kind == "sde-additive" else g
        if all_:
            return dfx.MultiTerm(o(f), dfx.ControlTerm(lambda t, y, p: lx.DiagonalLinearOperator(h(t, y, k)), bm))
        return dfx.MultiTerm(o(f), dfx.ControlTerm(lambda t, y, p: h(t, y, k), One(i)))

    semi = spec.kind == "semi"
    two = (lambda s: jnp.stack(s, -1)) if semi else (lambda s: s)
    want, _, _ = run(make(True), solver, (y0, -y0) if semi else y0, two, depth, False)
    for i in range(3):
        got, _, _ = run(make(False, jnp.array(i)), solver, (y0[i], -y0[i]) if semi else y0[i], two, depth, False)
        ref = dict(want)
        for k in ("ys", "q", "inc"):
            ref[k] = want[k][:, :, :, i]
        compare(rep, got, ref, 1e-8 if getattr(solver, "root_finder", None) is not None else 1e-11, solver=name, component=i)
    for i, j in np.ndindex(*want["attempts"].shape):
        rep.state(name, i, j)
        rep.transitions += int(want["attempts"][i, j])
    rep.sample(dict(solver=name))
    return rep


# ---------------------------------------------------------------- leaves of different types
TYPES = {"float32": f32, "float64": jnp.float64, "complex64": jnp.complex64, "complex128": jnp.complex128}


def precisions(name, depth, pairs):
    """A state whose (independent) leaves have different types: each as if it were alone."""
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    f = lambda t, y: (0.1 + 0.2 * t - 0.7 * y * y).astype(y.dtype)
    e = lambda t, y: (0.3 * jnp.cos(y) + 0.1 * t).astype(y.dtype)

    def solve(y0):
        term = lambda h: dfx.ODETerm(lambda t, y, p: jtu.tree_map(lambda x: h(t, x), y))
        terms = (term(f), term(e)) if spec.kind == "semi" else term(f)
        got, _, (_, dtypes, _) = run(terms, spec.make(), (y0, y0) if spec.kind == "semi" else y0, lambda s: s, depth, False, f32)
        return got, dtypes

    alone = {k: solve(jnp.array([0.4, -0.7], d)) for k, d in TYPES.items() if any(k in p for p in pairs)}
    for pair in pairs:
        got, dtypes = solve(tuple(jnp.array([0.4, -0.7], TYPES[k]) for k in pair))
        semi = spec.kind == "semi"
        rep.check([str(x) for x in dtypes] == list(pair) * (1 + semi), "types of the output", got=[str(x) for x in dtypes], pair=pair, solver=name)
        for n, k in enumerate(pair):
            want = alone[k][0]
            pick = (lambda s: tuple(x[n] for x in s)) if semi else (lambda s: s[n])
            tol = 1e-5 if k in ("float32", "complex64") else 1e-13
            for key in ("ys", "q", "inc"):
                if key != "ys":
                    tol = 1e-5  # (interpolation coefficients have the precision of the times)
                for a, b in zip(jtu.tree_leaves(pick(got[key])), jtu.tree_leaves(want[key])):
                    rep.check(common.close(a, b, tol, tol), "a leaf next to one of another type", differ=key, leaf=k, pair=pair, solver=name, got=a, want=b)
            rep.check(np.array_equal(got["ts"], want["ts"]), "times next to a leaf of another type", pair=pair, solver=name)
        for i, j in np.ndindex(*got["attempts"].shape):
            rep.state(name, pair, i, j)
            rep.traces += 1
            rep.transitions += int(got["attempts"][i, j])
    rep.sample(dict(solver=name, pairs=pairs))
    return rep


# ---------------------------------------------------------------- types of numbers
def numbers(th):
    """Times and states given as Python numbers, numpy or JAX, integers or floats."""
    rep = common.Report()
    kinds = {
        "int": int, "float": float, "np.int32": np.int32, "np.float32": np.float32, "np.float64": np.float64,
        "array": lambda x: np.asarray(x, float), "jax": lambda x: jnp.asarray(x, float), "jax32": lambda x: jnp.asarray(x, f32),
        "jaxint": lambda x: jnp.asarray(x, int),
    }
    if not th:
        kinds = {k: kinds[k] for k in ("int", "float", "np.float32", "jax")}
    term = dfx.ODETerm(lambda t, y, a: -y * (1 + 0.1 * t))
    saves = {
        "t1": lambda k, b: dfx.SaveAt(t1=True),
        "ts": lambda k, b: dfx.SaveAt(ts=jnp.stack([jnp.asarray(k(x)) for x in ((3, 2, 1) if b else (1, 2, 3))])),
        "steps": lambda k, b: dfx.SaveAt(t0=True, steps=True),
    }
    want = None
    for n0, k0 in kinds.items():
        for ny, ky in kinds.items():
            for ns, sv in saves.items():
                for back in (False, True):
                    a, b = (4, 0) if back else (0, 4)
                    d = -1 if back else 1
                    sol = dfx.diffeqsolve(term, dfx.Heun(), k0(a), k0(b), k0(d), ky(3), saveat=sv(k0, back), max_steps=8)
                    y, e, t = 3.0, [], a
                    for _ in range(4):
                        s1 = -y * (1 + 0.1 * t)
                        s2 = -(y + d * s1) * (1 + 0.1 * (t + d))
                        y, t = y + d * (s1 + s2) / 2, t + d
                        e.append((t, y))
                    pts = dict([(a, 3.0)] + e)
                    if ns == "t1":
                        exp = [(b, pts[b])]
                    elif ns == "ts":
                        exp = [(x, pts[x]) for x in ((3, 2, 1) if back else (1, 2, 3))]
                    else:
                        exp = [(a, 3.0)] + e
                    n = len(exp)
                    got_t, got_y = np.asarray(sol.ts), np.asarray(sol.ys)
                    case = dict(time=n0, state=ny, save=ns, backwards=back)
                    rep.state(*case.values())
                    rep.transitions += 4
                    rep.traces += 1
                    # The state is promoted to the precision of the times.
                    single = ny not in ("np.float64", "array", "jax") and n0 in ("np.float32", "jax32")
                    rep.check(np.allclose(got_t[:n], [x for x, _ in exp], rtol=1e-6) and np.all(np.isinf(got_t[n:])), "times", got=got_t, **case)
                    rep.check(np.allclose(got_y[:n], [x for _, x in exp], rtol=1e-5 if single or "32" in n0 else 1e-12), "values", got=got_y, want=exp, **case)
                    rep.check(got_y.dtype == (np.float32 if single else np.float64), "type of the values", got=str(got_y.dtype), **case)
                    rep.check(np.issubdtype(got_t.dtype, np.floating), "type of the times", got=str(got_t.dtype), **case)
    rep.sample(case)
    return rep


QUICK = (
    "Tsit5", "Dopri8", "LeapfrogMidpoint", "ReversibleHeun", "Kvaerno3", "KenCarp4", "Sil3", "SemiImplicitEuler",
    "EulerHeun", "ItoMilstein", "StratonovichMilstein", "SPaRK", "SlowRK", "SRA1", "SEA", "Heun-sde", "Half-Heun",
)


def SCENARIOS(tier):
    th = tier == "thorough"
    d = 3 if th else 2
    out = [("numbers", ft.partial(numbers, th))]
    for s in zoo.SPECS:
        if s.kind == "langevin" or not (th or s.name in QUICK):
            continue
        which = list(ARR) if th else ["nested", "single"] if s.name in ("Tsit5", "SRA1", "Heun-sde", "Sil3", "LeapfrogMidpoint") else ["nested"]
        out.append((f"arranged-{s.name}", ft.partial(arrangements, s.name, d, which, s.adaptive and (th or s.name in ("Tsit5", "SPaRK")))))
        if th or s.name not in ("SEA", "EulerHeun", "StratonovichMilstein", "SlowRK", "Half-Heun", "LeapfrogMidpoint", "Kvaerno3"):
            out.append((f"complex-{s.name}", ft.partial(complexes, s.name, d)))
        if th or s.name in ("Tsit5", "Kvaerno3", "KenCarp4", "SPaRK"):
            out.append((f"components-{s.name}", ft.partial(components, s.name, d)))
    for s in zoo.SPECS:
        # (The linear solvers of implicit methods need a single type.)
        if s.kind not in ("ode", "semi") or getattr(s.make(), "root_finder", None) is not None or not (th or s.name in ("Tsit5", "Heun")):
            continue
        pairs = list(itertools.permutations(TYPES, 2)) if th else [("float32", "float64", "complex64")]
        out.append((f"precisions-{s.name}", ft.partial(precisions, s.name, d, pairs)))
    slow = ("numbers", "arranged-Kv", "arranged-Sil", "arranged-Tsit5", "arranged-SPaRK", "arranged-KenCarp")
    return sorted(out, key=lambda x: not x[0].startswith(slow))
