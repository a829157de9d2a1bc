"""C19: the solution does not depend on how the equation is written.

All ways of writing the same equation are enumerated (one term or sums of terms, nested and
permuted; arrays, linear operators of every kind and PyTrees; paths, callables and ODEs made
out of controls; with and without `vf_prod`), and solved along the same histories by every
solver.  The direct part enumerates the algebra of the terms themselves."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import lineax as lx
import numpy as np

from . import common, scripted as S, zoo

BOUNDS = (
    "every solver x all its ways of writing one equation (up to 14) x all histories of depth 2 "
    "(thorough 3) over {accept, reject, grow, jump} x both directions x {scripted, PID}; "
    "gradients by the continuous adjoint for each of them; all state shapes of dimension <= 2 x "
    "control shapes of dimension <= 2 x {real, complex} and all mismatches of shape"
)

T0, T1, DT = 0.25, 1.25, 0.5


class Straight(dfx.AbstractPath):
    """x(t) = v t, as an array of any shape."""

    v: jax.Array
    t0 = -10.0
    t1 = 10.0

    def evaluate(self, t0, t1=None, left=True):
        return self.v * (t0 if t1 is None else t1 - t0)

    def derivative(self, t, left=True):
        return self.v


class Expensive(dfx.AbstractTerm):
    """A term that only ever wants `vf_prod` to be called."""

    inner: dfx.AbstractTerm
    expensive: bool = eqx.field(static=True, default=True)

    def vf(self, t, y, args):
        return self.inner.vf(t, y, args)

    def contr(self, t0, t1, **kw):
        return self.inner.contr(t0, t1, **kw)

    def prod(self, vf, control):
        return self.inner.prod(vf, control)

    def vf_prod(self, t, y, args, control):
        return self.inner.vf_prod(t, y, args, control)

    def is_vf_expensive(self, t0, t1, y, args):
        return self.expensive


def _scaled(f, c):
    return lambda t, y, args: jtu.tree_map(lambda x: c * x, f(t, y, args))


def _matrix(f, w):
    """f as a matrix vector field, to be multiplied by the control `v` with w . v = 1."""

    def vf(t, y, args):
        return jtu.tree_map(lambda x: jnp.multiply.outer(x, w), f(t, y, args))

    return vf


V = np.array([0.5, -1.5, 2.0])
W = V / (V @ V)
V2 = np.array([[0.5, -1.0], [0.25, 2.0]])
W2 = V2 / (V2 * V2).sum()


def like(y, path):
    """A control that has the structure of y: one copy of `path` for each leaf."""

    class Copies(dfx.AbstractPath):
        t0 = -10.0
        t1 = 10.0

        def evaluate(self, t0, t1=None, left=True):
            return jtu.tree_map(lambda _: path.evaluate(t0, t1), y)

        def derivative(self, t, left=True):
            return jtu.tree_map(lambda _: path.derivative(t), y)

    return Copies()


def ode_forms(f, y):
    """name -> a term for dy = f(t, y) dt. `y` is the initial state (for its structure)."""
    o = dfx.ODETerm
    path, path2, path0 = (Straight(jnp.asarray(v)) for v in (V, V2, np.array(1.0)))
    half = [_scaled(f, c) for c in (0.25, 0.5, -0.75, 1.0)]
    one = jtu.tree_structure(y) == jtu.tree_structure(0)
    out = {
        "ode": o(f),
        "multi-1": dfx.MultiTerm(o(f)),
        "multi-4": dfx.MultiTerm(*map(o, half)),
        "nested": dfx.MultiTerm(o(half[3]), dfx.MultiTerm(o(half[1]), dfx.MultiTerm(o(half[2]), o(half[0])))),
        "scalar control": dfx.ControlTerm(f, like(y, path0)),
        "callable": dfx.ControlTerm(f, lambda t0, t1: jtu.tree_map(lambda _: t1 - t0, y)),
        "vector control": dfx.ControlTerm(_matrix(f, W), like(y, path)),
        "matrix control": dfx.ControlTerm(_matrix(f, W2), like(y, path2)),
        "to_ode": dfx.ControlTerm(_matrix(f, W), like(y, path)).to_ode(),
        "mixed": dfx.MultiTerm(dfx.ControlTerm(_matrix(half[0], W2), like(y, path2)), o(half[1]), dfx.ControlTerm(half[0], like(y, path0))),
        "expensive": Expensive(o(f)),
        "expensive control": Expensive(dfx.ControlTerm(_matrix(f, W), like(y, path))),
        "expensive part": dfx.MultiTerm(Expensive(o(half[3])), Expensive(dfx.ControlTerm(_matrix(half[1], W), like(y, path)), False), o(half[2]), o(half[0])),
    }
    if one and jnp.ndim(y) == 1:
        n = jnp.shape(y)[0]
        mat = lambda t, y, args: jnp.multiply.outer(f(t, y, args), jnp.asarray(W))
        out.update({
            "operator": dfx.ControlTerm(lambda t, y, a: lx.MatrixLinearOperator(mat(t, y, a)), path),
            "operator to_ode": dfx.ControlTerm(lambda t, y, a: lx.MatrixLinearOperator(mat(t, y, a)), path).to_ode(),
            "diagonal": dfx.ControlTerm(lambda t, y, a: lx.DiagonalLinearOperator(f(t, y, a)), Straight(jnp.ones(n))),
            "weakly diagonal": dfx.WeaklyDiagonalControlTerm(f, Straight(jnp.ones(n))),
        })
    return out


class FlatNoise(dfx.AbstractBrownianPath):
    """The increments of a PyTree-valued Brownian path as one vector."""

    inner: dfx.AbstractBrownianPath
    levy_area: type = eqx.field(static=True)

    @property
    def t0(self):
        return self.inner.t0

    @property
    def t1(self):
        return self.inner.t1

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        x = self.inner.evaluate(t0, t1, left, use_levy)
        flat = lambda z: jnp.concatenate([jnp.ravel(l) for l in jtu.tree_leaves(z)])
        if not use_levy:
            return flat(x)
        kw = dict(dt=jax.tree_util.tree_leaves(x.dt)[0], W=flat(x.W))
        for n in ("H", "K"):
            if hasattr(x, n):
                kw[n] = flat(getattr(x, n))
        return type(x)(**kw)


def noise(levy, smooth=False):
    shape = {"a": jax.ShapeDtypeStruct((2,), jnp.float64), "b": jax.ShapeDtypeStruct((), jnp.float64)}
    if smooth:
        tree = zoo.smooth(shape, levy)
        return tree, FlatNoise(tree, levy)
    tree = dfx.VirtualBrownianTree(-4.0, 4.0, 2.0**-8, shape, jax.random.PRNGKey(5), levy_area=levy)
    return tree, FlatNoise(tree, levy)


def _register(cls):
    for fn in (lx.is_symmetric, lx.is_diagonal, lx.is_tridiagonal, lx.has_unit_diagonal, lx.is_lower_triangular,
               lx.is_upper_triangular, lx.is_positive_semidefinite, lx.is_negative_semidefinite):
        fn.register(cls)(lambda op: False)
    return cls


@_register
class TreeDiagonal(lx.AbstractLinearOperator):
    s: dict

    def mv(self, v):
        return jtu.tree_map(jnp.multiply, self.s, v)

    def as_matrix(self):
        raise NotImplementedError

    def transpose(self):
        return self

    def in_structure(self):
        return jax.eval_shape(lambda: self.s)

    def out_structure(self):
        return jax.eval_shape(lambda: self.s)


def sde_forms(additive, levy, smooth=False):
    """name -> (terms, y0, arrange) where arrange puts a solution as a vector."""
    tree, flat = noise(levy, smooth)

    def drift(t, y, args):
        return jnp.stack([-y[0] + 0.5 * jnp.sin(y[1]), jnp.cos(y[0]) * 0.4 + 0.1 * t, 0.3 * y[0] * y[1] - y[2]])

    def sigma(t, y, args):
        if additive:
            return jnp.array([0.3, -0.2, 0.4]) * (1 + 0.2 * t)
        return (0.3 + 0.2 * jnp.sin(y)) * (1 + 0.1 * t)

    y0 = jnp.array([0.4, -0.7, 0.2])
    to = lambda v: {"a": v[..., :2], "b": v[..., 2]}
    fro = lambda s: jnp.concatenate([s["a"], s["b"][..., None]], -1)
    ident = lambda v: v
    d = dfx.ODETerm(drift)
    td = dfx.ODETerm(lambda t, y, a: to(drift(t, fro(y), a)))
    con = dfx.ControlTerm
    fn = jax.eval_shape(lambda: y0)

    def tree_matrix(t, y, a):
        s = to(sigma(t, fro(y), a))
        return {"a": jnp.diag(s["a"]), "b": s["b"]}

    forms = {
        "matrix": ((d, con(lambda t, y, a: jnp.diag(sigma(t, y, a)), flat)), y0, ident),
        "operator": ((d, con(lambda t, y, a: lx.MatrixLinearOperator(jnp.diag(sigma(t, y, a))), flat)), y0, ident),
        "diagonal": ((d, con(lambda t, y, a: lx.DiagonalLinearOperator(sigma(t, y, a)), flat)), y0, ident),
        "weakly diagonal": ((d, dfx.WeaklyDiagonalControlTerm(sigma, flat)), y0, ident),
        "tagged": ((d, con(lambda t, y, a: lx.TaggedLinearOperator(lx.MatrixLinearOperator(jnp.diag(sigma(t, y, a))), lx.diagonal_tag), flat)), y0, ident),
        "function": ((d, con(lambda t, y, a: lx.FunctionLinearOperator(lambda v: sigma(t, y, a) * v, fn), flat)), y0, ident),
        "sum": ((d, con(lambda t, y, a: lx.DiagonalLinearOperator(0.5 * sigma(t, y, a)) + lx.MatrixLinearOperator(0.5 * jnp.diag(sigma(t, y, a))), flat)), y0, ident),
        "tree": ((td, con(tree_matrix, tree)), to(y0), fro),
        "tree diagonal": ((td, con(lambda t, y, a: TreeDiagonal(to(sigma(t, fro(y), a))), tree)), to(y0), fro),
        "expensive": ((d, Expensive(con(lambda t, y, a: jnp.diag(sigma(t, y, a)), flat))), y0, ident),
    }
    return forms


def _lanes(depth):
    scripts = S.scripts(("a1", "rh", "a2", "j1"), depth)
    return scripts, jnp.asarray(S.encode(scripts))


NS = 8


# Quick: each kind of form once; PID for two solvers.
QUICK_FORMS = (
    "ode", "nested", "vector control", "operator", "diagonal", "tree ode", "tree callable", "tree matrix control",
    "tree to_ode", "tree mixed", "tree expensive", "tree expensive part", "ex ode", "ex mixed", "ex expensive", "im nested",
    "im vector control", "im expensive control", "matrix", "weakly diagonal", "tagged", "tree", "tree diagonal", "expensive", "second mixed",
)


FEW_FORMS = (
    "ode", "nested", "diagonal", "tree matrix control", "tree mixed", "tree expensive part", "ex ode", "ex mixed", "im nested",
    "im expensive control", "matrix", "tagged", "weakly diagonal", "tree", "expensive", "second mixed",
)


def run_forms(rep, name, solver, forms, depth, adaptive, budget=12, tol=1e-10):
    """forms: name -> (terms, y0, arrange). All must have the solution of the first."""
    if depth < 3:
        pick = QUICK_FORMS if name == "Tsit5" else FEW_FORMS
        forms = {k: v for k, v in forms.items() if k in pick}
        adaptive = adaptive and name == "SPaRK"
    scripts, enc = _lanes(depth)
    iv = jnp.array([[T0, T1, DT], [T1, T0, -DT]])
    q = jnp.array([0.3, 0.5, 0.8, 1.2])

    def go(enc, iv, which):
        terms, y0, arrange = forms[which]
        sol = dfx.diffeqsolve(
            terms, solver, iv[0], iv[1], iv[2], y0, args=jnp.array(0.1),
            stepsize_controller=zoo.ReplayController(enc), max_steps=budget, throw=False,
            saveat=dfx.SaveAt(steps=True, dense=True),
        )
        return dict(
            ts=sol.ts, ys=arrange(sol.ys), q=arrange(jax.vmap(sol.evaluate)(q)),
            attempts=sol.stats["num_steps"], accepted=sol.stats["num_accepted_steps"],
            result=common.result_codes(sol.result),
        )

    def pid(iv, which):
        terms, y0, arrange = forms[which]
        sol = dfx.diffeqsolve(
            terms, solver, iv[0], iv[1], iv[2], y0, args=jnp.array(0.1),
            stepsize_controller=dfx.PIDController(rtol=1e-3, atol=1e-4, norm=lambda y: jnp.max(jnp.abs(jnp.concatenate([jnp.ravel(l) for l in jtu.tree_leaves(y)]))), dtmin=0.02),
            max_steps=60, throw=False, saveat=dfx.SaveAt(steps=True),
        )
        return dict(ts=sol.ts, ys=arrange(sol.ys), attempts=sol.stats["num_steps"], result=common.result_codes(sol.result))

    ref = refp = None
    for which in forms:
        got = jax.device_get(eqx.filter_jit(jax.vmap(jax.vmap(ft.partial(go, which=which), (0, None)), (None, 0)))(enc, iv))
        gp = jax.device_get(eqx.filter_jit(jax.vmap(ft.partial(pid, which=which)))(iv)) if adaptive else None
        if ref is None:
            ref, refp = got, gp
            fin = np.isfinite(ref["ts"]).sum(-1)
            rep.check(np.all(fin >= 1), "no steps", solver=name)
            for i in range(2):
                for j, s in enumerate(scripts):
                    rep.state(name, i, s)
                    rep.transitions += int(ref["attempts"][i, j])
        for i, j in np.ndindex(*got["ts"].shape[:2]):
            rep.traces += 1
            a = {k: v[i, j] for k, v in jtu.tree_map(np.asarray, got).items()}
            b = {k: v[i, j] for k, v in jtu.tree_map(np.asarray, ref).items()}
            ok = all(common.close(a[k], b[k], tol, tol) for k in a)
            if not ok:
                bad = [k for k in a if not common.close(a[k], b[k], tol, tol)]
                rep.fail("the form of the equation", solver=name, form=which, script=scripts[j], backwards=bool(i),
                         differ=bad, got=a[bad[0]], want=b[bad[0]])
        if gp is not None:
            rep.traces += 2
            # (step sizes amplify rounding)
            for k in gp:
                rep.check(common.close(gp[k], refp[k], 1e-6, 1e-7), "the form of the equation, adaptively", solver=name,
                          form=which, differ=k, got=gp[k], want=refp[k])
    rep.sample(dict(solver=name, forms=list(forms), script=scripts[-1]))


def _vec(t, y, args):
    """zoo.f_tree as a vector field on R^3."""
    s = zoo.f_tree(t, {"a": y[:2], "b": y[2]}, args)
    return jnp.concatenate([s["a"], s["b"][None]])


def _flat(s):
    return jnp.concatenate([s["a"], s["b"][..., None]], -1)


def ode(name, depth):
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    solver = spec.make()
    y0 = zoo.y_tree()
    ident = lambda v: v
    vec = {n: (t, _flat(y0), ident) for n, t in ode_forms(_vec, _flat(y0)).items()}
    tree = {"tree " + n: (t, y0, _flat) for n, t in ode_forms(zoo.f_tree, y0).items()}
    if name in ("ImplicitEuler",) or name.startswith("Kv"):
        # Implicit methods: up to the tolerance of the nonlinear solve.
        tol = 1e-8
    else:
        tol = 1e-10
    run_forms(rep, name, solver, {**vec, **tree}, depth, spec.adaptive, tol=tol)
    return rep


def imex(name, depth):
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    solver = spec.make()
    y0 = zoo.y_tree()
    ex, im = ode_forms(zoo._ex, y0), ode_forms(zoo._im, y0)
    forms = {f"ex {n}": (dfx.MultiTerm(ex[n], im["ode"]), y0, _flat) for n in ex}
    forms.update({f"im {n}": (dfx.MultiTerm(ex["ode"], im[n]), y0, _flat) for n in im if n != "ode"})
    run_forms(rep, name, solver, forms, depth, spec.adaptive, tol=1e-8)
    return rep


def semi(depth):
    rep = common.Report()
    (f, g), y0 = zoo.semi_problem()
    fs, gs = ode_forms(f.vector_field, y0[0]), ode_forms(g.vector_field, y0[1])
    arrange = lambda s: jnp.concatenate(s, -1)
    forms = {n: ((fs[n], gs["ode"]), y0, arrange) for n in fs}
    forms.update({"second " + n: ((fs["ode"], gs[n]), y0, arrange) for n in gs if n != "ode"})
    run_forms(rep, "SemiImplicitEuler", dfx.SemiImplicitEuler(), forms, depth, False)
    return rep


def sde(name, depth):
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    forms = sde_forms(spec.kind == "sde-additive", dfx.SpaceTimeTimeLevyArea, depth < 3)
    forms = {n: (dfx.MultiTerm(*t), y, a) for n, (t, y, a) in forms.items()}
    # (adaptive steps: the scripted histories; PID needs differentiable noise queries of any size)
    run_forms(rep, name, spec.make(), forms, depth, spec.adaptive)
    return rep


# ---------------------------------------------------------------- gradients
def gradients(names, th):
    rep = common.Report()
    y0 = zoo.y_tree()
    v0 = _flat(y0)
    vec = {n: (t, v0, lambda v: v) for n, t in ode_forms(_vec, v0).items()}
    tree = {"tree " + n: (t, y0, _flat) for n, t in ode_forms(zoo.f_tree, y0).items()}
    w = jnp.array([0.3, -1.1, 0.7])
    for name in names:
        ref = None
        for which, (terms, y, arrange) in {**vec, **tree}.items():
            if not th and which not in ("ode", "diagonal", "tree mixed", "tree expensive part", "tree to_ode"):
                continue

            def loss(y, p, adj):
                sol = dfx.diffeqsolve(terms, zoo.BY_NAME[name].make(), T0, T1, 1 / 16, y, args=p, adjoint=adj,
                                      saveat=dfx.SaveAt(ts=jnp.array([0.5, 1.0, T1])))
                return jnp.sum(arrange(sol.ys) * w * jnp.array([[1.0], [2.0], [-1.0]]))

            back, exact = jax.device_get(eqx.filter_jit(lambda y, p: tuple(
                (lambda g: (arrange(g[0]), g[1]))(jax.grad(ft.partial(loss, adj=a), argnums=(0, 1))(y, p))
                for a in (dfx.BacksolveAdjoint(), dfx.RecursiveCheckpointAdjoint())))(y, jnp.array(0.1)))
            if ref is None:
                ref = (back, exact)
            rep.state(name, which)
            rep.traces += 2
            rep.transitions += 32
            rep.check(zoo.tree_close(exact, ref[1], 1e-10, 1e-10), "gradient", solver=name, form=which, got=exact, want=ref[1])
            rep.check(zoo.tree_close(back, ref[0], 1e-8, 1e-8), "continuous adjoint", solver=name, form=which, got=back, want=ref[0])
            rep.check(zoo.tree_close(back, exact, 1e-4, 1e-4), "continuous adjoint against the exact gradient", solver=name, form=which, got=back, want=exact)
    return rep


def noisy_gradients(names, th):
    """The continuous adjoint of a noisy equation, for all its forms (Stratonovich)."""
    rep = common.Report()
    w = jnp.array([0.3, -1.1, 0.7])
    for name in names:
        ref = None
        forms = sde_forms(False, dfx.BrownianIncrement, not th)
        for which, (t, y, arrange) in forms.items():
            if which in ("tree diagonal",) or not (th or which in ("matrix", "tagged", "tree", "expensive")):
                continue
            terms = dfx.MultiTerm(*t)

            def loss(y, adj):
                sol = dfx.diffeqsolve(terms, zoo.BY_NAME[name].make(), T0, T1, 1 / 64, y, args=jnp.array(0.1), adjoint=adj)
                return jnp.dot(arrange(sol.ys)[0], w)

            back, exact = jax.device_get(eqx.filter_jit(lambda y: tuple(
                arrange(jax.grad(ft.partial(loss, adj=a))(y)) for a in (dfx.BacksolveAdjoint(), dfx.RecursiveCheckpointAdjoint())))(y))
            if ref is None:
                ref = (back, exact)
            rep.state(name, which)
            rep.traces += 2
            rep.transitions += 128
            rep.check(zoo.tree_close(exact, ref[1], 1e-10, 1e-10), "gradient", solver=name, form=which, got=exact, want=ref[1])
            rep.check(zoo.tree_close(back, ref[0], 1e-8, 1e-8), "continuous adjoint", solver=name, form=which, got=back, want=ref[0])
            rep.check(zoo.tree_close(back, exact, 5e-2, 5e-2), "continuous adjoint against the exact gradient", solver=name, form=which, got=back, want=exact)
    return rep


# ---------------------------------------------------------------- the algebra of terms
SHAPES = [(), (1,), (2,), (3,), (2, 3), (2, 2)]


def _arr(shape, seed, cplx=False):
    r = np.random.RandomState(seed)
    x = r.uniform(-1, 1, shape)
    if cplx:
        x = x + 1j * r.uniform(-1, 1, shape)
    return np.asarray(x)


def _contract(vf, c):
    k = np.ndim(c)
    n = np.ndim(vf) - k
    out = np.zeros(np.shape(vf)[:n], np.result_type(vf, c))
    for i in np.ndindex(*np.shape(vf)[:n]):
        for j in np.ndindex(*np.shape(c)):
            out[i] += vf[i + j] * c[j]
    return out


def algebra():
    rep = common.Report()
    for (ys, cs, cy, cc) in itertools.product(SHAPES, SHAPES, (False, True), (False, True)):
        vf, c = _arr(ys + cs, 1, cy), _arr(cs, 2, cc)
        y = np.zeros(ys, np.result_type(vf, c))
        t = dfx.ControlTerm(lambda t, y, args: jnp.asarray(vf), lambda t0, t1: jnp.asarray(c) * (t1 - t0))
        case = dict(state=ys, control=cs, complex_vf=cy, complex_control=cc)
        want = _contract(vf, 0.5 * c)
        dx = t.contr(1.0, 1.5)
        got = [t.prod(t.vf(0.0, y, None), dx), t.vf_prod(0.0, jnp.asarray(y), None, dx)]
        tree = dfx.ControlTerm(lambda t, y, args: {"p": jnp.asarray(vf), "q": [jnp.asarray(2 * vf)]},
                               lambda t0, t1: {"p": jnp.asarray(c) * (t1 - t0), "q": [jnp.asarray(c) * (t0 - t1)]})
        yt = {"p": jnp.asarray(y), "q": [jnp.asarray(y)]}
        tr = tree.vf_prod(0.0, yt, None, tree.contr(1.0, 1.5))
        mt = dfx.MultiTerm(t, t, dfx.MultiTerm(t))
        multi = mt.vf_prod(0.0, jnp.asarray(y), None, mt.contr(1.0, 1.5))
        multi2 = mt.prod(mt.vf(0.0, y, None), mt.contr(1.0, 1.5))
        rep.state(*case.values())
        rep.transitions += 6
        rep.traces += 1
        for g, w in zip(got + [tr["p"], tr["q"][0], multi, multi2], [want, want, want, -2 * want, 3 * want, 3 * want]):
            rep.check(common.close(g, w, 1e-12, 1e-12), "contraction", got=g, want=w, **case)
    rep.sample(case)
    # ODETerm: every leaf broadcast to the state; never downcast
    for ys, vs in itertools.product(SHAPES, SHAPES):
        v = _arr(vs, 3)
        try:
            want = np.broadcast_to(v, ys)
        except ValueError:
            want = None
        t = dfx.ODETerm(lambda t, y, args: {"p": jnp.asarray(v)})
        case = dict(state=ys, vector_field=vs)
        rep.state("ode", *case.values())
        rep.transitions += 1
        rep.traces += 1
        try:
            got = t.vf(0.0, {"p": jnp.zeros(ys)}, None)["p"]
        except Exception:
            rep.check(want is None, "broadcast refused", **case)
            continue
        if rep.check(want is not None, "bad shape accepted", **case):
            rep.check(common.same(got, want), "broadcast", got=got, want=want, **case)
            p = t.prod({"p": got}, t.contr(1.0, 1.25))["p"]
            rep.check(common.close(p, 0.25 * want, 1e-12, 1e-12), "dt", got=p, **case)
    # ControlTerm: the shapes have to match
    for ys, vs, cs in itertools.product(SHAPES, SHAPES + [(2, 3, 2), (2, 3, 3), (2, 2, 2)], SHAPES):
        k = len(cs)
        ok = (vs[len(vs) - k:] == cs) and vs[: len(vs) - k] == ys and len(vs) >= k
        t = dfx.ControlTerm(lambda t, y, args: jnp.zeros(vs), lambda t0, t1: jnp.zeros(cs))
        rep.state("control", ys, vs, cs)
        rep.transitions += 1
        rep.traces += 1
        try:
            t.vf_prod(0.0, jnp.zeros(ys), None, t.contr(0.0, 1.0))
            got = True
        except Exception:
            got = False
        rep.check(got == ok, "shapes", state=ys, vector_field=vs, control=cs, accepted=got)
    # structures
    trees = [0.0, {"a": 0.0}, {"b": 0.0}, [0.0], (0.0,), [0.0, 0.0], None, {"a": None}]
    for a, b in itertools.product(trees, trees):
        ok = jtu.tree_structure(a) == jtu.tree_structure(b)
        rep.state("tree", str(a), str(b))
        rep.transitions += 1
        rep.traces += 1
        try:
            dfx.ODETerm(lambda t, y, args: b).vf(0.0, a, None)
            got = True
        except Exception:
            got = False
        rep.check(got == ok, "structure", state=str(a), vector_field=str(b), accepted=got)
    return rep


QUICK_ODE = ("Tsit5", "Heun", "LeapfrogMidpoint", "ReversibleHeun", "Kvaerno3")
QUICK_SDE = ("EulerHeun", "ItoMilstein", "StratonovichMilstein", "SPaRK", "SlowRK", "Heun-sde", "SRA1")


def SCENARIOS(tier):
    th = tier == "thorough"
    d = 3 if th else 2
    out = [("algebra", algebra)]
    for s in zoo.SPECS:
        if s.kind == "imex":
            if th or s.name in ("KenCarp3", "Sil3"):
                out.append((f"imex-{s.name}", ft.partial(imex, s.name, d)))
        elif s.kind == "ode":
            if th or s.name in QUICK_ODE:
                out.append((f"ode-{s.name}", ft.partial(ode, s.name, d)))
        elif s.kind == "semi":
            out.append(("semi", ft.partial(semi, d)))
        elif s.kind in ("sde", "sde-additive"):
            if th or s.name in QUICK_SDE:
                out.append((f"sde-{s.name}", ft.partial(sde, s.name, d)))
    for n in ("Tsit5", "Heun", "Bosh3", "Dopri8") if th else ("Tsit5",):
        out.append((f"gradients-{n}", ft.partial(gradients, [n], th)))
    for n in ("Heun-sde", "Midpoint-sde", "EulerHeun") if th else ("Heun-sde",):
        out.append((f"noisy-gradients-{n}", ft.partial(noisy_gradients, [n], th)))
    slow = ("gradients", "noisy", "ode-Kv", "ode-Tsit5", "imex", "sde-SPaRK")
    return sorted(out, key=lambda x: not x[0].startswith(slow))
