"""C03: dense output is one function of time: it agrees with the steps at the knots, with
SaveAt(ts=...), with its own increments and derivative, from either side, in either
direction, and is undefined outside of the integrated region."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from . import common, scripted as S, zoo

BOUNDS = (
    "scripted solver: all accept/reject histories of depth 4 (thorough 5) over 4 actions x "
    "all pairs of 13 query times (knots, interior, outside) x left/right x both directions "
    "x runs cut short; every solver of the library: all histories of depth 2 (thorough 3) "
    "over 4 actions x 9 query times x left/right x both directions"
)


def scripted_dense(intervals, alphabet, depth, max_steps):
    rep = common.Report()
    scripts = S.scripts(alphabet, depth)
    enc = jnp.asarray(S.encode(scripts))
    fr = np.array([-0.1, 0.0, 0.0625, 0.125, 0.2, 0.25, 0.375, 0.5, 0.6, 0.75, 0.9, 1.0, 1.1])

    def solve(t0, t1, dt0, script):
        sol = dfx.diffeqsolve(
            S.TERM,
            S.ScriptSolver(),
            t0,
            t1,
            dt0,
            S.zero_y(max_steps),
            stepsize_controller=S.ScriptController(script),
            saveat=dfx.SaveAt(dense=True, t1=True),
            max_steps=max_steps,
            throw=False,
        )
        q = t0 + fr * (t1 - t0)
        ev = {
            left: jax.vmap(lambda t: sol.evaluate(t, left=left))(q)["n"]
            for left in (True, False)
        }
        lg = jax.vmap(sol.evaluate)(q)["log"][..., 1].sum(-1)
        de = {
            left: jax.vmap(lambda t: sol.derivative(t, left=left))(q)["n"]
            for left in (True, False)
        }
        inc = jax.vmap(lambda a: jax.vmap(lambda b: sol.evaluate(a, b))(q)["n"])(q)
        it = sol.interpolation
        return ev, lg, de, inc, it.t0, it.t1, sol.ts[0], common.result_codes(sol.result)

    fn = eqx.filter_jit(jax.vmap(solve, in_axes=(None, None, None, 0)))
    for iv in intervals:
        t0, t1, dt0 = iv
        sgn = 1.0 if t0 < t1 else -1.0
        ev, lg, de, inc, it0, it1, tfin, res = jax.device_get(
            fn(jnp.array(t0), jnp.array(t1), jnp.array(dt0), enc)
        )
        q = t0 + fr * (t1 - t0)
        for k, script in enumerate(scripts):
            tr = S.model(
                sgn * t0, sgn * t1, sgn * dt0, script, max_steps, report=rep, key=iv
            )
            rep.traces += 1
            rep.outcome(tr.result)
            case = dict(interval=iv, script=script, max_steps=max_steps)
            rep.check(
                common.RESULT_NAMES[int(res[k])] == tr.result, "result", want=tr.result, **case
            )
            rep.check(
                it0[k] == t0 and it1[k] == sgn * tr.t,
                "interval of the dense output",
                got=(it0[k], it1[k]),
                want=(t0, sgn * tr.t),
                **case,
            )
            val = np.full(len(q), np.nan)
            lval = np.full(len(q), np.nan)
            dl = np.full(len(q), np.nan)
            dr = np.full(len(q), np.nan)
            for i, t in enumerate(sgn * q):
                if tr.accepted:
                    hits = [
                        (j, a, b)
                        for j, (a, b, _, _) in enumerate(tr.accepted)
                        if a <= t <= b
                    ]
                    if hits:
                        j, a, b = hits[0]
                        w = (t - a) / (b - a)
                        val[i] = j + w
                        # sum over the end times of the accepted steps
                        l0 = sum(r[1] for r in tr.accepted[:j])
                        lval[i] = l0 + w * tr.accepted[j][1]
                        lo, hi = hits[0], hits[-1]
                        if sgn < 0:
                            lo, hi = hi, lo
                        dl[i] = sgn / (lo[2] - lo[1])
                        dr[i] = sgn / (hi[2] - hi[1])
                elif t == sgn * t0:
                    val[i] = lval[i] = 0.0
            for left in (True, False):
                rep.check(
                    common.close(ev[left][k], val),
                    "evaluate",
                    left=left,
                    q=q,
                    got=ev[left][k],
                    want=val,
                    **case,
                )
            rep.check(
                common.close(lg[k], lval), "evaluate (log)", q=q, got=lg[k], want=lval, **case
            )
            for left, want in ((True, dl), (False, dr)):
                if not tr.accepted:
                    continue
                # Outside of the integrated region the derivative is unspecified.
                got = np.where(np.isnan(want), np.nan, de[left][k])
                rep.check(
                    common.close(got, want),
                    "derivative",
                    left=left,
                    q=q,
                    got=de[left][k],
                    want=want,
                    **case,
                )
            rep.check(
                common.close(inc[k], val[None, :] - val[:, None]),
                "evaluate(t0, t1) is not the increment",
                **case,
            )
            rep.transitions += 4 * len(q) + len(q) ** 2
    rep.sample(dict(interval=iv, script=scripts[-3], q=q))
    return rep


def real_dense(name, alphabet, depth):
    """A real solver under every scripted history."""
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    scripts = S.scripts(alphabet, depth)
    enc = jnp.asarray(S.encode(scripts))
    solver = spec.make()
    terms, y0 = spec.problem()
    fr = np.array([0.0, 0.03, 0.125, 0.25, 0.31, 0.5, 0.77, 0.875, 1.0])
    max_steps = 20

    def solve(t0, t1, dt0, script):
        q = t0 + fr * (t1 - t0)
        sol = dfx.diffeqsolve(
            terms,
            solver,
            t0,
            t1,
            dt0,
            y0,
            stepsize_controller=zoo.ReplayController(script),
            saveat=dfx.SaveAt(
                dense=True,
                subs=[
                    dfx.SubSaveAt(t0=True, steps=1),
                    dfx.SubSaveAt(ts=q),
                    dfx.SubSaveAt(t1=True),
                ],
            ),
            max_steps=max_steps,
            throw=False,
        )
        ev = jax.vmap(sol.evaluate)(q)
        evr = jax.vmap(lambda t: sol.evaluate(t, left=False))(q)
        knots = jnp.where(jnp.isfinite(sol.ts[0]), sol.ts[0], t1)
        evk = {
            left: jax.vmap(lambda t: sol.evaluate(t, left=left))(knots)
            for left in (True, False)
        }
        de = jax.vmap(sol.derivative)(q)
        jv = jax.vmap(lambda t: jax.jvp(sol.evaluate, (t,), (jnp.ones_like(t),))[1])(q)
        inc = jax.vmap(lambda t: sol.evaluate(q[2], t))(q)
        incr = jax.vmap(lambda t: sol.evaluate(t, q[6]))(q)
        # The local interpolation's own increments, where both ends are in one step.
        return dict(
            ts=sol.ts,
            ys=sol.ys,
            ev=ev,
            evr=evr,
            evk=evk,
            de=de,
            jv=jv,
            inc=inc,
            incr=incr,
            res=common.result_codes(sol.result),
        )

    fn = eqx.filter_jit(jax.vmap(solve, in_axes=(None, None, None, 0)))
    for iv in [(0.0, 1.0, 0.25), (1.0, 0.0, -0.25)]:
        t0, t1, dt0 = iv
        sgn = 1.0 if t0 < t1 else -1.0
        out = jax.device_get(fn(jnp.array(t0), jnp.array(t1), jnp.array(dt0), enc))
        q = t0 + fr * (t1 - t0)
        for k, script in enumerate(scripts):
            o = zoo.tree_index(out, k)
            case = dict(solver=name, interval=iv, script=script)
            rep.traces += 1
            rep.transitions += len(q) * 6
            if not rep.check(int(o["res"]) == 0, "not successful", **case):
                continue
            n = int(np.sum(np.isfinite(o["ts"][0])))
            cut = lambda tree: jax.tree_util.tree_map(lambda x: x[:n], tree)
            rep.state(name, iv, tuple(o["ts"][0][:n]))
            for left in (True, False):
                rep.check(
                    zoo.tree_close(cut(o["evk"][left]), cut(o["ys"][0]), 1e-7, 1e-7),
                    "dense output disagrees with the steps at the knots",
                    left=left,
                    ts=o["ts"][0][:n],
                    got=cut(o["evk"][left]),
                    want=cut(o["ys"][0]),
                    **case,
                )
            rep.check(
                zoo.tree_close(o["ev"], o["ys"][1], 1e-7, 1e-7),
                "dense output disagrees with SaveAt(ts=...)",
                got=o["ev"],
                want=o["ys"][1],
                q=q,
                **case,
            )
            rep.check(
                zoo.tree_close(o["ev"], o["evr"], 1e-7, 1e-7),
                "dense output is not continuous",
                **case,
            )
            rep.check(
                zoo.tree_close(
                    zoo.tree_index(o["ys"][2], -1), zoo.tree_index(o["ev"], -1), 1e-7, 1e-7
                ),
                "dense output at t1 is not the final value",
                **case,
            )
            rep.check(
                zoo.tree_close(o["de"], o["jv"], 1e-6, 1e-6),
                "derivative() is not the derivative of evaluate()",
                got=o["de"],
                want=o["jv"],
                **case,
            )
            for nm, i, s in (("inc", 2, 1), ("incr", 6, -1)):
                want = jax.tree_util.tree_map(lambda x: s * (x - x[i]), o["ev"])
                rep.check(
                    zoo.tree_close(o[nm], want, 1e-7, 1e-7),
                    "evaluate(t0, t1) is not the increment",
                    got=o[nm],
                    want=want,
                    **case,
                )
    rep.sample(dict(solver=name, script=scripts[-1], q=q))
    return rep


def local_interpolations():
    """The local interpolations through their public constructors."""
    rep = common.Report()
    y0 = {"a": jnp.array([1.0, -2.0]), "b": jnp.array(0.5)}
    y1 = {"a": jnp.array([0.2, 1.0]), "b": jnp.array(-1.5)}
    k0 = {"a": jnp.array([0.3, 0.7]), "b": jnp.array(0.9)}
    k1 = {"a": jnp.array([-0.4, 0.1]), "b": jnp.array(-0.3)}
    tm = jax.tree_util.tree_map
    cases = {}
    for a, b in [(0.0, 1.0), (0.5, 0.75), (-1.0, 3.0)]:
        h = b - a
        lin = dfx.LocalLinearInterpolation(t0=a, t1=b, y0=y0, y1=y1)
        her = dfx.ThirdOrderHermitePolynomialInterpolation(
            t0=a, t1=b, y0=y0, y1=y1, k0=tm(lambda k: h * k, k0), k1=tm(lambda k: h * k, k1)
        )
        for s in np.linspace(0, 1, 9):
            t = a + s * h
            cases_ = [
                ("linear", lin, tm(lambda p, r: p + s * (r - p), y0, y1)),
                (
                    "hermite",
                    her,
                    tm(
                        lambda p, r, m0, m1: (2 * s**3 - 3 * s**2 + 1) * p
                        + (s**3 - 2 * s**2 + s) * h * m0
                        + (-2 * s**3 + 3 * s**2) * r
                        + (s**3 - s**2) * h * m1,
                        y0,
                        y1,
                        k0,
                        k1,
                    ),
                ),
            ]
            for nm, itp, want in cases_:
                got = itp.evaluate(t)
                rep.check(
                    zoo.tree_close(got, want), f"{nm} interpolation", t=t, got=got, want=want
                )
                for s2 in (0.0, 0.4, 1.0):
                    t2 = a + s2 * h
                    inc = itp.evaluate(t, t2)
                    w = tm(lambda x, y: x - y, itp.evaluate(t2), got)
                    rep.check(zoo.tree_close(inc, w), f"{nm} increment", t=t, t2=t2)
                rep.state(nm, a, b, t)
                rep.transitions += 4
                rep.traces += 1
        for end, k in ((a, k0), (b, k1)):
            rep.check(zoo.tree_close(her.derivative(end), k), "hermite end slopes", t=end)
    rep.sample(dict(grid=list(np.linspace(0, 1, 9))))
    return rep


LATER = (
    "ItoMilstein StratonovichMilstein GeneralShARK SlowRK SEA SRA1 ShOULD QUICSORT "
    "Euler-sde Midpoint-sde"
).split()


def SCENARIOS(tier):
    thorough = tier == "thorough"
    ivs = [(0.0, 1.0, 0.25), (1.0, 0.0, -0.25), (2.0, 2.0, 0.5), (-1.0, 3.0, 1.0)]
    d = 5 if thorough else 4
    out = []
    for i, iv in enumerate(ivs):
        out.append(
            (
                f"scripted-{i}",
                ft.partial(scripted_dense, [iv], ("a1", "rh", "ah", "a2"), d, 16),
            )
        )
    for ms in (1, 2, 3):
        out.append(
            (
                f"scripted-max-steps-{ms}",
                ft.partial(scripted_dense, ivs[:2], ("a1", "rh", "a2"), 3, ms),
            )
        )
    out.append(("local", local_interpolations))
    dd = 3 if thorough else 2
    for s in zoo.SPECS:
        if s.name.startswith("Half"):
            continue  # documented upstream: dense output is that of the full step
        if not thorough and s.name in LATER:
            continue  # same (linear) dense output as the others of its kind
        out.append(
            (f"real-{s.name}", ft.partial(real_dense, s.name, ("a1", "rh", "ah", "j1"), dd))
        )
    return out
