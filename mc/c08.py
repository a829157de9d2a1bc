"""C08: events stop the solve at the right step (or the right time), exactly once, and what
was saved is what happened up to then."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx

from . import common, scripted as S, zoo

BOUNDS = (
    "all step histories of depth 3 (thorough 4) over {accept, reject, grow, shrink} x all "
    "thresholds from 10 positions (knots, interior, outside) per event x rising/falling x "
    "all trees of 1..3 events of {boolean, real with direction None/True/False} from the "
    "listed structures x root finder or not x both directions x four ways of saving; real "
    "solvers: 6 thresholds x 4 step sizes"
)
ROOT = [0.0625, 0.125, 0.25, 0.3, 0.375, 0.5, 0.71, 0.75, 1.0, 1.4]
MAX_STEPS = 14
TS = np.array([0.1, 0.25, 0.3, 0.6, 0.75, 1.0])


def _cond(kind, i):
    def cond(t, y, args, **kwargs):
        s, r = args[i]
        c = s * (0.5 * (t + y) - r)
        return c > 0 if kind == "b" else c

    return cond


def _event(kinds, root):
    """kinds: tuple of 'b', 'fN', 'fT', 'fF'"""
    conds = {chr(97 + i): _cond(k[0], i) for i, k in enumerate(kinds)}
    dirs = {
        chr(97 + i): {"N": None, "T": True, "F": False}[k[1]] if k[0] == "f" else None
        for i, k in enumerate(kinds)
    }
    finder = optx.Newton(rtol=1e-10, atol=1e-10) if root else None
    return dfx.Event(conds, finder, direction=dirs)


SAVEAT = lambda ts: dfx.SaveAt(
    subs=[
        dfx.SubSaveAt(t0=True, ts=ts, t1=True),
        dfx.SubSaveAt(steps=1, t1=True),
        dfx.SubSaveAt(steps=2, t0=True),
        dfx.SubSaveAt(steps=2, t1=True),
        dfx.SubSaveAt(t1=True),
    ]
)


def structure(kinds, root, iv, scripts, combos, max_steps=MAX_STEPS):
    rep = common.Report()
    t0, t1, dt0 = iv
    sgn = 1.0 if t0 < t1 else -1.0
    at = lambda f: t0 + np.asarray(f) * (t1 - t0)
    event = _event(kinds, root)
    enc = S.encode(scripts)

    @eqx.filter_jit
    @jax.vmap
    def run(script, args):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, args: jnp.ones_like(y)),
            dfx.Euler(),
            t0,
            t1,
            dt0,
            jnp.array(t0),
            args=args,
            stepsize_controller=zoo.ReplayController(script),
            saveat=SAVEAT(jnp.asarray(at(TS))),
            event=event,
            max_steps=max_steps,
            throw=False,
        )
        return (
            sol.ts, sol.ys, common.result_codes(sol.result), sol.event_mask,
            sol.stats["num_accepted_steps"], sol.t0, sol.t1,
        )

    lanes = [(k, c) for c in combos for k in range(len(scripts))]
    A = np.array([[(s, float(at(f))) for s, f in c] for _, c in lanes])
    ts, ys, res, mask, nacc, st0, st1 = jax.device_get(
        run(jnp.asarray(enc[[k for k, _ in lanes]]), jnp.asarray(A))
    )
    for i, (k, combo) in enumerate(lanes):
        # -- the reference, in real time
        tr_ends = [t0]
        t, nt, n, trig = sgn * t0, min(sgn * (t0 + dt0), sgn * t1), 0, None
        val = lambda t, e: A[i, e, 0] * (t - A[i, e, 1])
        sign = np.sign
        for e, kind in enumerate(kinds):
            if kind == "b" and val(t0, e) > 0:
                trig = e
                break
        steps = 0
        result = "successful"
        while trig is None and t < sgn * t1:
            if steps >= max_steps:
                result = "max_steps_reached"
                break
            act = scripts[k][steps] if steps < len(scripts[k]) else "a1"
            keep, factor, _, _ = S.ACTIONS[act]
            h = nt - t
            rep.state(kinds, root, iv, t, nt, tuple(A[i].ravel()))
            rep.transitions += 1
            steps += 1
            if keep:
                old, new = sgn * t, sgn * nt
                t = nt
                n += 1
                tr_ends.append(new)
                for e, kind in enumerate(kinds):
                    o, v = sign(val(old, e)), sign(val(new, e))
                    if kind == "b":
                        hit = v > 0
                    elif kind == "fN":
                        hit = o != v
                    elif kind == "fT":
                        hit = o <= 0 and v > 0
                    else:
                        hit = o > 0 and v <= 0
                    if hit:
                        trig = e
                        break
            nt = min(t + factor * h, sgn * t1)
        if trig is not None:
            result = "event_occurred"
        tfinal = tr_ends[-1]
        if trig is not None and root and kinds[trig][0] == "f":
            tfinal = A[i, trig, 1]
        # -- compare
        case = dict(
            events=kinds, root_finder=root, interval=iv, script=scripts[k],
            thresholds=A[i], steps=tr_ends, triggered=trig,
        )
        rep.traces += 1
        rep.outcome(f"{result}-{trig}")
        got = common.RESULT_NAMES[int(res[i])]
        if not rep.check(got == result, "result", got=got, want=result, **case):
            continue
        gm = [bool(mask[chr(97 + e)][i]) for e in range(len(kinds))]
        rep.check(
            gm == [e == trig for e in range(len(kinds))], "event_mask", got=gm, **case
        )
        rep.check(int(nacc[i]) == n, "number of steps", got=nacc[i], want=n, **case)
        rep.check((st0[i], st1[i]) == (t0, t1), "t0, t1 of the solution", **case)
        before = lambda x: [s for s in x if sgn * s <= sgn * tfinal + 1e-12]
        q = before(at(TS))
        if n == 0:
            q = []
        ends = [s if sgn * s <= sgn * tfinal else tfinal for s in tr_ends[1:]]
        even = ends[1::2]
        wants = [
            [t0] + list(q) + [tfinal],
            ends if ends else [tfinal],
            [t0] + even,
            even + ([tfinal] if len(ends) % 2 or not ends else []),
            [tfinal],
        ]
        # A threshold right on an output time: whether that output is just before or
        # just after the located event is a matter of rounding.
        tie = any(abs(x - tfinal) < 1e-9 for x in at(TS)) and tfinal != tr_ends[-1]
        for j, want in enumerate(wants):
            g = ts[j][i]
            fin = np.isfinite(g)
            m = int(fin.sum())
            if j == 0 and tie:
                continue
            if not rep.check(
                m == len(want)
                and np.all(fin[:m])
                and np.allclose(g[:m], want, atol=1e-8)
                and np.all(g[m:] == np.inf),
                "saved times",
                sub=j, got=g, want=want, tfinal=tfinal, **case,
            ):
                continue
            rep.check(
                np.allclose(ys[j][i][:m], want, atol=1e-8), "saved values",
                sub=j, got=ys[j][i], want=want, **case,
            )
            rep.check(
                not np.any(np.isfinite(ys[j][i][m:])), "values saved after the event",
                sub=j, got=ys[j][i], **case,
            )
    rep.sample(case)
    return rep


def real(name, iv):
    """A curved trajectory: the located event is a root of the condition along the dense
    output of the very same solve without the event."""
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    solver = spec.make()
    t0, t1 = iv
    term = dfx.ODETerm(lambda t, y, args: jnp.stack([y[1], -y[0]]))

    def cond(t, y, args, **kw):
        return y[0] - args

    dts = np.array([0.05, 0.2, 0.31, 0.5])
    thr = np.array([0.9, 0.5, 0.1, -0.2, -0.7, -1.5])
    g = np.array(list(itertools.product(dts, thr)))

    @eqx.filter_jit
    @jax.vmap
    def run(dt0, thr):
        kw = dict(max_steps=130, throw=False, args=thr)
        y0 = jnp.array([1.0, 0.0])
        sg = jnp.sign(t1 - t0)
        ev = {}
        for nm, e in (
            ("root", dfx.Event(cond, optx.Newton(1e-12, 1e-12))),
            ("step", dfx.Event(cond)),
            ("bool", dfx.Event(lambda t, y, args, **k: y[0] <= args)),
        ):
            s = dfx.diffeqsolve(
                term, solver, t0, t1, sg * dt0, y0, event=e,
                saveat=dfx.SaveAt(t1=True, steps=True), **kw,
            )
            f = jnp.sum(jnp.isfinite(s.ts)) - 1
            ev[nm] = s.ts[f], s.ys[f], common.result_codes(s.result)
        full = dfx.diffeqsolve(
            term, solver, t0, t1, sg * dt0, y0,
            saveat=dfx.SaveAt(dense=True, steps=True, t0=True), **kw,
        )
        return ev, full.ts, full.ys, full.evaluate(ev["root"][0])

    ev, ts, ys, yd = jax.device_get(run(jnp.asarray(g[:, 0]), jnp.asarray(g[:, 1])))
    for i in range(len(g)):
        fin = np.isfinite(ts[i])
        v = ys[i][fin][:, 0] - g[i, 1]
        idx = np.nonzero(np.sign(v[1:]) != np.sign(v[:-1]))[0]
        case = dict(solver=name, interval=iv, dt0=g[i, 0], threshold=g[i, 1])
        rep.traces += 1
        rep.transitions += int(fin.sum())
        rep.state(name, iv, i)
        if len(idx) == 0:
            rep.outcome("none")
            for nm in ev:
                rep.check(ev[nm][2][i] == 0 and ev[nm][0][i] == t1, "spurious event", which=nm, **case)
            continue
        rep.outcome("event")
        k = idx[0]
        a, b = ts[i][fin][k], ts[i][fin][k + 1]
        for nm in ("step", "bool"):
            rep.check(
                ev[nm][2][i] == 1
                and ev[nm][0][i] == b
                and np.allclose(ev[nm][1][i], ys[i][fin][k + 1], atol=1e-9),
                "not stopped at the end of the triggering step", which=nm,
                got=(ev[nm][0][i], ev[nm][1][i]), want=b, **case,
            )
        te, ye, re_ = (x[i] for x in ev["root"])
        rep.check(re_ == 1, "result", **case)
        rep.check(min(a, b) <= te <= max(a, b), "located outside of the step", te=te, step=(a, b), **case)
        rep.check(abs(ye[0] - g[i, 1]) < 1e-8, "not a root", te=te, ye=ye, **case)
        rep.check(np.allclose(ye, yd[i], atol=1e-8), "not on the trajectory", te=te, ye=ye, want=yd[i], **case)
    rep.sample(case)
    return rep


def steady():
    """The steady state event fires on the first step at which the field is small."""
    rep = common.Report()
    g = np.array(list(itertools.product((0.3, 1.0, 4.0), (1e-1, 1e-2, 1e-3), (0.0, 1e-2))))

    @eqx.filter_jit
    @jax.vmap
    def run(lam, atol, rtol):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, a: -lam * (y - 1.0)), dfx.Heun(), 0.0, jnp.inf, 0.1,
            jnp.array([3.0]), event=dfx.Event(dfx.steady_state_event(rtol, atol, optx.max_norm)),
            saveat=dfx.SaveAt(t0=True, steps=True), max_steps=400, throw=False,
        )
        return sol.ts, sol.ys[..., 0], common.result_codes(sol.result)

    ts, ys, res = jax.device_get(run(*(jnp.asarray(g[:, i]) for i in range(3))))
    for i, (lam, atol, rtol) in enumerate(g):
        n = int(np.isfinite(ts[i]).sum())
        y = ys[i][:n]
        small = lam * abs(y - 1) < atol + rtol * abs(y)
        case = dict(rate=lam, atol=atol, rtol=rtol)
        rep.check(res[i] == 1, "no event", **case)
        rep.check(small[-1] and not np.any(small[:-1]), "wrong step", **case)
        rep.state(i)
        rep.transitions += n
        rep.traces += 1
    # and its defaults come from the controller, through any wrapping
    for wrap in (lambda c: c, lambda c: dfx.ClipStepSizeController(c, step_ts=[0.35])):
        c = wrap(dfx.PIDController(rtol=0.0, atol=1e-2, norm=optx.max_norm))
        sol = dfx.diffeqsolve(
            dfx.ODETerm(lambda t, y, a: -(y - 1.0)), dfx.Heun(), 0.0, jnp.inf, 0.1,
            jnp.array([3.0]), event=dfx.Event(dfx.steady_state_event()),
            stepsize_controller=c, saveat=dfx.SaveAt(steps=True),
        )
        n = int(np.isfinite(np.asarray(sol.ts)).sum())
        small = abs(np.asarray(sol.ys)[:n, 0] - 1) < 1e-2
        rep.check(small[-1] and not np.any(small[:-1]), "defaults")
        rep.traces += 1
    rep.sample(case)
    return rep


def SCENARIOS(tier):
    thorough = tier == "thorough"
    d = 4 if thorough else 3
    al = ("a1", "rh", "a2", "ah")
    deep = S.scripts(al, d)
    flat = S.scripts(("a1", "rh", "a2"), 2 if not thorough else 3)
    out = []
    one = [((s, r),) for s in (1.0, -1.0) for r in ROOT]
    two = [(a, b) for a in [(s, r) for s in (1.0, -1.0) for r in (0.125, 0.3, 0.5, 1.4)]
           for b in [(s, r) for s in (1.0, -1.0) for r in (0.25, 0.3, 0.42, 1.4)]]
    three = [
        ((s1, r1), (s2, r2), (1.0, r3))
        for s1, s2 in itertools.product((1.0, -1.0), repeat=2)
        for r1, r2, r3 in itertools.product((0.2, 0.3, 0.6), (0.2, 0.35, 1.4), (0.3, 0.6, 1.4))
    ]
    ivs = [(0.0, 1.0, 0.25), (3.0, 1.0, -0.5)]
    for iv in ivs:
        nm = "f" if iv[0] < iv[1] else "b"
        for root in (False, True):
            for k in ("b", "fN", "fT", "fF"):
                out.append((f"{k}-{nm}-{int(root)}", ft.partial(structure, (k,), root, iv, deep, one)))
            pairs = [("b", "fN"), ("fT", "b"), ("fN", "fF"), ("fT", "fF"), ("b", "b")]
            if thorough:
                pairs = list(itertools.product(("b", "fN", "fT", "fF"), repeat=2))
            for p in pairs:
                if p == ("b", "b") and root and not thorough:
                    continue
                out.append(
                    (f"{'+'.join(p)}-{nm}-{int(root)}", ft.partial(structure, p, root, iv, flat, two))
                )
        trip = [("b", "fN", "fT"), ("fF", "fN", "b")]
        if thorough:
            trip += [("fN", "b", "fN"), ("fT", "fF", "fN"), ("b", "b", "fF")]
        for p in trip:
            comb = three if nm == "f" else [tuple((-s, r) for s, r in c) for c in three]
            out.append((f"{'+'.join(p)}-{nm}", ft.partial(structure, p, True, iv, flat, comb)))
        out.append(
            (f"budget-{nm}", ft.partial(structure, ("fN", "b"), True, iv, flat, two, 2))
        )
    for n in ("Tsit5", "Heun", "Kvaerno3", "Dopri8", "Bosh3", "LeapfrogMidpoint") if thorough else ("Tsit5", "Heun"):
        for iv in ((0.0, 6.0), (0.0, -6.0)):
            out.append((f"real-{n}-{iv[1]:g}", ft.partial(real, n, iv)))
    out.append(("steady", steady))
    return out
