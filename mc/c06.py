"""C06: prescribed step times, jump times and revisited rejected steps.

A scripted inner controller (every accept/reject/grow/shrink history) is wrapped in the
real `ClipStepSizeController`; the steps taken by the solve are compared with the rules:
steps never pass a prescribed time, end on it exactly, never touch a jump, resume just
after it with the solver being told, and end again on every time that was rejected."""

import functools as ft
import itertools
import math

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from . import common, scripted as S

BOUNDS = (
    "all histories of depth 4 (thorough 6) over {accept, reject, grow, shrink} x all subsets "
    "of up to 2 (thorough 3) of 6 candidate step times and of 6 candidate jump times "
    "(at the ends, outside, on and off the step grid, coinciding, given in any order) x "
    "both directions x plain/nested wrapping; all histories of depth 6 (thorough 8) for "
    "revisiting rejected steps, with buffers of 1..4"
)
MAX_STEPS = 40


class Inner(dfx.AbstractAdaptiveStepSizeController):
    """The scripted controller of `scripted.py`, as an adaptive controller."""

    script: jax.Array
    rtol: float = 1e-3
    atol: float = 1e-3

    @property
    def norm(self):
        return None

    def wrap(self, direction):
        return self

    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return t0 + dt0, jnp.array(0)

    def adapt_step_size(
        self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state
    ):
        i = controller_state
        k = self.script.shape[0]
        act = jnp.where(i < k, self.script[jnp.minimum(i, k - 1)], S.DEFAULT)
        keep = jnp.asarray(S._KEEP)[act]
        next_t0 = jnp.where(keep, t1, t0)
        factor = jnp.asarray(S._FACTOR)[act].astype(jnp.result_type(t0))
        next_t1 = next_t0 + factor * (t1 - t0)
        return keep, next_t0, next_t1, False, i + 1, dfx.RESULTS.successful


TINY = float(np.finfo(np.float64).tiny)


def up(t):
    """The next floating point number; denormal numbers do not exist."""
    if 0 <= t < TINY:
        return TINY
    if -TINY <= t < 0:
        return 0.0
    return float(np.nextafter(t, np.inf))


def down(t):
    return -up(-t)


def reference(t0, t1, dt0, script, steps, jumps, store=None, max_steps=MAX_STEPS, rep=None, key=()):
    """In the direction of integration. -> (accepted [(a, b, jump)], rejected ends, result)"""
    floor = t1 - 1e-10
    acc, rejected = [], []
    stack = []
    t = t0
    nt = t0 + dt0
    later = [s for s in steps if s > t]
    if later:
        nt = min(nt, min(later))
    later = [j for j in jumps if j > t]
    if later:
        nt = min(nt, down(min(later)))
    nt = t1 if nt > floor else nt
    jump = False
    i = 0
    result = "successful"
    while t < t1 and result == "successful":
        if i >= max_steps:
            result = "max_steps_reached"
            break
        act = script[i] if i < len(script) else "a2"
        i += 1
        keep, factor, _, _ = S.ACTIONS[act]
        h = nt - t
        if rep is not None:
            rep.state(key, t, nt, tuple(stack), tuple(script[i - 1 :]))
            rep.transitions += 1
        if stack and stack[-1] == nt:
            stack.pop()
        if keep:
            acc.append((t, nt, jump))
            jump = False
            a = nt
        else:
            rejected.append((nt, len(acc)))
            stack.append(nt)
            a = t
            if store is not None and len(stack) > store:
                result = "max_steps_rejected"
        b = a + factor * h
        hit = [j for j in jumps if a == down(j) or a == j]
        if hit:
            # (Also when t0 itself is a jump, and the first step was rejected.)
            a = up(hit[0])
            jump = jump or keep
            b = max(b, up(a))
        # a step time just next to where we are (i.e. a jump that is a step time, too)
        later = [s for s in steps if s > a and down(s) > a]
        if later:
            b = min(b, min(later))
        later = [j for j in jumps if j > a]
        if later:
            b = min(b, down(min(later)))
        if store is not None and stack:
            b = min(b, stack[-1])
        a = min(a, t1)
        if b > floor:
            b = t1 if keep else a + 0.5 * (t1 - a)
        t, nt = a, b
    return acc, rejected, result, i


def clip(inner, steps, jumps, nested, store=None):
    kw = {} if store is None else dict(store_rejected_steps=store)
    C = dfx.ClipStepSizeController
    if nested == "step-in-jump":
        return C(C(inner, step_ts=steps), jump_ts=jumps, **kw)
    if nested == "jump-in-step":
        return C(C(inner, jump_ts=jumps), step_ts=steps, **kw)
    return C(inner, step_ts=steps, jump_ts=jumps, **kw)


def check_lane(rep, out, ref, steps, jumps, iv, store=None, **case):
    """`steps`, `jumps` in real time; `ref` in the direction of integration."""
    t0, t1, _ = iv
    sgn = 1.0 if t0 < t1 else -1.0
    acc, rejected, result, natt = ref
    n = int(out["n"])
    log = out["log"][:n]  # the solver sees time in the direction of integration
    got = [(float(r[0]), float(r[1]), bool(r[2])) for r in log]
    case = dict(interval=iv, steps=steps, jumps=jumps, got=got, **case)
    # Rounding errors next to a jump can leave a sliver to be stepped over: not compared
    # with the reference, as that would be about the last bit of every step.
    sliver = any(b - a < 1e-9 for a, b, _ in acc)
    if sliver:
        rep.outcome("sliver")
    else:
        rep.check(out["result"] == result, "result", res=out["result"], want=result, **case)
    if result != "successful" or out["result"] != "successful":
        return
    a0, a1 = sgn * t0, sgn * t1
    st = [sgn * s for s in steps]
    ju = [sgn * j for j in jumps]
    ends = {b for _, b, _ in got}
    # The guarantees themselves.
    starts = (a0, up(a0)) if a0 in ju else (a0,)
    rep.check(n > 0 and got[0][0] in starts and got[-1][1] == a1, "does not cover [t0, t1]", **case)
    for s in st:
        # (A step that happens to end one ULP before s counts as having reached it.)
        if a0 < s < a1 and s not in ju and not any(b == down(s) for _, b, _ in acc):
            rep.check(s in ends, "a step time is not the end of a step", s=s, **case)
    for j in ju:
        if a0 < j < a1:
            rep.check(
                not any(a <= j <= b for a, b, _ in got),
                "a step touches a jump",
                j=j,
                **case,
            )
            rep.check(
                down(j) in ends and any(a == up(j) and f for a, _, f in got),
                "a jump is not stepped around, or the solver is not told",
                j=j,
                **case,
            )
    for (a, b, f), (c, d, g) in zip(got, got[1:]):
        gap = b != c
        rep.check(
            (not gap) or any(b < j < c for j in ju), "a gap between two steps", at=b, **case
        )
        rep.check(g == gap, "made_jump without a jump (or conversely)", at=c, **case)
        rep.check(c < d, "empty step", at=c, **case)
    if store is not None:
        for t, _ in rejected:
            rep.check(t in ends, "a rejected time was not revisited", t=t, **case)
    # Nothing else is clipped.
    if sliver:
        return
    want = [(a, b, f) for a, b, f in acc]
    rep.check(
        len(want) == n
        and all(
            abs(a - c) < 1e-9 and abs(b - d) < 1e-9 and f == g
            for (a, b, f), (c, d, g) in zip(got, want)
        ),
        "the steps are not those of the inner controller, clipped",
        want=want,
        **case,
    )
    rep.check(
        (int(out["steps"]), int(out["acc"])) == (natt, len(acc)),
        "statistics",
        stats=(out["steps"], out["acc"]),
        want_stats=(natt, len(acc)),
        **case,
    )


def _make(iv, nsteps, njumps, nested, store=None, max_steps=MAX_STEPS):
    t0, t1, dt0 = iv

    @eqx.filter_jit
    @jax.vmap
    def run(script, steps, jumps):
        inner = Inner(script)
        controller = clip(
            inner, steps if nsteps else None, jumps if njumps else None, nested, store
        )
        sol = dfx.diffeqsolve(
            S.TERM,
            S.ScriptSolver(),
            t0,
            t1,
            dt0,
            S.zero_y(max_steps),
            stepsize_controller=controller,
            max_steps=max_steps,
            throw=False,
        )
        st = sol.stats
        return dict(
            n=sol.ys["n"][0],
            log=sol.ys["log"][0],
            code=common.result_codes(sol.result),
            mrej=sol.result == dfx.RESULTS.max_steps_rejected,
            steps=st["num_steps"],
            acc=st["num_accepted_steps"],
        )

    return run


def _lane(out, k):
    o = {a: b[k] for a, b in out.items()}
    o["result"] = (
        "max_steps_rejected" if o["mrej"] else common.RESULT_NAMES[int(o["code"])]
    )
    return o


def grid(iv, nsteps, njumps, nested, depth, cand_s, cand_j, alphabet):
    rep = common.Report()
    t0, t1, dt0 = iv
    sgn = 1.0 if t0 < t1 else -1.0
    scripts = S.scripts(alphabet, depth)
    enc = S.encode(scripts)
    run = _make(iv, nsteps, njumps, nested)
    at = lambda f: t0 + f * (t1 - t0)
    jobs = []
    for ss in itertools.combinations(cand_s, nsteps):
        for jj in itertools.combinations(cand_j, njumps):
            # given in decreasing order: the controller has to sort
            jobs.append(([at(f) for f in ss][::-1], [at(f) for f in jj][::-1]))
    lanes = [(k, ss, jj) for ss, jj in jobs for k in range(len(scripts))]
    out = jax.device_get(
        run(
            jnp.asarray(enc[[k for k, _, _ in lanes]]),
            jnp.asarray(np.array([s for _, s, _ in lanes]).reshape(len(lanes), nsteps)),
            jnp.asarray(np.array([j for _, _, j in lanes]).reshape(len(lanes), njumps)),
        )
    )
    for i, (k, ss, jj) in enumerate(lanes):
        ref = reference(
            sgn * t0, sgn * t1, sgn * dt0, scripts[k],
            [sgn * s for s in ss], [sgn * j for j in jj], rep=rep, key=(tuple(ss), tuple(jj)),
        )
        rep.traces += 1
        rep.outcome(len(ref[0]))
        check_lane(
            rep, _lane(out, i), ref, ss, jj, iv, script=scripts[k], nested=nested
        )
    rep.sample(dict(interval=iv, script=scripts[-2], steps=ss, jumps=jj, nested=nested))
    return rep


def revisit(iv, store, depth, steps, jumps):
    rep = common.Report()
    t0, t1, dt0 = iv
    sgn = 1.0 if t0 < t1 else -1.0
    scripts = S.scripts(("a1", "rh", "a2"), depth)
    enc = jnp.asarray(S.encode(scripts))
    run = _make(iv, len(steps), len(jumps), None, store)
    n = len(scripts)
    out = jax.device_get(
        run(
            enc,
            jnp.tile(jnp.asarray(np.array(steps, float)), (n, 1)),
            jnp.tile(jnp.asarray(np.array(jumps, float)), (n, 1)),
        )
    )
    for k, script in enumerate(scripts):
        ref = reference(
            sgn * t0, sgn * t1, sgn * dt0, script, [sgn * s for s in steps],
            [sgn * j for j in jumps], store=store, rep=rep, key=(store, iv),
        )
        rep.traces += 1
        rep.outcome(ref[2])
        check_lane(
            rep, _lane(out, k), ref, steps, jumps, iv, store=store, script=script,
            buffer=store,
        )
    rep.sample(dict(interval=iv, script=scripts[-3], buffer=store, steps=steps, jumps=jumps))
    return rep


def restart():
    """Solving up to a jump, and then onwards from the time the first solve stopped at (the
    floating point number just before the jump, the jump itself, or the one after)."""
    rep = common.Report()

    @eqx.filter_jit
    @jax.vmap
    def run(t0, script):
        sol = dfx.diffeqsolve(
            S.TERM, S.ScriptSolver(), t0, 2.0, 0.25, S.zero_y(160),
            stepsize_controller=dfx.ClipStepSizeController(
                Inner(script), jump_ts=jnp.array([1.0, 1.5])
            ),
            max_steps=160,
            throw=False,
        )
        ys = jax.tree_util.tree_map(lambda x: x[0], sol.ys)
        return ys, common.result_codes(sol.result)

    scripts = S.scripts(("a1", "rh", "a2"), 3)
    starts = [down(1.0), 1.0, up(1.0), down(1.5), 0.75]
    g = list(itertools.product(starts, range(len(scripts))))
    enc = S.encode(scripts)
    ys, res = jax.device_get(
        run(jnp.asarray(np.array([a for a, _ in g])), jnp.asarray(enc[[k for _, k in g]]))
    )
    for i, (t0, k) in enumerate(g):
        n = int(ys["n"][i])
        log = ys["log"][i][:n]
        case = dict(t0=repr(t0), script=scripts[k], log=log)
        rep.check(res[i] == 0, "not successful", res=res[i], **case)
        rep.check(log[-1, 1] == 2.0, "does not reach t1", **case)
        rep.check(np.all(log[:, 0] <= log[:, 1]), "a step backwards in time", **case)
        rep.check(np.all(log[1:, 0] >= log[:-1, 1]), "steps overlap", **case)
        for j in (1.0, 1.5):
            if t0 < j and t0 != down(j):
                rep.check(
                    not np.any((log[:, 0] <= j) & (log[:, 1] >= j)), "touches a jump", j=j, **case
                )
                rep.check(np.any((log[:, 0] == up(j)) & (log[:, 2] == 1)), "not told", j=j, **case)
            elif t0 == down(j):
                rep.check(
                    not np.any((log[:, 0] < j) & (log[:, 1] > j)), "steps over a jump", j=j, **case
                )
        rep.state(t0, k)
        rep.transitions += n
        rep.traces += 1
    rep.sample(dict(starts=[repr(s) for s in starts]))
    return rep


def forcing(name, iv):
    """A piecewise constant forcing with known jumps: with the jumps declared, one step per
    piece is exact; an FSAL solver does not remember the other side of the jump."""
    rep = common.Report()
    from . import zoo

    solver = zoo.BY_NAME[name].make()
    t0, t1 = iv
    # All 3-piece levels from an alphabet, jumps at 1/4 and 1/2 of the interval.
    levels = np.array(list(itertools.product((-1.0, 0.5, 2.0), repeat=3)))
    j1, j2 = t0 + 0.25 * (t1 - t0), t0 + 0.5 * (t1 - t0)
    lo, hi = min(j1, j2), max(j1, j2)

    def vf(t, y, lev):
        return jnp.where(t < lo, lev[0], jnp.where(t < hi, lev[1], lev[2]))

    @eqx.filter_jit
    @jax.vmap
    def run(lev):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(vf), solver, t0, t1, (t1 - t0) * 0.2, jnp.array(0.0), args=lev,
            stepsize_controller=dfx.ClipStepSizeController(
                dfx.PIDController(rtol=1e-8, atol=1e-8), jump_ts=[j2, j1]
            ),
            max_steps=64, throw=False,
            saveat=dfx.SaveAt(ts=jnp.linspace(t0, t1, 9)),
        )
        return sol.ys, sol.stats["num_rejected_steps"], common.result_codes(sol.result)

    ys, rej, res = jax.device_get(run(jnp.asarray(levels)))
    grid_t = np.linspace(t0, t1, 9)
    for i, lev in enumerate(levels):
        F = lambda t: (
            lev[0] * np.minimum(t, lo) + lev[1] * (np.clip(t, lo, hi) - lo)
            + lev[2] * (np.maximum(t, hi) - hi)
        )
        want = F(grid_t) - F(t0)
        case = dict(solver=name, interval=iv, levels=lev)
        rep.check(res[i] == 0, "not successful", **case)
        rep.check(rej[i] == 0, "rejects steps at a declared jump", rejected=rej[i], **case)
        rep.check(
            np.allclose(ys[i], want, atol=1e-7), "wrong answer", got=ys[i], want=want, **case
        )
        rep.state(name, iv, i)
        rep.transitions += 9
        rep.traces += 1
    rep.sample(dict(solver=name, levels=levels[-1]))
    return rep


def SCENARIOS(tier):
    thorough = tier == "thorough"
    d = 6 if thorough else 4
    ab = ("a1", "rh", "a2") if thorough else ("a1", "rh", "a2", "ah")
    out = []
    cs = (0.3125, 0.5, 0.59, 1.0, 0.0, 1.25)
    cj = (0.37, 0.5, 0.59, 0.83, 0.0, -0.5)
    ivs = [(0.0, 1.0, 0.25), (5.0, 3.0, -0.5)]
    sizes = [(1, 0), (2, 0), (0, 1), (0, 2), (1, 1), (2, 1), (1, 2)]
    if thorough:
        sizes += [(3, 0), (0, 3), (2, 2)]
    for iv in ivs:
        for ns, nj in sizes:
            small = ns + nj > 2
            out.append(
                (
                    f"grid-{iv[0]:g}-{ns}-{nj}",
                    ft.partial(
                        grid, iv, ns, nj, None, d - 1 - (ns + nj > 3) if small else d, cs, cj,
                        ("a1", "rh", "a2") if small else ab,
                    ),
                )
            )
        for nested in ("step-in-jump", "jump-in-step"):
            out.append(
                (
                    f"nested-{nested}-{iv[0]:g}",
                    ft.partial(grid, iv, 1, 1, nested, 3, cs, cj, ab),
                )
            )
    rd = 8 if thorough else 6
    for iv in ivs:
        for store in (1, 2, 3, 4):
            out.append(
                (f"revisit-{iv[0]:g}-{store}", ft.partial(revisit, iv, store, rd, [], []))
            )
        out.append(
            (
                f"revisit-{iv[0]:g}-clip",
                ft.partial(
                    revisit, iv, 4, rd - 1, [iv[0] + 0.29 * (iv[1] - iv[0])],
                    [iv[0] + 0.653 * (iv[1] - iv[0])],
                ),
            )
        )
    out.append(("restart", restart))
    for name in ("Tsit5", "Bosh3", "Kvaerno3", "Heun") if thorough else ("Tsit5", "Kvaerno3"):
        for iv in [(0.0, 2.0), (1.0, -3.0)]:
            out.append((f"forcing-{name}-{iv[0]:g}", ft.partial(forcing, name, iv)))
    return out
