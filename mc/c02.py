"""C02: exactly the requested outputs are saved, with the right values, in order, once."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from . import common, scripted as S

BOUNDS = (
    "all 31 combinations of t0/t1/steps in {0,1,2,3}/ts given or not, x all sorted "
    "multisets of 3 output times (quick) over a 6-point grid containing t0, t1, step ends "
    "and interior points, x all accept/reject histories of depth 3 (thorough: 4) over 4 "
    "actions, x both directions and the empty interval, x runs cut short by max_steps or "
    "by a failure; 3 loop implementations"
)
ASSUMPTIONS = ["linear dense output in the scripted solver; C03/C16 cover the others"]

M = 14
_W = np.sqrt(np.arange(2, 2 + 4 * M)).reshape(M, 4)


def sig_np(n, log):
    return float(n), float(np.sum(_W * log[:M]))


def save_fn(t, y, args):
    return {
        "t": t,
        "n": y["n"],
        "sig": jnp.sum(jnp.asarray(_W) * y["log"]),
        "arg": args["tag"],
    }


COMBOS = [
    (t0, t1, steps, ts)
    for ts in (False, True)
    for steps in (0, 1, 2, 3)
    for t0 in (False, True)
    for t1 in (False, True)
    if t0 or t1 or steps or ts
]


def make_sub(combo, ts, fn=save_fn):
    t0, t1, steps, has_ts = combo
    return dfx.SubSaveAt(
        t0=t0, t1=t1, ts=ts if has_ts else None, steps=steps, fn=fn
    )


def expected(tr, combo, ts, t0, t1):
    """Reference list of (t, n, sig) in the direction of integration."""
    c0, c1, steps, has_ts = combo
    out = []
    if c0:
        out.append((t0, *sig_np(*S.y_at(tr, 0, M))))
    if has_ts and t0 == t1:
        y = sig_np(*S.y_at(tr, len(tr.accepted), M))
        out.extend((t0, *y) for _ in ts)
    todo = list(ts) if has_ts and t0 != t1 else []
    for j, (a, b, _, _) in enumerate(tr.accepted):
        while todo and todo[0] <= b:
            t = todo.pop(0)
            w = (t - a) / (b - a)
            n0, s0 = sig_np(*S.y_at(tr, j, M))
            n1, s1 = sig_np(*S.y_at(tr, j + 1, M))
            out.append((t, n0 + w * (n1 - n0), s0 + w * (s1 - s0)))
        if steps and (j + 1) % steps == 0:
            out.append((b, *sig_np(*S.y_at(tr, j + 1, M))))
    n = len(tr.accepted)
    if c1 and not (steps and n > 0 and n % steps == 0):
        out.append((tr.t, *sig_np(*S.y_at(tr, n, M))))
    return out


def explore(
    combos,
    intervals,
    alphabet,
    depth,
    nts,
    max_steps=12,
    adjoint=None,
    plain=False,
    controller_fails=False,
):
    rep = common.Report()
    adjoint = dfx.RecursiveCheckpointAdjoint() if adjoint is None else adjoint
    # A request that cannot ever save anything (only every n-th step, with fewer than n
    # steps allowed) is degenerate, and out of scope.
    combos = [c for c in combos if c[0] or c[1] or c[3] or c[2] <= max_steps]
    scripts = S.scripts(alphabet, depth)
    enc = jnp.asarray(S.encode(scripts))

    def solve(t0, t1, dt0, script, ts):
        if plain:
            (combo,) = combos
            c0, c1, steps, has_ts = combo
            saveat = dfx.SaveAt(
                t0=c0, t1=c1, steps=steps, ts=ts if has_ts else None, fn=save_fn
            )
        else:
            subs = [make_sub(c, ts) for c in combos]
            # A nested PyTree of outputs.
            saveat = dfx.SaveAt(subs={"a": subs[:1], "b": (tuple(subs[1:]),)})
        sol = dfx.diffeqsolve(
            S.TERM,
            S.ScriptSolver(),
            t0,
            t1,
            dt0,
            S.zero_y(M),
            args={"tag": jnp.array(7.0)},
            stepsize_controller=S.ScriptController(script, can_fail=controller_fails),
            saveat=saveat,
            adjoint=adjoint,
            max_steps=max_steps,
            throw=False,
        )
        if plain:
            pairs = [(sol.ts, sol.ys)]
        else:
            pairs = [(sol.ts["a"][i], sol.ys["a"][i]) for i in range(len(sol.ts["a"]))]
            pairs += [(t, y) for t, y in zip(sol.ts["b"][0], sol.ys["b"][0])]
        return pairs, common.result_codes(sol.result)

    vfn = eqx.filter_jit(
        jax.vmap(
            jax.vmap(solve, in_axes=(None, None, None, 0, None)),
            in_axes=(None, None, None, None, 0),
        )
    )
    for iv in intervals:
        t0, t1, dt0 = iv
        sgn = 1.0 if t0 < t1 else -1.0
        fr = np.array([0.0, 0.125, 0.25, 0.3, 0.75, 1.0])
        grid = np.unique(t0 + fr * (t1 - t0))
        if any(c[3] for c in combos):
            tss = [
                sorted(c, reverse=t1 < t0)
                for c in itertools.combinations_with_replacement(grid, nts)
            ]
        else:
            tss = [[t0] * nts]
        traces = [
            S.model(
                sgn * t0, sgn * t1, sgn * dt0, s, max_steps, report=rep, key=iv
            )
            for s in scripts
        ]
        pairs, res = jax.device_get(
            vfn(jnp.array(t0), jnp.array(t1), jnp.array(dt0), enc, jnp.asarray(tss))
        )
        cache = {}
        for q, ts in enumerate(tss):
            its = tuple(sgn * np.asarray(ts, float))
            for k, tr in enumerate(traces):
                rep.traces += 1
                name = common.RESULT_NAMES[int(res[q, k])]
                rep.outcome(name)
                if not rep.check(
                    name == tr.result, "result", got=name, want=tr.result, iv=iv,
                    script=scripts[k],
                ):
                    continue
                for c, (gts, gys) in zip(combos, pairs):
                    ck = (c, its if c[3] else (), k)
                    want = cache.get(ck)
                    if want is None:
                        want = expected(tr, c, its, sgn * t0, sgn * t1)
                        want = np.array(want, float).reshape(-1, 3)
                        cache[ck] = want
                        rep.transitions += len(want)
                    m = len(want)
                    gt = gts[q, k]
                    ok = len(gt) >= m
                    ok = ok and np.array_equal(gt[:m], sgn * want[:, 0])
                    ok = ok and bool(np.all(gt[m:] == np.inf))
                    ok = ok and np.array_equal(gys["t"][q, k][:m], sgn * want[:, 0])
                    ok = ok and np.allclose(
                        gys["n"][q, k][:m], want[:, 1], rtol=1e-12, atol=1e-12
                    )
                    ok = ok and np.allclose(
                        gys["sig"][q, k][:m], want[:, 2], rtol=1e-10, atol=1e-10
                    )
                    ok = ok and bool(np.all(gys["arg"][q, k][:m] == 7.0))
                    for leaf in ("t", "n", "sig", "arg"):
                        ok = ok and bool(np.all(gys[leaf][q, k][m:] == np.inf))
                    if not ok:
                        rep.fail(
                            "saved output differs from the request",
                            request=dict(zip(("t0", "t1", "steps", "ts"), c)),
                            ts=ts,
                            interval=iv,
                            script=scripts[k],
                            max_steps=max_steps,
                            got_t=gt,
                            got_n=gys["n"][q, k],
                            want=want,
                        )
    rep.sample(
        dict(requests=combos, interval=iv, ts=tss[-1], script=scripts[-1], want=want)
    )
    return rep


IVS = [(0.0, 1.0, 0.25), (1.0, 0.0, -0.25), (1.0, 1.0, 0.25)]


def SCENARIOS(tier):
    thorough = tier == "thorough"
    depth = 4 if thorough else 3
    alphabet = ("a1", "rh", "ah", "a2")
    nts = 3
    out = []
    groups = [COMBOS[i::8] for i in range(8)]
    for i, g in enumerate(groups):
        out.append((f"subs-{i}", ft.partial(explore, g, IVS, alphabet, depth, nts)))
    for ms in (1, 2, 3, 4) if not thorough else (1, 2, 3, 4, 5, 6):
        out.append(
            (
                f"max-steps-{ms}",
                ft.partial(
                    explore,
                    COMBOS[ms % 4 :: 4] if thorough else COMBOS[(3 * ms) % 8 :: 8],
                    IVS,
                    ("a1", "rh", "a2"),
                    3,
                    2,
                    ms,
                ),
            )
        )
    for i, c in enumerate(
        [
            (False, True, 0, False),
            (True, False, 0, False),
            (True, True, 0, False),
            (False, False, 0, True),
            (True, True, 0, True),
            (False, False, 1, False),
            (True, True, 1, False),
            (False, True, 2, False),
            (True, True, 3, True),
        ]
    ):
        out.append(
            (
                f"plain-{i}",
                ft.partial(
                    explore, [c], IVS, ("a1", "rh", "ah"), depth, 2, plain=True
                ),
            )
        )
    for name, adj in (("direct", dfx.DirectAdjoint()), ("forward", dfx.ForwardMode())):
        for i, g in enumerate(
            [COMBOS[k::4] for k in range(4)]
            if thorough
            else [COMBOS[k::8] for k in ((1, 6) if name == "direct" else (3, 4))]
        ):
            out.append(
                (
                    f"loop-{name}-{i}",
                    ft.partial(
                        explore, g, IVS, ("a1", "rh", "a2"), 3, 2, adjoint=adj
                    ),
                )
            )
    for n in (1, 4) if not thorough else (1, 4, 5):
        out.append(
            (
                f"nts-{n}",
                ft.partial(
                    explore,
                    [c for c in COMBOS if c[3]][n % 2 :: 2 if thorough else 4],
                    IVS,
                    ("a1", "rh", "a2"),
                    2,
                    n,
                ),
            )
        )
    return out
