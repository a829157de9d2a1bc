"""C22: progress meters tell the truth and change nothing.

Reference machines: the fraction of the interval that is done after every step (rational
arithmetic over a script of accepted and rejected steps), the printing rule of the text
meter, the refreshing rule of the bar, and a table of open meters.  The meters are run
along every history, and every interleaving of the lives of several meters (also at the
granularity of source lines of the shared table, under a controlled thread scheduler)."""

import contextlib
import functools as ft
import io
import itertools
import sys
import threading
import weakref

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from jax.experimental import io_callback

from . import common, scripted as S

BOUNDS = (
    "all histories of depth 4 (thorough 6) over {accept, double, halve, reject, fail} x both directions x budgets "
    "x {user's meter, text, bar} x thresholds; all ordered pairs (triples) of histories in a batch; "
    "all interleavings of the lives of 2 and 3 meters; all thread schedules with at most 2 (3) preemptions "
    "between lines; every adjoint x {initial value, end time} with a meter attached"
)


# ------------------------------------------------------------------ what the world sees
@contextlib.contextmanager
def stdout():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf
        jax.effects_barrier()


class Bars:
    """Stands in for the screen: every bar that is opened, every value it shows, its close."""

    def __init__(self):
        self.bars = []  # [(shown values, closed count)]
        self.refs = []

    @contextlib.contextmanager
    def patched(self):
        import tqdm

        real = tqdm.tqdm
        log = self

        class Bar(real):
            def __init__(self, *args, **kw):
                self.rec = [[], 0]
                log.bars.append(self.rec)
                log.refs.append(weakref.ref(self))
                kw["file"] = io.StringIO()
                super().__init__(*args, **kw)

            def display(self, *args, **kw):
                if hasattr(self, "rec") and (not self.rec[0] or self.rec[0][-1] != self.n):
                    self.rec[0].append(self.n)
                return True

            def close(self):
                if not self.disable:
                    self.display()
                    self.rec[1] += 1
                super().close()

        tqdm.tqdm = Bar
        try:
            yield self
        finally:
            tqdm.tqdm = real


def dedup(xs):
    return [x for i, x in enumerate(xs) if i == 0 or x != xs[i - 1]]


# ------------------------------------------------------------------ reference machines
def text_model(batch, minimum):
    """Lines of the text meter; `batch`: for each element the fractions after each step."""
    lines = ["0.00%"]
    last = [0.0] * len(batch)
    shown = 0.0
    for k in range(max(map(len, batch))):
        p = [b[min(k, len(b) - 1)] if b else 1.0 for b in batch]
        if all(x - l > minimum or x == 1 for x, l in zip(p, last)):
            shown = min(p)
            lines.append(f"{100 * shown:.2f}%")
            last = p
    if shown != 1:
        lines.append("100.00%")
    return lines


def bar_model(batch, refresh):
    shown = [0]
    for k in range(max(map(len, batch))):
        p = min(b[min(k, len(b) - 1)] if b else 1.0 for b in batch)
        if k % refresh == 0:
            shown.append(round(100 * p, 2))
    return dedup(shown + [100.0])


def fractions(script, max_steps, t1=2.0, dt=0.25):
    tr = S.model(0.0, t1, dt, script, max_steps=max_steps)
    out, t = [], 0.0
    for a, b, _, keep in tr.attempts:
        if keep:
            t = b
        out.append(t / t1)
    return out, tr


ALPHABET = ("a1", "a2", "ah", "rh", "f")


class Recorder(dfx.AbstractProgressMeter):
    """A user's own meter: counts in its state, and tells the host."""

    log: list = eqx.field(static=True)
    size: int = eqx.field(static=True, default=32)

    def init(self):
        return jnp.array(0), jnp.full(self.size, jnp.nan)

    def step(self, state, progress):
        i, buf = state
        return i + 1, buf.at[i].set(progress)

    def close(self, state):
        i, buf = state
        io_callback(lambda i, b: self.log.append((int(i), np.array(b))), None, i, buf)


def solve(meter, enc, sgn, max_steps, t1=2.0, throw=False, adjoint=None):
    return dfx.diffeqsolve(
        S.TERM, S.ScriptSolver(), 0.0 * sgn, t1 * sgn, 0.25 * sgn, S.zero_y(), max_steps=max_steps, throw=throw,
        stepsize_controller=S.ScriptController(enc, can_fail=True), progress_meter=meter,
        saveat=dfx.SaveAt(t1=True, steps=True), **({} if adjoint is None else dict(adjoint=adjoint)),
    )


def pick(sol):
    return sol.ts, sol.ys, common.result_codes(sol.result), sol.stats


def single(kind, param, max_steps, depth, adjoint="checkpointed"):
    """Every history, one at a time."""
    rep = common.Report()
    log = []
    meter = {"user": lambda: Recorder(log), "text": lambda: dfx.TextProgressMeter(param), "bar": lambda: dfx.TqdmProgressMeter(param)}[kind]()
    adj = {"checkpointed": dfx.RecursiveCheckpointAdjoint, "forward": dfx.ForwardMode, "direct": dfx.DirectAdjoint}[adjoint]()
    run = eqx.filter_jit(lambda m, e, s: pick(solve(m, e, s, max_steps, adjoint=adj)))
    bars = Bars()
    with bars.patched():
        for script in S.scripts(ALPHABET, depth):
            if "f" in script and script.index("f") < len(script) - 1 and any(a != "a1" for a in script[script.index("f") + 1:]):
                continue
            enc = jnp.asarray(S.encode([script])[0])
            fr, tr = fractions(script, max_steps)
            for sgn in (1.0, -1.0):
                del log[:], bars.bars[:], bars.refs[:]
                with stdout() as out:
                    got = run(meter, enc, sgn)
                    got = jax.device_get(got)
                case = dict(kind=kind, param=param, max_steps=max_steps, script=script, backwards=sgn < 0, adjoint=adjoint)
                for i, f in enumerate(fr):
                    rep.state(i, f)
                rep.transitions += len(fr)
                rep.traces += 1
                rep.outcome(tr.result)
                if kind == "user":
                    ok = len(log) == 1 and log[0][0] == len(fr) and np.array_equal(log[0][1][: len(fr)], fr)
                    rep.check(ok, "progress of each step", **case, got=log, want=fr)
                elif kind == "text":
                    want = text_model([fr], param)
                    rep.check(out.getvalue().split() == want, "text", **case, got=out.getvalue().split(), want=want)
                else:
                    want = bar_model([fr], param)
                    ok = len(bars.bars) == 1 and bars.bars[0][0] == want and bars.bars[0][1] == 1
                    rep.check(ok, "bar", **case, got=bars.bars, want=want)
                    import gc

                    if bars.refs[0]() is not None:
                        gc.collect()
                    rep.check(bars.refs[0]() is None, "bar is kept after its solve", **case)
                plain = jax.device_get(run(dfx.NoProgressMeter(), enc, sgn))
                same = all(common.same(a, b) for a, b in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(plain)))
                rep.check(same, "solution changed by the meter", **case)
    rep.sample(dict(script=script, fractions=fr))
    return rep


def batch(kind, param, size, depth, axis="script"):
    """Every ordered batch of histories: the slowest element is shown."""
    rep = common.Report()
    log = []
    meter = {"user": lambda: Recorder(log), "text": lambda: dfx.TextProgressMeter(param), "bar": lambda: dfx.TqdmProgressMeter(param)}[kind]()
    n = 24

    def go(e, t1):
        return pick(solve(meter, e, 1.0, n, t1))

    run = eqx.filter_jit(jax.vmap(go, (0, 0) if axis == "time" else (0, None)))
    scripts = [s for s in S.scripts(("a1", "a2", "rh"), depth)]
    ends = (2.0, 0.5, 1.0)
    bars = Bars()
    with bars.patched():
        for combo in itertools.product(scripts, repeat=size):
            enc = jnp.asarray(S.encode(combo))
            t1s = np.array(ends[:size]) if axis == "time" else np.full(size, 2.0)
            frs = [fractions(s, n, t)[0] for s, t in zip(combo, t1s)]
            del log[:], bars.bars[:]
            with stdout() as out:
                run(enc, jnp.asarray(t1s) if axis == "time" else 2.0)
            rep.transitions += sum(map(len, frs))
            rep.traces += 1
            rep.state(tuple(map(len, frs)), tuple(f[0] for f in frs))
            case = dict(kind=kind, param=param, scripts=combo, t1=t1s)
            if kind == "text":
                want = text_model(frs, param)
                rep.check(out.getvalue().split() == want, "text of a batch", **case, got=out.getvalue().split(), want=want)
            elif kind == "bar":
                want = bar_model(frs, param)
                ok = len(bars.bars) == 1 and bars.bars[0][0] == want and bars.bars[0][1] == 1
                rep.check(ok, "bar of a batch", **case, got=bars.bars, want=want)
            else:
                got = sorted((i, tuple(b[:i])) for i, b in log)
                rep.check(got == sorted((len(f), tuple(f)) for f in frs), "progress of a batch", **case, got=got, want=frs)
    rep.sample(dict(case=combo))
    return rep


# ------------------------------------------------------------ lives of several meters
LIVES = {
    # progress values that identify the meter
    0: [("init",), ("step", 0.25), ("step", 0.5), ("close",)],
    1: [("init",), ("step", 0.375), ("step", 1.0), ("close",)],
    2: [("init",), ("step", 0.625), ("close",)],
}


def interleavings(counts):
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[i] -= 1
            for tail in interleavings(rest):
                yield (i,) + tail


def lives(kinds, short):
    """Every interleaving of open meters: each prints its own progress, no other."""
    rep = common.Report()
    meters = [dfx.TextProgressMeter(0.1) if k == "text" else dfx.TqdmProgressMeter(1) for k in kinds]
    fns = [(eqx.filter_jit(m.init), eqx.filter_jit(m.step), eqx.filter_jit(m.close)) for m in meters]
    plans = [[e for e in LIVES[i] if not (short and e == ("step", 0.25))] for i in range(len(kinds))]
    if short:
        plans = [[e for j, e in enumerate(p) if e[0] != "step" or j == 1] for p in plans]
    bars = Bars()
    with bars.patched():
        for order in interleavings([len(p) for p in plans]):
            del bars.bars[:]
            state, pos, mine, shown, last = {}, [0] * len(kinds), {}, [], {}
            want_bars = []
            want = []
            with stdout() as out:
                for i in order:
                    ev = plans[i][pos[i]]
                    pos[i] += 1
                    init, step, close = fns[i]
                    try:
                        if ev[0] == "init":
                            state[i] = init()
                            if kinds[i] == "text":
                                want.append("0.00%")
                            else:
                                want_bars.append([[0], 0])
                                mine[i] = want_bars[-1]
                            last[i] = 0.0
                        elif ev[0] == "step":
                            state[i] = step(state[i], jnp.array(ev[1]))
                            if kinds[i] == "text":
                                want.append(f"{100 * ev[1]:.2f}%")
                            else:
                                mine[i][0].append(round(100 * ev[1], 2))
                            last[i] = ev[1]
                        else:
                            close(state[i])
                            if kinds[i] == "text":
                                if last[i] != 1:
                                    want.append("100.00%")
                            else:
                                mine[i][1] += 1
                                if mine[i][0][-1] != 100:
                                    mine[i][0].append(100.0)
                    except Exception as e:
                        jax.effects_barrier()
                        rep.fail("refused", kinds=kinds, order=order, event=ev, error=str(e)[-300:])
                        break
                    jax.block_until_ready(jax.tree_util.tree_leaves(state[i]))
                    jax.effects_barrier()
                    rep.transitions += 1
                    rep.state(tuple(pos))
            rep.traces += 1
            rep.check(out.getvalue().split() == want, "text of several meters", kinds=kinds, order=order, got=out.getvalue().split(), want=want)
            rep.check(bars.bars == want_bars, "several bars", kinds=kinds, order=order, got=bars.bars, want=want_bars)
    rep.sample(dict(kinds=kinds, order=order))
    return rep


class Scheduler:
    """Runs one thread at a time; `choose(n)` decides at every line of the meters' code."""

    def __init__(self, choices, bound):
        self.cv = threading.Condition()
        self.choices = list(choices)
        self.taken = []  # (number of options, choice)
        self.bound = bound
        self.live = []
        self.blocked = {}  # thread -> lock
        self.current = None

    def runnable(self):
        return [t for t in self.live if t not in self.blocked or self.blocked[t].owner is None]

    def decide(self, me):
        """Called with the token, by the running thread; picks who is next."""
        run = self.runnable()
        if not run:
            self.current = None
            self.cv.notify_all()
            return
        can_stay = me in run
        used = self.preemptions
        options = ([me] + [t for t in run if t != me]) if can_stay else run
        if can_stay and used >= self.bound:
            options = [me]
        k = len(self.taken)
        c = self.choices[k] if k < len(self.choices) else 0
        if len(options) > 1:
            self.taken.append((len(options), c))
        else:
            c = 0
        nxt = options[c]
        if can_stay and nxt != me:
            self.preemptions += 1
        self.current = nxt
        self.cv.notify_all()

    def point(self, me, wait=True):
        with self.cv:
            self.decide(me)
            if wait:
                self.cv.wait_for(lambda: self.current == me, timeout=60)

    def run(self, bodies):
        self.preemptions = 0
        self.errors = {}
        self.live = list(range(len(bodies)))
        threads = []

        def outer(i):
            with self.cv:
                self.cv.wait_for(lambda: self.current == i, timeout=60)

            def local(frame, event, arg):
                if event == "line":
                    self.point(i)
                return local

            def tracer(frame, event, arg):
                if event == "call" and frame.f_code.co_filename.endswith("_progress_meter.py"):
                    return local
                return None

            _ME.i, _ME.sched = i, self
            sys.settrace(tracer)
            try:
                bodies[i]()
            except BaseException as e:
                self.errors[i] = e
            finally:
                sys.settrace(None)
                with self.cv:
                    self.live.remove(i)
                    self.decide(i)

        for i in range(len(bodies)):
            threads.append(threading.Thread(target=outer, args=(i,), daemon=True))
            threads[-1].start()
        with self.cv:
            self.decide(None)
        for t in threads:
            t.join(90)
        return not any(t.is_alive() for t in threads)


_ME = threading.local()


class Lock:
    """A lock that the scheduler knows about."""

    def __init__(self):
        self.owner = None

    def acquire(self, *a, **k):
        i, s = _ME.i, _ME.sched
        while self.owner is not None:
            s.blocked[i] = self
            s.point(i)
        s.blocked.pop(i, None)
        self.owner = i
        return True

    def release(self):
        self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def threads(kinds, bound, short):
    """Solves in several threads: all schedules of the lines of the shared table."""
    import diffrax._progress_meter as pm

    rep = common.Report()
    lock_types = (type(threading.Lock()), type(threading.RLock()))
    # wherever the code keeps its locks, make them known to the scheduler
    homes = [vars(pm)] + [vars(o) for o in vars(pm).values() if type(o).__module__ == pm.__name__ and hasattr(o, "__dict__") and not isinstance(o, type)]
    saved = [(h, k, v) for h in homes for k, v in list(h.items()) if isinstance(v, lock_types)]
    for h, k, v in saved:
        h[k] = Lock()
    plans = [[e for e in LIVES[i]] for i in range(len(kinds))]
    if short:
        plans = [[p[0], p[-1]] for p in plans]
    bars = Bars()
    choices = []
    try:
        with bars.patched():
            while True:
                del bars.bars[:]
                seen = {}
                out = io.StringIO()

                def body(i):
                    with jax.disable_jit():
                        m = dfx.TextProgressMeter(0.1) if kinds[i] == "text" else dfx.TqdmProgressMeter(1)
                        for ev in plans[i]:
                            if ev[0] == "init":
                                st = m.init()
                                seen[i] = int(np.asarray(st.meter_idx)) if hasattr(st, "meter_idx") else None
                            elif ev[0] == "step":
                                st = m.step(st, np.array(ev[1]))
                            else:
                                m.close(st)

                sched = Scheduler(choices, bound)
                with contextlib.redirect_stdout(out):
                    done = sched.run([ft.partial(body, i) for i in range(len(kinds))])
                rep.traces += 1
                rep.transitions += len(sched.taken)
                rep.state(tuple(c for _, c in sched.taken))
                case = dict(kinds=kinds, schedule=[c for _, c in sched.taken], short=short)
                rep.check(done, "deadlock", **case)
                rep.check(not sched.errors, "refused", **case, errors={k: repr(v)[-200:] for k, v in sched.errors.items()})
                want = []
                want_bars = []
                for i, k in enumerate(kinds):
                    steps = [e[1] for e in plans[i] if e[0] == "step"]
                    if k == "text":
                        want += text_model([steps], 0.1) if steps else ["0.00%", "100.00%"]
                    else:
                        want_bars.append([bar_model([steps], 1) if steps else [0, 100.0], 1])
                rep.check(sorted(out.getvalue().split()) == sorted(want), "text from several threads", **case, got=out.getvalue().split(), want=want)
                rep.check(sorted(bars.bars) == sorted(want_bars), "bars from several threads", **case, got=bars.bars, want=want_bars)
                if rep.violations and (not done or rep.traces > 200):
                    break
                # next schedule, depth first
                stack = sched.taken
                while stack and stack[-1][1] + 1 >= stack[-1][0]:
                    stack.pop()
                if not stack:
                    break
                choices = [c for _, c in stack[:-1]] + [stack[-1][1] + 1]
    finally:
        for h, k, v in saved:
            h[k] = v
    rep.sample(dict(kinds=kinds, bound=bound))
    return rep


# ------------------------------------------------------------------------- derivatives
def gradients(kind, th):
    """A meter does not get in the way of any derivative, and prints while solving only."""
    rep = common.Report()
    mk = dict(text=lambda: dfx.TextProgressMeter(0.3), bar=lambda: dfx.TqdmProgressMeter(2))[kind]
    ctls = dict(constant=dfx.ConstantStepSize(), pid=dfx.PIDController(rtol=1e-3, atol=1e-3))
    cases = [(a, c, w, m) for a in ("checkpointed", "direct", "forward", "backsolve") for c in ctls for w in ("y", "t1", "t0") for m in ("grad", "jvp")]
    adjs = dict(checkpointed=dfx.RecursiveCheckpointAdjoint, direct=dfx.DirectAdjoint, forward=dfx.ForwardMode, backsolve=dfx.BacksolveAdjoint)
    bars = Bars()
    for a, c, w, m in cases:
        if (m == "jvp") != (a == "forward") and not (a == "direct" and th):
            continue
        if a == "backsolve" and w != "y":
            continue
        if not th and ((c == "pid") != (a == "checkpointed") or (w == "t0" and a != "checkpointed")):
            continue

        def f(x, meter):
            y0, t0, t1 = (x if w == k else v for k, v in (("y", 1.0), ("t0", 0.0), ("t1", 1.0)))
            return dfx.diffeqsolve(
                dfx.ODETerm(lambda t, y, args: -y), dfx.Heun(), t0, t1, 0.1, y0, adjoint=adjs[a](),
                stepsize_controller=ctls[c], progress_meter=meter, max_steps=64,
            ).ys[0]

        x0 = dict(y=1.0, t0=0.0, t1=1.0)[w]
        d = lambda meter: jax.jit(jax.grad(lambda x: f(x, meter)) if m == "grad" else (lambda x: jax.jvp(lambda z: f(z, meter), (x,), (1.0,))[1]))(x0)
        case = dict(meter=kind, adjoint=a, controller=c, wrt=w, mode=m)
        rep.state(a, c, w, m)
        rep.transitions += 10
        rep.traces += 1
        del bars.bars[:]
        with bars.patched(), stdout() as out:
            try:
                got = float(d(mk()))
            except Exception as e:
                rep.fail("cannot be differentiated", **case, error=type(e).__name__ + str(e)[:200])
                continue
        rep.check(common.close(got, float(d(dfx.NoProgressMeter())), 1e-12, 1e-12), "derivative", **case, got=got)
        if kind == "text":
            lines = [float(x[:-1]) for x in out.getvalue().split()]
            rep.check(lines[0] == 0 and lines[-1] == 100 and lines == sorted(lines) and lines.count(100) == 1, "text", **case, got=lines)
        else:
            ok = len(bars.bars) == 1 and bars.bars[0][0] == sorted(bars.bars[0][0]) and bars.bars[0][0][-1] == 100 and bars.bars[0][1] == 1
            rep.check(ok, "bar", **case, got=bars.bars)
    rep.sample(case)
    return rep


def SCENARIOS(tier):
    th = tier == "thorough"
    d = 6 if th else 4
    out = []
    for kind, params in (("user", (None,)), ("text", (0.02, 0.25, 0.5)), ("bar", (1, 2, 3))):
        for p in params:
            for n in (16, 3) if th or p in (None, 0.25, 2) else (16,):
                out.append((f"single-{kind}-{p}-{n}", ft.partial(single, kind, p, n, d)))
        if th or kind != "user":
            for a in ("forward", "direct"):
                out.append((f"single-{kind}-{a}", ft.partial(single, kind, params[-1], 16, d - 1, a)))
        for p in params[1:2] or params:
            out.append((f"batch-{kind}-2", ft.partial(batch, kind, p, 2, 4 if th else 3)))
            out.append((f"batch-{kind}-3-time", ft.partial(batch, kind, p, 3, 3 if th else 2, "time")))
    for kinds in (("text", "text"), ("bar", "bar"), ("text", "bar")):
        out.append((f"lives-{'-'.join(kinds)}", ft.partial(lives, kinds, False)))
        out.append((f"threads-{'-'.join(kinds)}", ft.partial(threads, kinds, 3 if th else 1, False)))
        out.append((f"threads-short-{'-'.join(kinds)}", ft.partial(threads, kinds, 4 if th else 1, True)))
    out.append(("lives-3", ft.partial(lives, ("bar", "text", "bar"), not th)))
    for kind in ("text", "bar"):
        out.append((f"gradients-{kind}", ft.partial(gradients, kind, th)))
    slow = ("threads-short-text-bar", "gradients", "threads")
    return sorted(out, key=lambda x: [not x[0].startswith(s) for s in slow], reverse=False)
