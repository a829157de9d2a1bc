bug("s16", "C20", "a state whose leaves have different precisions, the first leaf the lower one, and times in the lower precision",
    "the coefficients of the method are rounded to the precision of the first leaf, so that the solution depends on how the state is arranged", H + '''
y = (jnp.asarray(1.0, jnp.float32), jnp.asarray(1.0, jnp.float64))
go = lambda y: dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: jax.tree_util.tree_map(lambda x: -x, y)), dfx.Dopri5(), *(jnp.asarray(x, jnp.float32) for x in (0.0, 1.0, 0.125)), y).ys
a = go(y)[1][0]
b = go(y[::-1])[0][0]
print(a, b)
assert abs(a - b) < 1e-12
''')
bug("s17", "C23", "asking a Brownian path for a time before its start",
    "a value is made up instead of an error being raised", H + '''
p = dfx.VirtualBrownianTree(0.0, 1.0, 1e-3, (), jax.random.PRNGKey(0))
for t in (-0.5, 1.5):
    try:
        v = p.evaluate(t)
    except Exception as e:
        print(type(e).__name__)
    else:
        raise AssertionError(f"{t} {v}")
''')
bug("s26", "C05", "a rejected step, and a controller with a derivative coefficient",
    "the error before last is forgotten on a rejection, so that the step after it is chosen by another law than the documented one", H + '''
c = dfx.PIDController(1e-3, 1e-3, pcoeff=0.1, icoeff=0.3, dcoeff=0.2)
terms = dfx.ODETerm(lambda t, y, a: -y)
y = jnp.array(1.0)
_, s = c.init(terms, 0.0, 1.0, y, 0.1, None, None, 2)
t0, t1 = 0.0, 0.1
errs = [0.5, 0.7, 3.0, 0.4]
inv = [1.0, 1.0]
for r in errs:
    f = 0.9 * (1 / r) ** (0.6 / 2) * inv[-1] ** (-0.5 / 2) * inv[-2] ** (0.2 / 2)
    f = min(max(f, 1.0 if r < 1 else 0.2), 10.0 if r < 1 else 0.9)
    dt = (t1 - t0) * f
    keep, t0, t1, _, s, _ = c.adapt_step_size(t0, t1, y, y, None, r * 2e-3 * jnp.ones(()), 2, s)
    t0, t1 = float(t0), float(t1)
    print(bool(keep), t1 - t0, dt)
    assert abs((t1 - t0) - dt) < 1e-9
    if r < 1:
        inv.append(1 / r)
''')
bug("s27", "C08", "an event that waits for an upcrossing, whose value is exactly zero at the end of a step",
    "the crossing is missed", H + '''
sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: 1.0), dfx.Euler(), 0.0, 4.0, 0.5, jnp.array(-1.0),
    event=dfx.Event(lambda t, y, args, **kw: y, direction=True))
print(sol.ts, sol.ys, sol.event_mask)
assert bool(sol.event_mask) and sol.ts[0] < 2
''')
bug("s28", "C11", "dense output of a batch of solves of different lengths, evaluated where only some of them have got to",
    "one element that is asked beyond its end turns the values of all others into NaN", H + '''
def f(t1, t):
    sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Tsit5(), 0.0, t1, 0.1, jnp.array(1.0), saveat=dfx.SaveAt(dense=True))
    return sol.evaluate(t)
v = jax.vmap(f, in_axes=(0, None))(jnp.array([1.0, 2.0]), 1.5)
print(v)
assert np.isnan(v[0]) and abs(v[1] - np.exp(-1.5)) < 1e-3
''')
bug("s31", "C07", "an interval that is short in absolute terms (such as femtoseconds, measured in seconds)",
    "the rounding of the last step to the end is by a tolerance that is absolute for small times, so that steps of the given size are merged into one", H + """
sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -1e14 * y), dfx.Euler(), 0.0, 1e-13, 1e-14, jnp.array(1.0), saveat=dfx.SaveAt(steps=True), max_steps=16)
print(sol.ts)
assert int(sol.stats["num_steps"]) in (10, 11)
""")
bug("s32", "C02", "saving every n-th step (n > 1) of an adaptive solve with rejected steps",
    "rejected steps are counted as well, so that other steps than every n-th one are saved", H + """
kw = dict(t0=0.0, t1=3.0, dt0=1.0, y0=jnp.array(1.0), stepsize_controller=dfx.PIDController(1e-6, 1e-6), max_steps=100)
go = lambda n: dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y * jnp.cos(5 * t) * 3), dfx.Tsit5(), saveat=dfx.SaveAt(steps=n), **kw)
a, b = go(1), go(2)
print(a.stats, a.ts[:8], b.ts[:4])
n = int(a.stats["num_accepted_steps"])
assert int(a.stats["num_rejected_steps"]) > 0
assert np.array_equal(np.asarray(a.ts[:n])[1::2], np.asarray(b.ts)[: n // 2])
""")
bug("s33", "C12", "ImplicitAdjoint with a vector field that depends on time, in a solve that is ended early by an event",
    "the implicit function theorem is applied at t1, and not at the time that was reached", H + """
def go(a, t1):
    return dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: a * jnp.where(t < 50, 1.0, 2.0) - y), dfx.Kvaerno5(), 0.0, t1, 0.1, jnp.array(0.3), a,
        stepsize_controller=dfx.PIDController(1e-9, 1e-9), adjoint=dfx.ImplicitAdjoint(),
        event=dfx.Event(dfx.steady_state_event(1e-6, 1e-6))).ys[0]
g = jax.grad(go)(1.3, 100.0)
print(go(1.3, 100.0), g)
assert abs(g - 1) < 1e-4
""")
bug("s34", "C13", "an increment of a Brownian path with space-time-time Levy area that does not start at the start of the path",
    "the space-time-time Levy area of the increment does not obey Chen's relation", H + """
p = dfx.VirtualBrownianTree(0.0, 1.0, 2**-6, (), jax.random.PRNGKey(0), levy_area=dfx.SpaceTimeTimeLevyArea)
# K is an integral of the path: compute it from the values of the path, which is piecewise linear when sampled finely
r = lambda a, b: p.evaluate(a, b, use_levy=True)
def K(s, u, n=4000):
    t = np.linspace(s, u, n + 1)
    w = np.asarray(jax.vmap(lambda x: p.evaluate(x))(jnp.asarray(t)))
    x = (t - s) / (u - s)
    arch = w - w[0] - x * (w[-1] - w[0])
    f = arch * (0.5 - x)
    return np.sum((f[1:] + f[:-1]) / 2) / n
for s, u in [(0.0, 0.5), (0.25, 0.75), (0.5, 1.0)]:
    print(float(r(s, u).K), K(s, u))
    assert abs(r(s, u).K - K(s, u)) < 5e-3
""")
bug("s35", "C01", "a first step after a jump that is rejected, with a solver that reuses the last slope of the step before",
    "the solver is no longer told that the vector field jumped when the step is tried again, and reuses the slope of before the jump", H + """
vf = lambda t, y, a: jnp.where(t < 0.5, 0.0, -3.0) * y + jnp.where(t < 0.5, 1000.0, jnp.sin(300 * t))
sol = dfx.diffeqsolve(dfx.ODETerm(vf), dfx.Tsit5(), 0.0, 1.0, 0.5, jnp.array(0.0),
    stepsize_controller=dfx.ClipStepSizeController(dfx.PIDController(1e-7, 1e-7), jump_ts=jnp.array([0.5])), max_steps=None)
ref = 500 * np.exp(-1.5)
r = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -3.0 * y + jnp.sin(300 * t)), dfx.Tsit5(), 0.5, 1.0, 1e-4, jnp.array(500.0), max_steps=None).ys[0]
print(sol.stats, sol.ys[0], r)
assert int(sol.stats["num_rejected_steps"]) > 0
assert abs(sol.ys[0] - r) < 1e-4
""")

bug("s24", "C24", "a batch of solves of an underdamped Langevin equation, one of which keeps its step size while another changes it",
    "coefficients of the previous step size are used for a step of another size", H + """
def terms(key=jax.random.PRNGKey(0)):
    w = dfx.VirtualBrownianTree(0.0, 1.0, 1e-3, (1,), key, levy_area=dfx.SpaceTimeTimeLevyArea)
    return dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(1.0, 1.0, lambda x, *a: x), dfx.UnderdampedLangevinDiffusionTerm(1.0, 1.0, w))
def go(ts):
    return dfx.diffeqsolve(terms(), dfx.ALIGN(0.01), 0.0, 1.0, None, (jnp.ones(1), jnp.ones(1)), stepsize_controller=dfx.StepTo(ts)).ys[0][0]
ts = jnp.array([[0.0, 0.25, 0.5, 0.75, 1.0], [0.0, 0.5, 0.6, 0.9, 1.0]])
a, b = jax.vmap(go)(ts), jnp.stack([go(t) for t in ts])
print(a, b)
assert np.allclose(a, b, rtol=1e-8)
""")
bug("s25", "C16", "a half-step error estimate around a method that is first same as last",
    "the full step which the two half steps are compared with starts from the slope at the end of the half steps, so that the error estimate is not that of the step", H + """
t = dfx.ODETerm(lambda t, y, a: -3 * y * jnp.cos(5 * t))
s = dfx.HalfSolver(dfx.Bosh3())
y0, t0, t1 = jnp.array(1.0), 0.0, 0.4
st = s.init(t, t0, t1, y0, None)
y1, err, *_ = s.step(t, t0, t1, y0, None, st, False)
b = dfx.Bosh3()
full, *_ = b.step(t, t0, t1, y0, None, b.init(t, t0, t1, y0, None), False)
want = abs(y1 - full)
print(err, want)
assert np.allclose(np.asarray(err), np.asarray(want), rtol=1e-3, atol=1e-12) or np.allclose(np.asarray(err), np.asarray(want) / 7, rtol=1e-3)
""")
bug("s36", "C25", "a solve with dense output over an interval that is tiny in the units of time",
    "interpolation returns the start of each step when steps are shorter than an absolute threshold", H + """
c = 1e-15
sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y / c), dfx.Tsit5(), 0.0, c, 0.5 * c, jnp.array(1.0), saveat=dfx.SaveAt(dense=True))
print(sol.evaluate(0.3 * c), np.exp(-0.3))
assert abs(sol.evaluate(0.3 * c) - np.exp(-0.3)) < 1e-2
""")
