bug("s12", "C22", "two solves in two threads which start at the same moment",
    "two progress meters can be given the same index, so that the bar of one is lost and closing the second one fails", H + '''
import threading, time
from diffrax._progress_meter import _ProgressMeterManager
class Slow(dict):
    def __setitem__(self, k, v):
        time.sleep(0.3)
        super().__setitem__(k, v)
m = _ProgressMeterManager()
m.bars = Slow()
out = []
go = lambda name: out.append(int(jax.jit(lambda: m.init(lambda: name))()))
ts = [threading.Thread(target=go, args=(n,)) for n in "ab"]
[t.start() for t in ts]; [t.join() for t in ts]
print(out, dict(m.bars))
assert sorted(out) == [1, 2] and sorted(m.bars.values()) == ["a", "b"]
''')
bug("s13", "C03", "the right derivative of the dense output at the end of a step",
    "the derivative from the right is that of the step on the left, extrapolated", H + '''
c = dfx.ClipStepSizeController(dfx.PIDController(1e-6, 1e-6), jump_ts=jnp.array([0.5]))
sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: jnp.where(t < 0.5, 1.0, -1.0)), dfx.Tsit5(), 0.0, 1.0, 0.1, jnp.array(0.0),
    stepsize_controller=c, saveat=dfx.SaveAt(dense=True))
ts = np.asarray(sol.interpolation.ts)
t = ts[np.isfinite(ts)]
t = t[np.argmin(abs(t - 0.5) + (t < 0.5))]   # the start of the first step after the jump
print(t, sol.derivative(t, left=False), sol.derivative(t, left=True))
sol2 = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: 1.0 + t * 0), dfx.Euler(), 0.0, 1.0, 0.5, jnp.array(0.0), saveat=dfx.SaveAt(dense=True))
sol3 = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: t), dfx.Euler(), 0.0, 1.0, 0.5, jnp.array(0.0), saveat=dfx.SaveAt(dense=True))
print(sol3.derivative(0.5, left=True), sol3.derivative(0.5, left=False))
assert abs(sol3.derivative(0.5, left=True)) < 1e-9 and abs(sol3.derivative(0.5, left=False) - 0.5) < 1e-9
''')
bug("s14", "C10", "a solve that is stopped on the step that ends just before a jump, continued with made_jump",
    "the returned made_jump is that of the start of the solve, so that the continued solve reuses the slope of before the jump", H + '''
vf = lambda t, y, a: jnp.where(t < 0.5, 1.0, -1.0)
c = dfx.ClipStepSizeController(dfx.PIDController(1e-6, 1e-6), jump_ts=jnp.array([0.5]))
sol = dfx.diffeqsolve(dfx.ODETerm(vf), dfx.Tsit5(), 0.0, 1.0, 0.6, jnp.array(0.0), stepsize_controller=c,
    saveat=dfx.SaveAt(t1=True, made_jump=True), max_steps=1, throw=False)
print(sol.ts, sol.made_jump)
assert bool(sol.made_jump)
''')
bug("s15", "C09", "integrating backwards in time with a solver that evaluates vector field times control products at interior times",
    "solvers that use vf_prod (all but FSAL ones) evaluate the vector field at the negated time", H + '''
go = lambda s: dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: t), s, 1.0, 0.0, -0.05, jnp.array(0.0)).ys[0]
print(go(dfx.Heun()), go(dfx.Dopri8()), go(dfx.Dopri5()))
assert abs(go(dfx.Heun()) + 0.5) < 1e-6 and abs(go(dfx.Dopri5()) + 0.5) < 1e-6
''')
bug("s18", "C21", "an implicit Runge-Kutta step whose nonlinear solve fails although its error estimate is small",
    "the failed step is accepted and ends the solve instead of being retried with a smaller step", H + '''
import optimistix as optx
s = dfx.Kvaerno3(root_finder=dfx.VeryChord(rtol=1e-10, atol=1e-10), root_find_max_steps=4)
sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -3 * jnp.sin(2 * y)), s, 0.0, 2.0, 1.0, jnp.array(1.2),
    stepsize_controller=dfx.PIDController(10.0, 10.0), throw=False, max_steps=1000)
print(sol.result == dfx.RESULTS.successful, sol.stats["num_steps"], sol.stats["num_rejected_steps"])
assert sol.result == dfx.RESULTS.successful and sol.stats["num_rejected_steps"] > 0
''')
bug("s19", "C17", "an SDE with a drift, as the step size goes to zero",
    "a weight of the Levy area terms of SlowRK belongs to another stage, so that it is of order 1 rather than 1.5", H + '''
class P(dfx.AbstractBrownianPath):
    w: float
    eta: float
    levy_area = dfx.SpaceTimeLevyArea
    t0 = -jnp.inf
    t1 = jnp.inf
    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        h = t1 - t0
        return dfx.SpaceTimeLevyArea(dt=h, W=self.w * jnp.sqrt(h), H=self.eta * jnp.sqrt(h)) if use_levy else self.w * jnp.sqrt(h)
object.__setattr__
def err(h):
    # dy = cos(y) dt + y o dW: y1 = stochastic Taylor expansion up to order 1.5
    f = lambda y: jnp.cos(y)
    g = lambda y: 0.5 * y
    term = dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: f(y)), dfx.ControlTerm(lambda t, y, a: g(y), P(0.7, 0.6)))
    y = jnp.array(0.8); s = dfx.SlowRK()
    t0, t1 = jnp.array(0.0), jnp.array(h)
    y1 = s.step(term, t0, t1, y, None, s.init(term, t0, t1, y, None), False)[0]
    W, Hh = 0.7 * h**0.5, 0.6 * h**0.5
    D = lambda u, v: (lambda y: jax.grad(u)(y) * v(y))
    gg = D(g, g); ggg = D(gg, g); gggg = D(ggg, g)
    # int_0^h W dt = h (W/2 + H);  int_0^h s o dW = h W - that
    I10 = h * (W / 2 + Hh); I01 = h * W - I10
    ex = y + f(y) * h + g(y) * W + gg(y) * W**2 / 2 + ggg(y) * W**3 / 6 + D(f, g)(y) * I10 + D(g, f)(y) * I01
    return abs(float(y1 - ex))
o = np.log2(err(1e-3) / err(2.5e-4)) / 2
print(o)
assert o > 1.8
''')
bug("s20", "C18", "a step so small that the Taylor expansion of the coefficients is used",
    "a coefficient of the Taylor expansion in QUICSORT is wrong, so that steps just below and above the threshold differ", H + '''
def step(th):
    bm = dfx.VirtualBrownianTree(0.0, 1.0, 1e-3, (1,), jax.random.PRNGKey(0), levy_area=dfx.SpaceTimeTimeLevyArea)
    g, u = jnp.array([1.5]), jnp.array([1.0])
    terms = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(g, u, lambda x, a: 2 * x), dfx.UnderdampedLangevinDiffusionTerm(g, u, bm))
    return dfx.diffeqsolve(terms, dfx.QUICSORT(th), 0.0, 0.05, 0.05, (jnp.array([0.0]), jnp.array([1.0]))).ys
a, b = step(0.0), step(1.0)
print(a, b)
assert np.allclose(a, b, atol=1e-7, rtol=0)
''')
bug("s21", "C15", "several channels of which only some are missing at the start, with replace_nans_at_start",
    "observed first values of the other channels are overwritten", H + '''
ys = jnp.array([[jnp.nan, 1.0], [2.0, 3.0], [4.0, 5.0]])
out = dfx.linear_interpolation(jnp.arange(3.0), ys, replace_nans_at_start=jnp.array([7.0, 9.0]))
print(out)
assert np.allclose(out, [[7.0, 1.0], [2.0, 3.0], [4.0, 5.0]])
''')
bug("s22", "C19", "a MultiTerm of three or more terms",
    "all terms but the first and the last are dropped", H + '''
T = [dfx.ODETerm(lambda t, y, a, c=c: c + 0 * y) for c in (1.0, 10.0, 100.0)]
y = dfx.diffeqsolve(dfx.MultiTerm(*T), dfx.Heun(), 0.0, 1.0, 0.1, jnp.array(0.0)).ys[0]
print(y)
assert abs(y - 111.0) < 1e-9
''')
bug("s23", "C04", "a step that is rejected and at the same time ends the solve with a failure",
    "the rejected step is not counted: accepted plus rejected steps are fewer than all steps", H + '''
c = dfx.PIDController(1e-10, 1e-10, dtmin=0.5, force_dtmin=False)
sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -30 * y), dfx.Tsit5(), 0.0, 2.0, 1.0, jnp.array(1.0), stepsize_controller=c, throw=False)
s = {k: int(v) for k, v in sol.stats.items()}
print(s, sol.result)
assert s["num_steps"] == s["num_accepted_steps"] + s["num_rejected_steps"]
''')
bug("s29", "C14", "an UnsafeBrownianPath over a PyTree",
    "all leaves of the same shape are the same Brownian motion", H + '''
bm = dfx.UnsafeBrownianPath({"a": jax.ShapeDtypeStruct((), jnp.float64), "b": jax.ShapeDtypeStruct((), jnp.float64)}, jax.random.PRNGKey(0))
w = bm.evaluate(jnp.array(0.0), jnp.array(1.0))
print(w)
assert abs(w["a"] - w["b"]) > 1e-6
''')
bug("s30", "C16", "the size of the error estimate of Bosh3 as the step shrinks",
    "two weights of the error estimate of Bosh3 are swapped; they still sum to zero, but the estimate is only of first order", H + '''
s = dfx.Bosh3()
term = dfx.ODETerm(lambda t, y, a: jnp.cos(t) * y)
def err(h):
    y = jnp.array(1.0); t = jnp.array(0.3); h = jnp.array(h)
    st = s.init(term, t, t + h, y, None)
    return jnp.abs(s.step(term, t, t + h, y, None, st, False)[1])
o = np.log2(err(0.02) / err(0.01)); print(o)
assert o > 2.7
''')
