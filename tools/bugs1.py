bug("s01", "C01", "a jump of the vector field followed by a rejected step, with an FSAL solver",
    "the flag that the vector field jumped is lost when the step after the jump is rejected, so the retried step reuses the stale slope from before the jump", H + '''
class Scripted(dfx.AbstractStepSizeController):
    """Step 1 is kept and reports a jump; step 2 is rejected once; then everything is kept."""
    def wrap(self, direction): return self
    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return t0 + dt0, jnp.array(0)
    def adapt_step_size(self, t0, t1, y0, y1, args, err, order, n):
        keep = n != 1
        jump = n == 0
        next_t0 = jnp.where(keep, t1, t0)
        return keep, next_t0, next_t0 + jnp.where(n == 1, 0.5, 1) * (t1 - t0), jump, n + 1, dfx.RESULTS.successful

# slope 0 up to and including t=0.5 while that is the end of a step; 1 afterwards.
def vf(t, y, args):
    return jnp.where(t > 0.5 + 1e-12, 1.0, 0.0)
class Off(Scripted):
    def adapt_step_size(self, t0, t1, y0, y1, args, err, order, n):
        keep, a, b, jump, n, r = Scripted.adapt_step_size(self, t0, t1, y0, y1, args, err, order, n)
        a = jnp.where(jump, a + 1e-6, a)
        return keep, a, b, jump, n, r
sol = dfx.diffeqsolve(dfx.ODETerm(vf), dfx.Dopri5(), 0.0, 1.0, 0.5, jnp.array(0.0), stepsize_controller=Off())
print(sol.ys)
assert abs(float(sol.ys[0]) - 0.5) < 1e-4
''')
bug("s02", "C02", "SaveAt(steps=n) with n>1 and a history with rejected steps",
    "'every n-th step' counts attempted steps instead of accepted steps, so which steps are saved depends on rejections", H + '''
vf = lambda t, y, args: -50 * (y - jnp.cos(20 * t))
kw = dict(stepsize_controller=dfx.PIDController(1e-4, 1e-6), max_steps=500)
go = lambda s: dfx.diffeqsolve(dfx.ODETerm(vf), dfx.Tsit5(), 0.0, 1.0, 0.5, jnp.array(3.0), saveat=s, **kw)
a, b = go(dfx.SaveAt(steps=1)), go(dfx.SaveAt(steps=3))
assert int(a.stats["num_rejected_steps"]) > 0
x = np.asarray(a.ts)[np.isfinite(a.ts)][2::3]
y = np.asarray(b.ts)[np.isfinite(b.ts)]
print(x[:5], y[:5])
assert x.shape == y.shape and np.array_equal(x, y)
''')
bug("s03", "C05", "a rejected step, and a PID controller with memory (icoeff or dcoeff nonzero)",
    "after a rejected step the controller's memory holds the error of the rejected step instead of that of the last accepted step", H + '''
c = dfx.PIDController(rtol=0., atol=1., pcoeff=0.4, icoeff=0.3, dcoeff=0.1)
y = jnp.array(1.0)
f = lambda t, y, args: y
_, st = c.init(dfx.ODETerm(f), 0., 10., y, 0.1, None, f, 3)
def step(st, e, t0=0.0):
    keep, _, nt1, _, st, _ = c.adapt_step_size(t0, t0 + 1.0, y, y, None, jnp.array(e), 3, st)
    return bool(keep), float(nt1), st
# accept (0.5), reject (5.0), accept (0.2): the last factor uses the two last *accepted* errors... PI formula.
_, _, st = step(st, 0.5)
k, _, st = step(st, 5.0)
assert not k
_, nt1, st = step(st, 0.2)
inv = lambda e: 1 / e
# the reference: factor = safety * e_n^(..) with previous accepted 0.5 and initial memory 1
p, i, d, order = 0.4, 0.3, 0.1, 3
b1, b2, b3 = (p + i + d) / order, -(p + 2 * d) / order, d / order
fac = 0.9 * inv(0.2) ** b1 * inv(0.5) ** b2 * inv(1.0) ** b3
fac = min(max(fac, 1.0), 10.0)
print(nt1 - 1, fac)
assert abs(nt1 - 1.0 - fac) < 1e-6
''')
bug("s04", "C06", "two successive rejections of the same step with store_rejected_steps",
    "a rejected time stays in the buffer when it is reached by a step that is itself rejected, so it is revisited out of order", H + '''
class Inner(dfx.AbstractAdaptiveStepSizeController):
    rtol: float = 1e-3
    atol: float = 1e-3
    norm: object = None
    def wrap(self, direction): return self
    def init(self, terms, t0, t1, y0, dt0, args, func, error_order): return t0 + dt0, jnp.array(0)
    def adapt_step_size(self, t0, t1, y0, y1, args, err, order, n):
        keep = jnp.asarray(SCRIPT)[n]
        nt0 = jnp.where(keep, t1, t0)
        return keep, nt0, nt0 + jnp.where(keep, 1.0, 0.5) * (t1 - t0), False, n + 1, dfx.RESULTS.successful
c = dfx.ClipStepSizeController(Inner(), store_rejected_steps=10)
SCRIPT = [False, True, False, True, True, True, True]
c = c.wrap(1)
f = lambda t, y, a: y
nt1, st = c.init(dfx.ODETerm(f), 0.0, 10.0, jnp.array(0.0), 1.0, None, f, 2)
t0, t1, seen = 0.0, nt1, []
for _ in range(7):
    keep, nt0, nt1, mj, st, r = c.adapt_step_size(t0, t1, jnp.array(0.), jnp.array(0.), None, jnp.array(0.), 2, st)
    seen.append((round(float(t0), 6), round(float(t1), 6), bool(keep)))
    t0, t1 = nt0, nt1
print(seen)
# [0,1] rejected; [0,.5] kept; [.5,1] rejected; [.5,.75] kept; then 1 has to be the end of the next step, exactly once, and then the solve moves beyond it
assert seen[:5] == [(0, 1, False), (0, .5, True), (.5, 1, False), (.5, .75, True), (.75, 1, True)], seen
assert seen[5][1] > 1 and seen[6][1] > 1, seen
''')
bug("s05", "C08", "an event function that is exactly zero at the end of the step in which it comes down to zero, direction=False",
    "a downwards crossing that ends exactly at zero is not detected", H + '''
sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -jnp.ones_like(y)), dfx.Euler(), 0.0, 2.0, 0.25, jnp.array(1.0),
    event=dfx.Event(lambda t, y, args, **kw: jnp.maximum(y, 0.0), direction=False))
print(sol.ts, sol.result)
assert sol.event_mask and float(sol.ts[0]) == 1.0
''')
bug("s06", "C11", "a batch in which only some of the elements jump, with an FSAL solver",
    "an element of a batch that jumps reuses its stale slope, unless all other elements jump at the same step", H + '''
vf = lambda t, y, s: jnp.where(t < s, 0.0, 1.0) * jnp.ones_like(y)
def go(s):
    c = dfx.ClipStepSizeController(dfx.PIDController(1e3, 1e3, factormin=1, factormax=1), jump_ts=s[None])
    return dfx.diffeqsolve(dfx.ODETerm(vf), dfx.Dopri5(), 0.0, 1.0, 0.5, jnp.array(0.0), args=s, stepsize_controller=c).ys[0]
S = jnp.array([0.3, 0.7])
print(jax.vmap(go)(S), [go(s) for s in S])
assert np.allclose(jax.vmap(go)(S), [go(s) for s in S], atol=1e-9)
''')
bug("s07", "C14", "space-time Levy area at times between the nodes of the tree",
    "H over intervals that do not end at nodes of the tree has the wrong variance", H + '''
def q(key):
    bm = dfx.VirtualBrownianTree(0.0, 1.0, 0.6, (), key, levy_area=dfx.SpaceTimeLevyArea)
    return bm.evaluate(0.0, 0.3, use_levy=True).H
H_ = jax.vmap(q)(jax.random.split(jax.random.PRNGKey(0), 40000))
v = float(np.var(H_)); print(v, 0.3 / 12)
assert abs(v / (0.3 / 12) - 1) < 0.05
''')
bug("s08", "C16", "the size of the error estimate of Kvaerno4 as the step shrinks",
    "two weights of the error estimate of Kvaerno4 are swapped; they still sum to zero, but the estimate is only of first order", H + '''
import optimistix as optx
s = dfx.Kvaerno4(root_finder=optx.Newton(1e-13, 1e-13), root_find_max_steps=50)
term = dfx.ODETerm(lambda t, y, a: jnp.cos(t) * y)
@jax.jit
def err(h):
    y = jnp.array(1.0); t = jnp.array(0.3)
    st = s.init(term, t, t + h, y, None)
    return jnp.abs(s.step(term, t, t + h, y, None, st, False)[1])
o = np.log2(err(0.1) / err(0.05)); print(o)
assert o > 3.5
''')
bug("s09", "C06", "several jump times, integrating backwards in time",
    "jump times are searched as if sorted but are in reverse order, so that backwards in time steps run across jumps", H + '''
c = dfx.ClipStepSizeController(dfx.PIDController(1e3, 1e3), jump_ts=jnp.array([0.2, 0.5, 0.8]))
sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Tsit5(), 1.0, 0.0, -1.0, jnp.array(1.0), stepsize_controller=c, saveat=dfx.SaveAt(steps=True), max_steps=20)
ts = np.asarray(sol.ts)[np.isfinite(sol.ts)]; print(ts)
assert len(ts) == 4 and np.allclose(ts, [0.8, 0.5, 0.2, 0.0])
''')
bug("s10", "C12", "BacksolveAdjoint with several saved outputs and an FSAL solver",
    "the backward solve is not told about the jump of the cotangent at each saved output, so its first stage reuses the slope from before the jump; gradients are wrong", H + '''
vf = lambda t, y, k: -k * y
def loss(k, adj):
    sol = dfx.diffeqsolve(dfx.ODETerm(vf), dfx.Dopri5(), 0.0, 1.0, 0.05, jnp.array(1.0), args=k,
        saveat=dfx.SaveAt(ts=jnp.linspace(0.1, 1.0, 10)), adjoint=adj)
    return jnp.sum(sol.ys)
g = jax.grad(loss)(1.0, dfx.BacksolveAdjoint())
t = np.linspace(0.1, 1.0, 10)
print(g, -np.sum(t * np.exp(-t)))
assert abs(float(g) + np.sum(t * np.exp(-t))) < 1e-5
''')
bug("s11", "C13", "a space-time-time Levy area over an interval that does not start where the path starts",
    "K over an interval [s, u] with s > 0 is not the one of the path: Chen's relation fails", H + '''
bm = dfx.VirtualBrownianTree(0.0, 1.0, 0.1, (), jax.random.PRNGKey(0), levy_area=dfx.SpaceTimeTimeLevyArea)
# K as an integral of the path itself: K = 1/h^2 int (W_r - W_s - (r-s)/h W) (h/2 - (r-s)) dr, by Chen's relation over two halves
s, u, t = 0.25, 0.5, 1.0
q = lambda a, b: bm.evaluate(a, b, use_levy=True)
x, y, z = q(s, u), q(u, t), q(s, t)
h1, h2 = u - s, t - u; h = h1 + h2
A = h2 * x.W - h1 * y.W
K = (h1**2 * x.K + h2**2 * y.K + h1 * h2 * (x.H - y.H) / 2 + (h2 - h1) * A / 12) / h**2
print(float(K), float(z.K))
assert abs(float(K - z.K)) < 1e-9
''')
