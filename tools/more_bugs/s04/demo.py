import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

class Inner(dfx.AbstractAdaptiveStepSizeController):
    rtol: float = 1e-3
    atol: float = 1e-3
    norm: object = None
    def wrap(self, direction): return self
    def init(self, terms, t0, t1, y0, dt0, args, func, error_order): return t0 + dt0, jnp.array(0)
    def adapt_step_size(self, t0, t1, y0, y1, args, err, order, n):
        keep = jnp.asarray(SCRIPT)[n]
        nt0 = jnp.where(keep, t1, t0)
        return keep, nt0, nt0 + jnp.where(keep, 1.0, 0.5) * (t1 - t0), False, n + 1, dfx.RESULTS.successful
c = dfx.ClipStepSizeController(Inner(), store_rejected_steps=10)
SCRIPT = [False, True, False, True, True, True, True]
c = c.wrap(1)
f = lambda t, y, a: y
nt1, st = c.init(dfx.ODETerm(f), 0.0, 10.0, jnp.array(0.0), 1.0, None, f, 2)
t0, t1, seen = 0.0, nt1, []
for _ in range(7):
    keep, nt0, nt1, mj, st, r = c.adapt_step_size(t0, t1, jnp.array(0.), jnp.array(0.), None, jnp.array(0.), 2, st)
    seen.append((round(float(t0), 6), round(float(t1), 6), bool(keep)))
    t0, t1 = nt0, nt1
print(seen)
# [0,1] rejected; [0,.5] kept; [.5,1] rejected; [.5,.75] kept; then 1 has to be the end of the next step, exactly once, and then the solve moves beyond it
assert seen[:5] == [(0, 1, False), (0, .5, True), (.5, 1, False), (.5, .75, True), (.75, 1, True)], seen
assert seen[5][1] > 1 and seen[6][1] > 1, seen
