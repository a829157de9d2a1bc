import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

class Scripted(dfx.AbstractStepSizeController):
    """Step 1 is kept and reports a jump; step 2 is rejected once; then everything is kept."""
    def wrap(self, direction): return self
    def init(self, terms, t0, t1, y0, dt0, args, func, error_order):
        return t0 + dt0, jnp.array(0)
    def adapt_step_size(self, t0, t1, y0, y1, args, err, order, n):
        keep = n != 1
        jump = n == 0
        next_t0 = jnp.where(keep, t1, t0)
        return keep, next_t0, next_t0 + jnp.where(n == 1, 0.5, 1) * (t1 - t0), jump, n + 1, dfx.RESULTS.successful

# slope 0 up to and including t=0.5 while that is the end of a step; 1 afterwards.
def vf(t, y, args):
    return jnp.where(t > 0.5 + 1e-12, 1.0, 0.0)
class Off(Scripted):
    def adapt_step_size(self, t0, t1, y0, y1, args, err, order, n):
        keep, a, b, jump, n, r = Scripted.adapt_step_size(self, t0, t1, y0, y1, args, err, order, n)
        a = jnp.where(jump, a + 1e-6, a)
        return keep, a, b, jump, n, r
sol = dfx.diffeqsolve(dfx.ODETerm(vf), dfx.Dopri5(), 0.0, 1.0, 0.5, jnp.array(0.0), stepsize_controller=Off())
print(sol.ys)
assert abs(float(sol.ys[0]) - 0.5) < 1e-4
