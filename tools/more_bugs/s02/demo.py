import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

vf = lambda t, y, args: -50 * (y - jnp.cos(20 * t))
kw = dict(stepsize_controller=dfx.PIDController(1e-4, 1e-6), max_steps=500)
go = lambda s: dfx.diffeqsolve(dfx.ODETerm(vf), dfx.Tsit5(), 0.0, 1.0, 0.5, jnp.array(3.0), saveat=s, **kw)
a, b = go(dfx.SaveAt(steps=1)), go(dfx.SaveAt(steps=3))
assert int(a.stats["num_rejected_steps"]) > 0
x = np.asarray(a.ts)[np.isfinite(a.ts)][2::3]
y = np.asarray(b.ts)[np.isfinite(b.ts)]
print(x[:5], y[:5])
assert x.shape == y.shape and np.array_equal(x, y)
