import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

vf = lambda t, y, a: jnp.where(t < 0.5, 0.0, -3.0) * y + jnp.where(t < 0.5, 1000.0, jnp.sin(300 * t))
sol = dfx.diffeqsolve(dfx.ODETerm(vf), dfx.Tsit5(), 0.0, 1.0, 0.5, jnp.array(0.0),
    stepsize_controller=dfx.ClipStepSizeController(dfx.PIDController(1e-7, 1e-7), jump_ts=jnp.array([0.5])), max_steps=None)
ref = 500 * np.exp(-1.5)
r = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -3.0 * y + jnp.sin(300 * t)), dfx.Tsit5(), 0.5, 1.0, 1e-4, jnp.array(500.0), max_steps=None).ys[0]
print(sol.stats, sol.ys[0], r)
assert int(sol.stats["num_rejected_steps"]) > 0
assert abs(sol.ys[0] - r) < 1e-4
