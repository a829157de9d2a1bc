import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

c = dfx.ClipStepSizeController(dfx.PIDController(1e3, 1e3), jump_ts=jnp.array([0.2, 0.5, 0.8]))
sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Tsit5(), 1.0, 0.0, -1.0, jnp.array(1.0), stepsize_controller=c, saveat=dfx.SaveAt(steps=True), max_steps=20)
ts = np.asarray(sol.ts)[np.isfinite(sol.ts)]; print(ts)
assert len(ts) == 4 and np.allclose(ts, [0.8, 0.5, 0.2, 0.0])
