import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

c = dfx.ClipStepSizeController(dfx.PIDController(1e-6, 1e-6), jump_ts=jnp.array([0.5]))
sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: jnp.where(t < 0.5, 1.0, -1.0)), dfx.Tsit5(), 0.0, 1.0, 0.1, jnp.array(0.0),
    stepsize_controller=c, saveat=dfx.SaveAt(dense=True))
ts = np.asarray(sol.interpolation.ts)
t = ts[np.isfinite(ts)]
t = t[np.argmin(abs(t - 0.5) + (t < 0.5))]   # the start of the first step after the jump
print(t, sol.derivative(t, left=False), sol.derivative(t, left=True))
sol2 = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: 1.0 + t * 0), dfx.Euler(), 0.0, 1.0, 0.5, jnp.array(0.0), saveat=dfx.SaveAt(dense=True))
sol3 = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: t), dfx.Euler(), 0.0, 1.0, 0.5, jnp.array(0.0), saveat=dfx.SaveAt(dense=True))
print(sol3.derivative(0.5, left=True), sol3.derivative(0.5, left=False))
assert abs(sol3.derivative(0.5, left=True)) < 1e-9 and abs(sol3.derivative(0.5, left=False) - 0.5) < 1e-9
