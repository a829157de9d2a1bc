import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

vf = lambda t, y, a: jnp.where(t < 0.5, 1.0, -1.0)
c = dfx.ClipStepSizeController(dfx.PIDController(1e-6, 1e-6), jump_ts=jnp.array([0.5]))
sol = dfx.diffeqsolve(dfx.ODETerm(vf), dfx.Tsit5(), 0.0, 1.0, 0.6, jnp.array(0.0), stepsize_controller=c,
    saveat=dfx.SaveAt(t1=True, made_jump=True), max_steps=1, throw=False)
print(sol.ts, sol.made_jump)
assert bool(sol.made_jump)
