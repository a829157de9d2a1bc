import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -1e14 * y), dfx.Euler(), 0.0, 1e-13, 1e-14, jnp.array(1.0), saveat=dfx.SaveAt(steps=True), max_steps=16)
print(sol.ts)
assert int(sol.stats["num_steps"]) in (10, 11)
