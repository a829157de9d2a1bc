import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

c = 1e-15
sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y / c), dfx.Tsit5(), 0.0, c, 0.5 * c, jnp.array(1.0), saveat=dfx.SaveAt(dense=True))
print(sol.evaluate(0.3 * c), np.exp(-0.3))
assert abs(sol.evaluate(0.3 * c) - np.exp(-0.3)) < 1e-2
