import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

T = [dfx.ODETerm(lambda t, y, a, c=c: c + 0 * y) for c in (1.0, 10.0, 100.0)]
y = dfx.diffeqsolve(dfx.MultiTerm(*T), dfx.Heun(), 0.0, 1.0, 0.1, jnp.array(0.0)).ys[0]
print(y)
assert abs(y - 111.0) < 1e-9
