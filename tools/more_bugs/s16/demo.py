import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

y = (jnp.asarray(1.0, jnp.float32), jnp.asarray(1.0, jnp.float64))
go = lambda y: dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: jax.tree_util.tree_map(lambda x: -x, y)), dfx.Dopri5(), *(jnp.asarray(x, jnp.float32) for x in (0.0, 1.0, 0.125)), y).ys
a = go(y)[1][0]
b = go(y[::-1])[0][0]
print(a, b)
assert abs(a - b) < 1e-12
