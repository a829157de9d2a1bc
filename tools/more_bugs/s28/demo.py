import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

def f(t1, t):
    sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -y), dfx.Tsit5(), 0.0, t1, 0.1, jnp.array(1.0), saveat=dfx.SaveAt(dense=True))
    return sol.evaluate(t)
v = jax.vmap(f, in_axes=(0, None))(jnp.array([1.0, 2.0]), 1.5)
print(v)
assert np.isnan(v[0]) and abs(v[1] - np.exp(-1.5)) < 1e-3
