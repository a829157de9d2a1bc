import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

ys = jnp.array([[jnp.nan, 1.0], [2.0, 3.0], [4.0, 5.0]])
out = dfx.linear_interpolation(jnp.arange(3.0), ys, replace_nans_at_start=jnp.array([7.0, 9.0]))
print(out)
assert np.allclose(out, [[7.0, 1.0], [2.0, 3.0], [4.0, 5.0]])
