import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

bm = dfx.UnsafeBrownianPath({"a": jax.ShapeDtypeStruct((), jnp.float64), "b": jax.ShapeDtypeStruct((), jnp.float64)}, jax.random.PRNGKey(0))
w = bm.evaluate(jnp.array(0.0), jnp.array(1.0))
print(w)
assert abs(w["a"] - w["b"]) > 1e-6
