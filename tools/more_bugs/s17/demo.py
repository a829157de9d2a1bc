import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

p = dfx.VirtualBrownianTree(0.0, 1.0, 1e-3, (), jax.random.PRNGKey(0))
for t in (-0.5, 1.5):
    try:
        v = p.evaluate(t)
    except Exception as e:
        print(type(e).__name__)
    else:
        raise AssertionError(f"{t} {v}")
