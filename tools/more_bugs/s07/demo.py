import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

def q(key):
    bm = dfx.VirtualBrownianTree(0.0, 1.0, 0.6, (), key, levy_area=dfx.SpaceTimeLevyArea)
    return bm.evaluate(0.0, 0.3, use_levy=True).H
H_ = jax.vmap(q)(jax.random.split(jax.random.PRNGKey(0), 40000))
v = float(np.var(H_)); print(v, 0.3 / 12)
assert abs(v / (0.3 / 12) - 1) < 0.05
