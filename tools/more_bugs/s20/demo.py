import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

def step(th):
    bm = dfx.VirtualBrownianTree(0.0, 1.0, 1e-3, (1,), jax.random.PRNGKey(0), levy_area=dfx.SpaceTimeTimeLevyArea)
    g, u = jnp.array([1.5]), jnp.array([1.0])
    terms = dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(g, u, lambda x, a: 2 * x), dfx.UnderdampedLangevinDiffusionTerm(g, u, bm))
    return dfx.diffeqsolve(terms, dfx.QUICSORT(th), 0.0, 0.05, 0.05, (jnp.array([0.0]), jnp.array([1.0]))).ys
a, b = step(0.0), step(1.0)
print(a, b)
assert np.allclose(a, b, atol=1e-7, rtol=0)
