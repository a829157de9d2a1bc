import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

def terms(key=jax.random.PRNGKey(0)):
    w = dfx.VirtualBrownianTree(0.0, 1.0, 1e-3, (1,), key, levy_area=dfx.SpaceTimeTimeLevyArea)
    return dfx.MultiTerm(dfx.UnderdampedLangevinDriftTerm(1.0, 1.0, lambda x, *a: x), dfx.UnderdampedLangevinDiffusionTerm(1.0, 1.0, w))
def go(ts):
    return dfx.diffeqsolve(terms(), dfx.ALIGN(0.01), 0.0, 1.0, None, (jnp.ones(1), jnp.ones(1)), stepsize_controller=dfx.StepTo(ts)).ys[0][0]
ts = jnp.array([[0.0, 0.25, 0.5, 0.75, 1.0], [0.0, 0.5, 0.6, 0.9, 1.0]])
a, b = jax.vmap(go)(ts), jnp.stack([go(t) for t in ts])
print(a, b)
assert np.allclose(a, b, rtol=1e-8)
