import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

vf = lambda t, y, s: jnp.where(t < s, 0.0, 1.0) * jnp.ones_like(y)
def go(s):
    c = dfx.ClipStepSizeController(dfx.PIDController(1e3, 1e3, factormin=1, factormax=1), jump_ts=s[None])
    return dfx.diffeqsolve(dfx.ODETerm(vf), dfx.Dopri5(), 0.0, 1.0, 0.5, jnp.array(0.0), args=s, stepsize_controller=c).ys[0]
S = jnp.array([0.3, 0.7])
print(jax.vmap(go)(S), [go(s) for s in S])
assert np.allclose(jax.vmap(go)(S), [go(s) for s in S], atol=1e-9)
