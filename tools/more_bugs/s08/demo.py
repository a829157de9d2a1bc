import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

import optimistix as optx
s = dfx.Kvaerno4(root_finder=optx.Newton(1e-13, 1e-13), root_find_max_steps=50)
term = dfx.ODETerm(lambda t, y, a: jnp.cos(t) * y)
@jax.jit
def err(h):
    y = jnp.array(1.0); t = jnp.array(0.3)
    st = s.init(term, t, t + h, y, None)
    return jnp.abs(s.step(term, t, t + h, y, None, st, False)[1])
o = np.log2(err(0.1) / err(0.05)); print(o)
assert o > 3.5
