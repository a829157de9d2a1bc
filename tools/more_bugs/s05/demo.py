import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -jnp.ones_like(y)), dfx.Euler(), 0.0, 2.0, 0.25, jnp.array(1.0),
    event=dfx.Event(lambda t, y, args, **kw: jnp.maximum(y, 0.0), direction=False))
print(sol.ts, sol.result)
assert sol.event_mask and float(sol.ts[0]) == 1.0
