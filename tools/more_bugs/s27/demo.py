import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: 1.0), dfx.Euler(), 0.0, 4.0, 0.5, jnp.array(-1.0),
    event=dfx.Event(lambda t, y, args, **kw: y, direction=True))
print(sol.ts, sol.ys, sol.event_mask)
assert bool(sol.event_mask) and sol.ts[0] < 2
