import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

go = lambda s: dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: t), s, 1.0, 0.0, -0.05, jnp.array(0.0)).ys[0]
print(go(dfx.Heun()), go(dfx.Dopri8()), go(dfx.Dopri5()))
assert abs(go(dfx.Heun()) + 0.5) < 1e-6 and abs(go(dfx.Dopri5()) + 0.5) < 1e-6
