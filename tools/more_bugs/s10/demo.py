import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

vf = lambda t, y, k: -k * y
def loss(k, adj):
    sol = dfx.diffeqsolve(dfx.ODETerm(vf), dfx.Dopri5(), 0.0, 1.0, 0.05, jnp.array(1.0), args=k,
        saveat=dfx.SaveAt(ts=jnp.linspace(0.1, 1.0, 10)), adjoint=adj)
    return jnp.sum(sol.ys)
g = jax.grad(loss)(1.0, dfx.BacksolveAdjoint())
t = np.linspace(0.1, 1.0, 10)
print(g, -np.sum(t * np.exp(-t)))
assert abs(float(g) + np.sum(t * np.exp(-t))) < 1e-5
