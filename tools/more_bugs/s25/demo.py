import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

t = dfx.ODETerm(lambda t, y, a: -3 * y * jnp.cos(5 * t))
s = dfx.HalfSolver(dfx.Bosh3())
y0, t0, t1 = jnp.array(1.0), 0.0, 0.4
st = s.init(t, t0, t1, y0, None)
y1, err, *_ = s.step(t, t0, t1, y0, None, st, False)
b = dfx.Bosh3()
full, *_ = b.step(t, t0, t1, y0, None, b.init(t, t0, t1, y0, None), False)
want = abs(y1 - full)
print(err, want)
assert np.allclose(np.asarray(err), np.asarray(want), rtol=1e-3, atol=1e-12) or np.allclose(np.asarray(err), np.asarray(want) / 7, rtol=1e-3)
