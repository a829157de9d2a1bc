import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

c = dfx.PIDController(1e-3, 1e-3, pcoeff=0.1, icoeff=0.3, dcoeff=0.2)
terms = dfx.ODETerm(lambda t, y, a: -y)
y = jnp.array(1.0)
_, s = c.init(terms, 0.0, 1.0, y, 0.1, None, None, 2)
t0, t1 = 0.0, 0.1
errs = [0.5, 0.7, 3.0, 0.4]
inv = [1.0, 1.0]
for r in errs:
    f = 0.9 * (1 / r) ** (0.6 / 2) * inv[-1] ** (-0.5 / 2) * inv[-2] ** (0.2 / 2)
    f = min(max(f, 1.0 if r < 1 else 0.2), 10.0 if r < 1 else 0.9)
    dt = (t1 - t0) * f
    keep, t0, t1, _, s, _ = c.adapt_step_size(t0, t1, y, y, None, r * 2e-3 * jnp.ones(()), 2, s)
    t0, t1 = float(t0), float(t1)
    print(bool(keep), t1 - t0, dt)
    assert abs((t1 - t0) - dt) < 1e-9
    if r < 1:
        inv.append(1 / r)
