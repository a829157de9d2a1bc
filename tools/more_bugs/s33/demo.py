import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

def go(a, t1):
    return dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: a * jnp.where(t < 50, 1.0, 2.0) - y), dfx.Kvaerno5(), 0.0, t1, 0.1, jnp.array(0.3), a,
        stepsize_controller=dfx.PIDController(1e-9, 1e-9), adjoint=dfx.ImplicitAdjoint(),
        event=dfx.Event(dfx.steady_state_event(1e-6, 1e-6))).ys[0]
g = jax.grad(go)(1.3, 100.0)
print(go(1.3, 100.0), g)
assert abs(g - 1) < 1e-4
