import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

import optimistix as optx
s = dfx.Kvaerno3(root_finder=dfx.VeryChord(rtol=1e-10, atol=1e-10), root_find_max_steps=4)
sol = dfx.diffeqsolve(dfx.ODETerm(lambda t, y, a: -3 * jnp.sin(2 * y)), s, 0.0, 2.0, 1.0, jnp.array(1.2),
    stepsize_controller=dfx.PIDController(10.0, 10.0), throw=False, max_steps=1000)
print(sol.result == dfx.RESULTS.successful, sol.stats["num_steps"], sol.stats["num_rejected_steps"])
assert sol.result == dfx.RESULTS.successful and sol.stats["num_rejected_steps"] > 0
