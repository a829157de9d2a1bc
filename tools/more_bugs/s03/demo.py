import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

c = dfx.PIDController(rtol=0., atol=1., pcoeff=0.4, icoeff=0.3, dcoeff=0.1)
y = jnp.array(1.0)
f = lambda t, y, args: y
_, st = c.init(dfx.ODETerm(f), 0., 10., y, 0.1, None, f, 3)
def step(st, e, t0=0.0):
    keep, _, nt1, _, st, _ = c.adapt_step_size(t0, t0 + 1.0, y, y, None, jnp.array(e), 3, st)
    return bool(keep), float(nt1), st
# accept (0.5), reject (5.0), accept (0.2): the last factor uses the two last *accepted* errors... PI formula.
_, _, st = step(st, 0.5)
k, _, st = step(st, 5.0)
assert not k
_, nt1, st = step(st, 0.2)
inv = lambda e: 1 / e
# the reference: factor = safety * e_n^(..) with previous accepted 0.5 and initial memory 1
p, i, d, order = 0.4, 0.3, 0.1, 3
b1, b2, b3 = (p + i + d) / order, -(p + 2 * d) / order, d / order
fac = 0.9 * inv(0.2) ** b1 * inv(0.5) ** b2 * inv(1.0) ** b3
fac = min(max(fac, 1.0), 10.0)
print(nt1 - 1, fac)
assert abs(nt1 - 1.0 - fac) < 1e-6
