import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

bm = dfx.VirtualBrownianTree(0.0, 1.0, 0.1, (), jax.random.PRNGKey(0), levy_area=dfx.SpaceTimeTimeLevyArea)
# K as an integral of the path itself: K = 1/h^2 int (W_r - W_s - (r-s)/h W) (h/2 - (r-s)) dr, by Chen's relation over two halves
s, u, t = 0.25, 0.5, 1.0
q = lambda a, b: bm.evaluate(a, b, use_levy=True)
x, y, z = q(s, u), q(u, t), q(s, t)
h1, h2 = u - s, t - u; h = h1 + h2
A = h2 * x.W - h1 * y.W
K = (h1**2 * x.K + h2**2 * y.K + h1 * h2 * (x.H - y.H) / 2 + (h2 - h1) * A / 12) / h**2
print(float(K), float(z.K))
assert abs(float(K - z.K)) < 1e-9
