import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

class P(dfx.AbstractBrownianPath):
    w: float
    eta: float
    levy_area = dfx.SpaceTimeLevyArea
    t0 = -jnp.inf
    t1 = jnp.inf
    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        h = t1 - t0
        return dfx.SpaceTimeLevyArea(dt=h, W=self.w * jnp.sqrt(h), H=self.eta * jnp.sqrt(h)) if use_levy else self.w * jnp.sqrt(h)
object.__setattr__
def err(h):
    # dy = cos(y) dt + y o dW: y1 = stochastic Taylor expansion up to order 1.5
    f = lambda y: jnp.cos(y)
    g = lambda y: 0.5 * y
    term = dfx.MultiTerm(dfx.ODETerm(lambda t, y, a: f(y)), dfx.ControlTerm(lambda t, y, a: g(y), P(0.7, 0.6)))
    y = jnp.array(0.8); s = dfx.SlowRK()
    t0, t1 = jnp.array(0.0), jnp.array(h)
    y1 = s.step(term, t0, t1, y, None, s.init(term, t0, t1, y, None), False)[0]
    W, Hh = 0.7 * h**0.5, 0.6 * h**0.5
    D = lambda u, v: (lambda y: jax.grad(u)(y) * v(y))
    gg = D(g, g); ggg = D(gg, g); gggg = D(ggg, g)
    # int_0^h W dt = h (W/2 + H);  int_0^h s o dW = h W - that
    I10 = h * (W / 2 + Hh); I01 = h * W - I10
    ex = y + f(y) * h + g(y) * W + gg(y) * W**2 / 2 + ggg(y) * W**3 / 6 + D(f, g)(y) * I10 + D(g, f)(y) * I01
    return abs(float(y1 - ex))
o = np.log2(err(1e-3) / err(2.5e-4)) / 2
print(o)
assert o > 1.8
