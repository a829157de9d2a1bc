import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx

import threading, time
from diffrax._progress_meter import _ProgressMeterManager
class Slow(dict):
    def __setitem__(self, k, v):
        time.sleep(0.3)
        super().__setitem__(k, v)
m = _ProgressMeterManager()
m.bars = Slow()
out = []
go = lambda name: out.append(int(jax.jit(lambda: m.init(lambda: name))()))
ts = [threading.Thread(target=go, args=(n,)) for n in "ab"]
[t.start() for t in ts]; [t.join() for t in ts]
print(out, dict(m.bars))
assert sorted(out) == [1, 2] and sorted(m.bars.values()) == ["a", "b"]
