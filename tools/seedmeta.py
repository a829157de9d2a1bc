"""Development aid: writes meta.json, demo.sh and demo.py of planted bugs from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def bug(id, prop, needs, breaks, demo):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
H = "import diffrax as dfx, jax, jax.numpy as jnp, numpy as np, equinox as eqx\n"
for f in sorted(os.listdir(os.path.join(V, "tools"))):
    if f.startswith("bugs") and f.endswith(".py"):
        exec(open(os.path.join(V, "tools", f)).read())
