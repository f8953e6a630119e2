"""Numerical demonstration (not a check): forward merge layers against keras on a random input of the box."""
import numpy as np, keras, sys
from decomon.models import clone
from keras.layers import *
rng = np.random.default_rng(0)
def run(name, mk, n=4):
    i = Input((n,)); o = mk(i); m = keras.Model(i, o)
    x = rng.normal(size=(20, n)); eps = 0.3
    box = np.stack([x - eps, x + eps], 1)
    try:
        d = clone(m, method="forward-hybrid")
        outs = d.predict(box, verbose=0)
    except Exception as e:
        print(name, "RAISES", type(e).__name__, str(e).strip().splitlines()[0][:120]); return
    u, l = outs[1], outs[4]
    y = m.predict(x, verbose=0)
    if u.shape != y.shape: print(name, "SHAPE", u.shape, y.shape); return
    bad = max((y - u).max(), (l - y).max())
    print(name, "ok" if bad < 1e-4 else f"UNSOUND by {bad}")
def r(i, sh): return Reshape(sh)(Dense(int(np.prod(sh)))(i))
run("concat-2", lambda i: Flatten()(Concatenate(axis=-2)([r(i, (1, 2)), r(i, (2, 2))])))
run("dot1d", lambda i: Dot(1)([r(i, (2,)), r(i, (2,))]))
run("dot2d11", lambda i: Flatten()(Dot((1, 1))([r(i, (4, 3)), r(i, (4, 2))])))
run("dot2d21", lambda i: Flatten()(Dot((2, 1))([r(i, (3, 4)), r(i, (4, 2))])))
