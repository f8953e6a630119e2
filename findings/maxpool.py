"""Numerical demonstration (not a check): max pooling."""
import numpy as np, keras
from keras.layers import *
from decomon.layers.maxpooling import DecomonMaxPooling2D
rng = np.random.default_rng(0)
for kw in (dict(pool_size=(3, 2)), dict(pool_size=(2, 3)), dict(pool_size=(2, 2), padding="same"), dict(pool_size=(2,2), data_format="channels_first")):
    for fast in (True, False):
        try:
            x = rng.normal(size=(5, 3, 3, 2)).astype("float32") - 3
            l = DecomonMaxPooling2D(mode="ibp", fast=fast, **kw)
            y = np.array(MaxPooling2D(**kw)(x))
            u, lo = [np.array(t) for t in l([x, x])]
            print(kw, fast, u.shape == y.shape, abs(u - y).max() < 1e-5 if u.shape == y.shape else None, (lo - y).max() if u.shape == y.shape else None)
        except Exception as e:
            print(kw, fast, "RAISES", type(e).__name__, str(e)[:80])
