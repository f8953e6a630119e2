"""CROWN through activations of a non-flat tensor"""
import numpy as np, keras, sys
from keras.layers import *
from decomon.models.convert import clone
from decomon import get_range_box
bad = 0
for act in ("relu", "softplus", "sigmoid", "tanh", "softsign"):
    for ft in (False, True):
        try:
            i = Input((8,)); h = Dense(6)(i); h = Reshape((2, 3))(h); h = Activation(act)(h); h = Flatten()(h); o = Dense(2)(h)
            m = keras.Model(i, o)
            d = clone(m, method="crown-forward-hybrid", final_ibp=True, final_affine=False, finetune=ft)
            x = np.random.rand(5, 8).astype("float32"); z = np.stack([x - 1, x + 1], 1)
            out = d(z)
            y = m(x)
            assert bool(np.all(np.asarray(out[0]) >= np.asarray(y) - 1e-5)), "upper bound violated"
            print(act, ft, [a.shape for a in out])
        except Exception as e:
            bad = 1
            print(act, ft, type(e).__name__, str(e)[:150].replace("\n", " "))
sys.exit(bad)
