"""Demonstration on the real code: backward Conv2D / Flatten / Permute matrices against the Keras layer."""
import numpy as np, keras, keras.ops as K
from keras.layers import Conv2D, Input, Flatten, Permute
from decomon.backward_layers.convert import to_backward
from decomon.backward_layers.utils_conv import get_toeplitz
rng = np.random.RandomState(0)
bad = 0
def report(name, ok):
    global bad
    bad += not ok
    print(name, "ok" if ok else "WRONG")
for fmt in ("channels_last", "channels_first"):
    for size, st, pad in (((2, 2), (1, 1), "valid"), ((2, 1), (2, 1), "same"), ((3, 2), (1, 2), "valid"), ((2, 2), (2, 2), "same")):
        shp = (5, 4, 2) if fmt == "channels_last" else (2, 5, 4)
        name = f"toeplitz {fmt} {size} {st} {pad}"
        try:
            l = Conv2D(3, size, strides=st, padding=pad, data_format=fmt)
            l(Input(shp))
            W = K.convert_to_numpy(get_toeplitz(l, True))
            ref = Conv2D(3, size, strides=st, padding=pad)
            x = rng.randn(1, *shp).astype("float32")
            xl = x if fmt == "channels_last" else x.transpose(0, 2, 3, 1)
            ref(xl); ref.set_weights(l.get_weights())
            y = K.convert_to_numpy(ref(xl))
            if fmt == "channels_first":
                y = y.transpose(0, 3, 1, 2)
            report(name, np.allclose(x.reshape(1, -1) @ W, y.reshape(1, -1), atol=1e-4))
        except Exception as e:
            print(name, type(e).__name__, str(e)[:80]); bad += 1
for l, shp in ((Flatten(data_format="channels_first"), (2, 2, 3)), (Permute((2, 1)), (2, 3)), (Permute((3, 1, 2)), (2, 3, 4))):
    l(Input(shp))
    x = rng.randn(1, *shp).astype("float32")
    y = K.convert_to_numpy(l(x)).reshape(1, -1)
    b = to_backward(l, mode="ibp")
    w = K.convert_to_numpy(b([K.convert_to_tensor(x), K.convert_to_tensor(x)])[0])
    report(l.name, np.allclose(x.reshape(1, -1) @ w[0], y))
raise SystemExit(bad > 0)
