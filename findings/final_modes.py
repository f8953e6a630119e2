"""every method, domain and final mode: coherent shapes and enclosing bounds"""
import sys, itertools
import numpy as np, keras
from keras.layers import *
from decomon.models.convert import clone
from decomon.core import BoxDomain, BallDomain
METHODS = ("crown", "crown-forward-ibp", "crown-forward-hybrid", "crown-forward-affine", "forward-ibp", "forward-hybrid", "forward-affine")
bad = 0
for nout, p, meth, (fi, fa) in itertools.product((2, 4), (np.inf, 2, 1, None), METHODS, ((1, 0), (0, 1), (1, 1))):
    i = Input((3,)); h = Dense(4)(i); h = Activation("relu")(h); o = Dense(nout)(h)
    m = keras.Model(i, o)
    D = BallDomain(eps=.3, p=p) if p else BoxDomain()
    try:
        d = clone(m, method=meth, perturbation_domain=D, final_ibp=bool(fi), final_affine=bool(fa))
        x = np.random.rand(4, 3).astype("float32")
        z = x if p else np.stack([x - .3, x + .3], 1)
        out = [np.asarray(t) for t in d(z)]
        y = np.asarray(m(x))
        u = l = wu = None
        if fi and fa: X, u, wu, bu, l, wl, bl = out
        elif fa: X, wu, bu, wl, bl = out
        else: u, l = out
        e = 1e-4
        assert u is None or ((u >= y - e).all() and (l <= y + e).all()), "constant bounds"
        if wu is not None:
            assert X.shape == z.shape and wu.shape == (4, 3, nout), (X.shape, wu.shape)
            assert (np.einsum("bi,bij->bj", x, wu) + bu >= y - e).all() and (np.einsum("bi,bij->bj", x, wl) + bl <= y + e).all(), "affine bounds"
    except Exception as ex:
        bad += 1
        print("FAIL", nout, p, meth, fi, fa, type(ex).__name__, str(ex)[:100].replace("\n", " "))
print(bad, "failures")
sys.exit(bool(bad))
