"""Shared by the demonstrations: bounds of a converted model or layer against values sampled from the Keras one."""
import sys
import numpy as np, keras, keras.ops as K
from keras.layers import *
from keras.models import Model, Sequential
from decomon.core import BoxDomain, BallDomain, ForwardMode, Slope
from decomon.models import clone

rng = np.random.RandomState(0)
N = lambda t: np.array(K.convert_to_numpy(t))


def setw(model, scale=1.0, seed=0):
    r = np.random.RandomState(seed)
    for v in model.variables:
        name = v.path if hasattr(v, "path") else v.name
        x = r.normal(size=v.shape) * scale
        if "variance" in name:
            x = np.abs(x) + 0.1
        v.assign(x)
    return model


def box(lo, hi):
    return np.stack([np.array(lo, "float32"), np.array(hi, "float32")], 0)[None].astype("float32")


def samples(b, n=300, seed=1):
    r = np.random.RandomState(seed)
    u = r.rand(n, b.shape[-1])
    u[: n // 2] = np.round(u[: n // 2])
    return (b[0, 0] + u * (b[0, 1] - b[0, 0])).astype("float32")


def enclosed(l, u, y, tol=1e-3):
    y = y.reshape(len(y), -1)
    return bool(np.all(y <= u.reshape(1, -1) + tol) and np.all(y >= l.reshape(1, -1) - tol))


def bounds(model, b, method="crown", dom=None, **kw):
    """constant bounds (upper, lower) of a converted model"""
    kw.setdefault("final_ibp", True); kw.setdefault("final_affine", False)
    d = clone(model, method=method, perturbation_domain=dom, **kw)
    o = d(b)
    return N(o[0])[0], N(o[1])[0]


def sound(model, lo, hi, method="crown", dom=None, **kw):
    b = box(lo, hi)
    u, l = bounds(model, b, method, dom, **kw)
    return enclosed(l, u, N(model(samples(b))))


def lin(n, seed=0, lo=-1.0, hi=1.0, m=None):
    """hybrid bounds (batch of one) of m values, affine in a box of dimension n, with distinct upper and lower functions, and the box"""
    r = np.random.RandomState(seed)
    m = m or n
    b = box([lo] * n, [hi] * n)
    w = r.normal(size=(1, n, m)); c = r.normal(size=(1, m))
    return b, w.astype("float32"), c.astype("float32")


def finish(ok, what=""):
    print("ok" if ok else "BROKEN", what)
    sys.exit(0 if ok else 1)
