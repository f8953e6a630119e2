import keras.ops as K
from keras._core import Layer


def linear(x):
    return x


def relu(x, negative_slope=0.0, max_value=None, threshold=0.0):
    if negative_slope == 0.0 and max_value is None and threshold == 0.0:
        return K.relu(x)
    if threshold == 0.0:
        r = K.relu(x) - negative_slope * K.relu(-x)
        if max_value is not None:
            r = K.minimum(r, max_value)
        return r
    r = x if max_value is None else K.minimum(x, max_value)
    return K.where(x >= threshold, r, negative_slope * (x - threshold))


def sigmoid(x):
    return K.sigmoid(x)


def tanh(x):
    return K.tanh(x)


def softplus(x):
    return K.softplus(x)


def softsign(x):
    return K.softsign(x)


def selu(x):
    return K.selu(x)


def elu(x, alpha=1.0):
    return K.elu(x, alpha)


def hard_sigmoid(x):
    return K.hard_sigmoid(x)


def exponential(x):
    return K.exp(x)


def softmax(x, axis=-1):
    return K.softmax(x, axis=axis)


_ALL = {
    "linear": linear,
    "relu": relu,
    "sigmoid": sigmoid,
    "tanh": tanh,
    "softplus": softplus,
    "softsign": softsign,
    "selu": selu,
    "elu": elu,
    "hard_sigmoid": hard_sigmoid,
    "exponential": exponential,
    "softmax": softmax,
}


def get(identifier):
    if identifier is None:
        return linear
    if isinstance(identifier, str):
        if identifier in _ALL:
            return _ALL[identifier]
        raise ValueError("Could not interpret activation function identifier: " + identifier)
    if callable(identifier):
        return identifier
    raise ValueError("Could not interpret activation function identifier")


def serialize(f):
    if isinstance(f, Layer):
        return {"class_name": f.__class__.__name__, "config": f.get_config()}
    return f.__name__


def deserialize(name, custom_objects=None):
    return get(name)
