import keras.ops as K


class Initializer:
    def __call__(self, shape, dtype=None):
        raise NotImplementedError

    def get_config(self):
        return {}

    @classmethod
    def from_config(cls, config):
        return cls(**config)


class Zeros(Initializer):
    def __call__(self, shape, dtype=None):
        return K.zeros(shape)


class Ones(Initializer):
    def __call__(self, shape, dtype=None):
        return K.ones(shape)


class Constant(Initializer):
    def __init__(self, value=0.0):
        self.value = value

    def __call__(self, shape, dtype=None):
        return K.full(shape, self.value)


def get(c):
    if c == "ones":
        return Ones()
    if c == "zeros":
        return Zeros()
    return c


def serialize(c):
    return c


def deserialize(c):
    return c
