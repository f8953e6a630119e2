import keras.ops as K


class Constraint:
    def __call__(self, w):
        return w

    def get_config(self):
        return {}

    @classmethod
    def from_config(cls, config):
        return cls(**config)


class NonNeg(Constraint):
    def __call__(self, w):
        return K.maximum(w, 0.0)


def get(c):
    return c


def serialize(c):
    return c


def deserialize(c):
    return c
