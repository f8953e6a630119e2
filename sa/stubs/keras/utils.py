def serialize_keras_object(o):
    return o


def deserialize_keras_object(o, **kwargs):
    return o


def register_keras_serializable(package="Custom", name=None):
    def f(c):
        return c

    return f
