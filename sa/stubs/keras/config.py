import _sa


def floatx():
    return "float32"


def epsilon():
    return _sa.EPS


def set_floatx(v):
    return None


def set_epsilon(v):
    return None


def image_data_format():
    return "channels_last"


def backend():
    return "tensorflow"
