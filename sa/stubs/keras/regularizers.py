def get(c):
    return c


def serialize(c):
    return c
