def to_list(x):
    if isinstance(x, list):
        return x
    return [x]
