class Optimizer:
    def __init__(self, learning_rate=0.001, **kwargs):
        if "lr" in kwargs:
            raise ValueError("Argument(s) not recognized: lr")
        self.learning_rate = learning_rate


class Adam(Optimizer):
    pass


class SGD(Optimizer):
    pass
