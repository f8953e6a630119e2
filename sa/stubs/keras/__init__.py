import _sa
from keras import activations, config, layers, ops
from keras._core import (
    Functional,
    Input,
    KerasTensor,
    Layer,
    Model,
    Operation,
    Sequential,
    Variable,
)
from keras import initializers, constraints, models, utils, optimizers, regularizers, backend

__version__ = "3.0.5"
