"""layers a user could define"""
import keras.ops as K
from keras.layers import Activation, Add, BatchNormalization, Conv2D, Dense, Flatten, Layer


class Square(Layer):
    def call(self, inputs):
        return inputs * inputs

    def compute_output_shape(self, input_shape):
        return input_shape


class ScaledDense(Dense):
    def call(self, inputs):
        return 2.0 * super().call(inputs) + 1.0


class ShiftedActivation(Activation):
    def call(self, inputs):
        return super().call(inputs) + 1.0


class ScaledConv2D(Conv2D):
    def call(self, inputs):
        return 2.0 * super().call(inputs) + 1.0


class OppositeFlatten(Flatten):
    def call(self, inputs):
        return -super().call(inputs)


class ShiftedAdd(Add):
    def call(self, inputs):
        return super().call(inputs) + 1.0


def double(x):
    return 2.0 * x


def shifted_relu(x):
    return K.relu(x) + 1.0
