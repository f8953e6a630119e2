import _sa
import keras.ops as K
from keras import activations
from keras._core import (
    Input,
    InputLayer,
    InputSpec,
    Lambda,
    Layer,
    Wrapper,
    _act_name,
)


class Activation(Layer):
    def __init__(self, activation, **kwargs):
        super().__init__(**kwargs)
        self.activation = activations.get(activation)

    def call(self, inputs):
        return self.activation(inputs)

    def compute_output_shape(self, input_shape):
        return input_shape

    def get_config(self):
        config = super().get_config()
        config["activation"] = activations.serialize(self.activation)
        return config


class ReLU(Layer):
    def __init__(self, max_value=None, negative_slope=0.0, threshold=0.0, **kwargs):
        super().__init__(**kwargs)
        self.max_value = max_value
        self.negative_slope = negative_slope
        self.threshold = threshold

    def call(self, inputs):
        return activations.relu(inputs, self.negative_slope, self.max_value, self.threshold)

    def compute_output_shape(self, input_shape):
        return input_shape

    def get_config(self):
        config = super().get_config()
        config.update({"max_value": self.max_value, "negative_slope": self.negative_slope, "threshold": self.threshold})
        return config


class PReLU(Layer):
    def __init__(self, **kwargs):
        super().__init__(**kwargs)

    def build(self, input_shape):
        self.alpha = self.add_weight(name="alpha", shape=tuple(input_shape[1:]), initializer="zeros")
        self.built = True

    def call(self, inputs):
        return K.relu(inputs) - self.alpha * K.relu(-inputs)

    def compute_output_shape(self, input_shape):
        return input_shape


class LeakyReLU(Layer):
    def __init__(self, negative_slope=0.3, **kwargs):
        super().__init__(**kwargs)
        self.negative_slope = negative_slope

    def call(self, inputs):
        return activations.relu(inputs, self.negative_slope)

    def compute_output_shape(self, input_shape):
        return input_shape

    def get_config(self):
        config = super().get_config()
        config["negative_slope"] = self.negative_slope
        return config


class Rescaling(Layer):
    def __init__(self, scale, offset=0.0, **kwargs):
        super().__init__(**kwargs)
        self.scale = scale
        self.offset = offset

    def call(self, inputs):
        return inputs * self.scale + self.offset

    def compute_output_shape(self, input_shape):
        return input_shape

    def get_config(self):
        config = super().get_config()
        config.update({"scale": self.scale, "offset": self.offset})
        return config


class RepeatVector(Layer):
    def __init__(self, n, **kwargs):
        super().__init__(**kwargs)
        self.n = n

    def call(self, inputs):
        return K.repeat(K.expand_dims(inputs, 1), self.n, axis=1)

    def compute_output_shape(self, input_shape):
        return (input_shape[0], self.n, input_shape[1])

    def get_config(self):
        config = super().get_config()
        config["n"] = self.n
        return config


class Softmax(Layer):
    def __init__(self, axis=-1, **kwargs):
        super().__init__(**kwargs)
        self.axis = axis

    def call(self, inputs):
        return K.softmax(inputs, axis=self.axis)

    def compute_output_shape(self, input_shape):
        return input_shape

    def get_config(self):
        config = super().get_config()
        config["axis"] = self.axis
        return config


class Dense(Layer):
    def __init__(self, units, activation=None, use_bias=True, kernel_initializer="glorot_uniform", bias_initializer="zeros", kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None, kernel_constraint=None, bias_constraint=None, **kwargs):
        super().__init__(activity_regularizer=activity_regularizer, **kwargs)
        self.units = units
        self.activation = activations.get(activation)
        self.use_bias = use_bias
        self.kernel_initializer = kernel_initializer
        self.bias_initializer = bias_initializer
        self.kernel_regularizer = kernel_regularizer
        self.bias_regularizer = bias_regularizer
        self.kernel_constraint = kernel_constraint
        self.bias_constraint = bias_constraint

    def build(self, input_shape):
        self.kernel = self.add_weight(name="kernel", shape=(input_shape[-1], self.units), initializer=self.kernel_initializer, constraint=self.kernel_constraint)
        if self.use_bias:
            self.bias = self.add_weight(name="bias", shape=(self.units,), initializer=self.bias_initializer, constraint=self.bias_constraint)
        else:
            self.bias = None
        self.built = True

    def call(self, inputs):
        x = K.dot(inputs, self.kernel)
        if self.use_bias:
            x = x + self.bias
        return self.activation(x)

    def compute_output_shape(self, input_shape):
        output_shape = list(input_shape)
        output_shape[-1] = self.units
        return tuple(output_shape)

    def get_config(self):
        config = super().get_config()
        config.update(
            {
                "units": self.units,
                "activation": activations.serialize(self.activation),
                "use_bias": self.use_bias,
                "kernel_initializer": self.kernel_initializer,
                "bias_initializer": self.bias_initializer,
                "kernel_regularizer": self.kernel_regularizer,
                "bias_regularizer": self.bias_regularizer,
                "kernel_constraint": self.kernel_constraint,
                "bias_constraint": self.bias_constraint,
            }
        )
        return config


def _two(v):
    if isinstance(v, int):
        return (v, v)
    return tuple(v)


class Conv2D(Layer):
    def __init__(self, filters, kernel_size, strides=(1, 1), padding="valid", data_format=None, dilation_rate=(1, 1), groups=1, activation=None, use_bias=True, kernel_initializer="glorot_uniform", bias_initializer="zeros", kernel_regularizer=None, bias_regularizer=None, activity_regularizer=None, kernel_constraint=None, bias_constraint=None, **kwargs):
        super().__init__(activity_regularizer=activity_regularizer, **kwargs)
        self.rank = 2
        self.filters = filters
        self.kernel_size = _two(kernel_size)
        self.strides = _two(strides)
        self.padding = padding.lower()
        self.data_format = data_format or "channels_last"
        self.dilation_rate = _two(dilation_rate)
        self.groups = groups
        self.activation = activations.get(activation)
        self.use_bias = use_bias
        self.kernel_initializer = kernel_initializer
        self.bias_initializer = bias_initializer
        self.kernel_regularizer = kernel_regularizer
        self.bias_regularizer = bias_regularizer
        self.kernel_constraint = kernel_constraint
        self.bias_constraint = bias_constraint

    def build(self, input_shape):
        c = input_shape[-1] if self.data_format == "channels_last" else input_shape[1]
        self.kernel = self.add_weight(name="kernel", shape=self.kernel_size + (c // self.groups, self.filters), initializer=self.kernel_initializer, constraint=self.kernel_constraint)
        if self.use_bias:
            self.bias = self.add_weight(name="bias", shape=(self.filters,), initializer=self.bias_initializer, constraint=self.bias_constraint)
        else:
            self.bias = None
        self.built = True

    def convolution_op(self, inputs, kernel):
        return K.conv(inputs, kernel, strides=list(self.strides), padding=self.padding, dilation_rate=self.dilation_rate, data_format=self.data_format)

    def call(self, inputs):
        out = self.convolution_op(inputs, self.kernel)
        if self.use_bias:
            if self.data_format == "channels_last":
                out = out + K.reshape(self.bias, (1, 1, 1, self.filters))
            else:
                out = out + K.reshape(self.bias, (1, self.filters, 1, 1))
        return self.activation(out)

    def compute_output_shape(self, input_shape):
        return _sa.conv_output_shape(tuple(input_shape), self.filters, self.kernel_size, self.strides, self.padding, self.data_format, self.dilation_rate)

    def get_config(self):
        config = super().get_config()
        config.update(
            {
                "filters": self.filters,
                "kernel_size": self.kernel_size,
                "strides": self.strides,
                "padding": self.padding,
                "data_format": self.data_format,
                "dilation_rate": self.dilation_rate,
                "groups": self.groups,
                "activation": activations.serialize(self.activation),
                "use_bias": self.use_bias,
                "kernel_initializer": self.kernel_initializer,
                "bias_initializer": self.bias_initializer,
                "kernel_regularizer": self.kernel_regularizer,
                "bias_regularizer": self.bias_regularizer,
                "kernel_constraint": self.kernel_constraint,
                "bias_constraint": self.bias_constraint,
            }
        )
        return config


class _Pooling2D(Layer):
    def __init__(self, pool_size=(2, 2), strides=None, padding="valid", data_format=None, name=None, **kwargs):
        super().__init__(name=name, **kwargs)
        self.pool_size = _two(pool_size)
        self.strides = _two(strides) if strides is not None else self.pool_size
        self.padding = padding
        self.data_format = data_format or "channels_last"
        self.pool_dimensions = 2
        self.input_spec = InputSpec(ndim=4)

    def compute_output_shape(self, input_shape):
        return _sa.pool_output_shape(tuple(input_shape), self.pool_size, self.strides, self.padding, self.data_format)

    def get_config(self):
        config = super().get_config()
        config.update({"pool_size": self.pool_size, "padding": self.padding, "strides": self.strides, "data_format": self.data_format})
        return config


class MaxPooling2D(_Pooling2D):
    def call(self, inputs):
        return K.max_pool(inputs, pool_size=self.pool_size, strides=self.strides, padding=self.padding, data_format=self.data_format)


class AveragePooling2D(_Pooling2D):
    def call(self, inputs):
        return K.average_pool(inputs, pool_size=self.pool_size, strides=self.strides, padding=self.padding, data_format=self.data_format)


class GlobalAveragePooling2D(Layer):
    def call(self, inputs):
        return K.mean(inputs, axis=(1, 2))

    def compute_output_shape(self, input_shape):
        return (input_shape[0], input_shape[3])


class BatchNormalization(Layer):
    def __init__(self, axis=-1, momentum=0.99, epsilon=1e-3, center=True, scale=True, beta_initializer="zeros", gamma_initializer="ones", moving_mean_initializer="zeros", moving_variance_initializer="ones", beta_regularizer=None, gamma_regularizer=None, beta_constraint=None, gamma_constraint=None, synchronized=False, **kwargs):
        super().__init__(**kwargs)
        self.axis = int(axis)
        self.momentum = momentum
        self.epsilon = epsilon
        self.center = center
        self.scale = scale
        self.beta_initializer = beta_initializer
        self.gamma_initializer = gamma_initializer
        self.moving_mean_initializer = moving_mean_initializer
        self.moving_variance_initializer = moving_variance_initializer
        self.beta_regularizer = beta_regularizer
        self.gamma_regularizer = gamma_regularizer
        self.beta_constraint = beta_constraint
        self.gamma_constraint = gamma_constraint
        self.synchronized = synchronized

    def build(self, input_shape):
        shape = (input_shape[self.axis],)
        if self.scale:
            self.gamma = self.add_weight(shape=shape, name="gamma", initializer=self.gamma_initializer)
        if self.center:
            self.beta = self.add_weight(shape=shape, name="beta", initializer=self.beta_initializer)
        self.moving_mean = self.add_weight(shape=shape, name="moving_mean", initializer="zeros", trainable=False)
        self.moving_variance = self.add_weight(shape=shape, name="moving_variance", initializer="ones", trainable=False)
        self.built = True

    def call(self, inputs, training=None, mask=None):
        shape = [1] * len(inputs.shape)
        shape[self.axis] = inputs.shape[self.axis]
        mean = K.reshape(self.moving_mean, shape)
        var = K.reshape(self.moving_variance, shape)
        if training:
            out = _sa.batch_statistics(self, inputs)
        else:
            out = (inputs - mean) / K.sqrt(var + self.epsilon)
        if self.scale:
            out = out * K.reshape(self.gamma, shape)
        if self.center:
            out = out + K.reshape(self.beta, shape)
        return out

    def compute_output_shape(self, input_shape):
        return input_shape

    def get_config(self):
        config = super().get_config()
        config.update(
            {
                "axis": self.axis,
                "momentum": self.momentum,
                "epsilon": self.epsilon,
                "center": self.center,
                "scale": self.scale,
                "beta_initializer": self.beta_initializer,
                "gamma_initializer": self.gamma_initializer,
                "moving_mean_initializer": self.moving_mean_initializer,
                "moving_variance_initializer": self.moving_variance_initializer,
                "beta_regularizer": self.beta_regularizer,
                "gamma_regularizer": self.gamma_regularizer,
                "beta_constraint": self.beta_constraint,
                "gamma_constraint": self.gamma_constraint,
                "synchronized": self.synchronized,
            }
        )
        return config


class Dropout(Layer):
    def __init__(self, rate, noise_shape=None, seed=None, name=None, dtype=None, **kwargs):
        super().__init__(name=name, dtype=dtype, **kwargs)
        self.rate = rate
        self.noise_shape = noise_shape
        self.seed = seed

    def call(self, inputs, training=False):
        if training and self.rate > 0:
            return _sa.random_mask(self, inputs)
        return inputs

    def compute_output_shape(self, input_shape):
        return input_shape

    def get_config(self):
        config = super().get_config()
        config.update({"rate": self.rate, "seed": self.seed, "noise_shape": self.noise_shape})
        return config


class Flatten(Layer):
    def __init__(self, data_format=None, **kwargs):
        super().__init__(**kwargs)
        self.data_format = data_format or "channels_last"
        self.input_spec = InputSpec(min_ndim=1)
        self._channels_first = self.data_format == "channels_first"

    def call(self, inputs):
        rank = len(inputs.shape)
        if self._channels_first and rank > 1:
            inputs = K.transpose(inputs, [0] + list(range(2, rank)) + [1])
        n = 1
        for s in inputs.shape[1:]:
            n = n * s
        return K.reshape(inputs, (inputs.shape[0], n))

    def compute_output_shape(self, input_shape):
        n = 1
        for s in input_shape[1:]:
            n = n * s
        return (input_shape[0], n)

    def get_config(self):
        config = super().get_config()
        config["data_format"] = self.data_format
        return config


class Reshape(Layer):
    def __init__(self, target_shape, **kwargs):
        super().__init__(**kwargs)
        self.target_shape = tuple(target_shape)

    def _resolve(self, input_shape):
        tot = 1
        for s in input_shape[1:]:
            tot = tot * s
        known = 1
        for s in self.target_shape:
            if s != -1:
                known = known * s
        return tuple([tot // known if s == -1 else s for s in self.target_shape])

    def build(self, input_shape):
        self._resolved_target_shape = self._resolve(input_shape)
        self.built = True

    def call(self, inputs):
        return K.reshape(inputs, (inputs.shape[0],) + self._resolve(inputs.shape))

    def compute_output_shape(self, input_shape):
        return (input_shape[0],) + self._resolve(input_shape)

    def get_config(self):
        config = super().get_config()
        config["target_shape"] = self.target_shape
        return config


class Permute(Layer):
    def __init__(self, dims, **kwargs):
        super().__init__(**kwargs)
        self.dims = tuple(dims)
        if sorted(dims) != list(range(1, len(dims) + 1)):
            raise ValueError("Invalid permutation argument `dims`")
        self.input_spec = InputSpec(ndim=len(self.dims) + 1)

    def call(self, inputs):
        return K.transpose(inputs, (0,) + self.dims)

    def compute_output_shape(self, input_shape):
        return (input_shape[0],) + tuple([input_shape[d] for d in self.dims])

    def get_config(self):
        config = super().get_config()
        config["dims"] = self.dims
        return config


class _Merge(Layer):
    def build(self, input_shape):
        if not isinstance(input_shape[0], (tuple, list)):
            raise ValueError("A merge layer should be called on a list of inputs.")
        self.built = True

    def call(self, inputs):
        if not isinstance(inputs, (list, tuple)) or len(inputs) < 1:
            raise ValueError("A merge layer should be called on a list of inputs.")
        return self._merge_function(inputs)

    def compute_output_shape(self, input_shape):
        return tuple(input_shape[0])


class Add(_Merge):
    def _merge_function(self, inputs):
        out = inputs[0]
        for i in range(1, len(inputs)):
            out = out + inputs[i]
        return out


class Subtract(_Merge):
    def _merge_function(self, inputs):
        if len(inputs) != 2:
            raise ValueError("A `Subtract` layer should be called on exactly 2 inputs.")
        return inputs[0] - inputs[1]


class Multiply(_Merge):
    def _merge_function(self, inputs):
        out = inputs[0]
        for i in range(1, len(inputs)):
            out = out * inputs[i]
        return out


class Average(_Merge):
    def _merge_function(self, inputs):
        out = inputs[0]
        for i in range(1, len(inputs)):
            out = out + inputs[i]
        return out / len(inputs)


class Maximum(_Merge):
    def _merge_function(self, inputs):
        out = inputs[0]
        for i in range(1, len(inputs)):
            out = K.maximum(out, inputs[i])
        return out


class Minimum(_Merge):
    def _merge_function(self, inputs):
        out = inputs[0]
        for i in range(1, len(inputs)):
            out = K.minimum(out, inputs[i])
        return out


class Concatenate(_Merge):
    def __init__(self, axis=-1, **kwargs):
        super().__init__(**kwargs)
        self.axis = axis

    def _merge_function(self, inputs):
        return K.concatenate(inputs, axis=self.axis)

    def compute_output_shape(self, input_shape):
        out = list(input_shape[0])
        for s in input_shape[1:]:
            out[self.axis] = out[self.axis] + s[self.axis]
        return tuple(out)

    def get_config(self):
        config = super().get_config()
        config["axis"] = self.axis
        return config


class Dot(_Merge):
    def __init__(self, axes, normalize=False, **kwargs):
        super().__init__(**kwargs)
        self.axes = axes
        self.normalize = normalize

    def _merge_function(self, inputs):
        x1, x2 = inputs
        if isinstance(self.axes, int):
            if self.axes < 0:
                axes = [self.axes % len(x1.shape), self.axes % len(x2.shape)]
            else:
                axes = [self.axes] * 2
        else:
            axes = [a % len(t.shape) if a < 0 else a for a, t in zip(self.axes, inputs)]
        if self.normalize:
            x1 = x1 / K.sqrt(K.sum(K.square(x1), axis=axes[0], keepdims=True))
            x2 = x2 / K.sqrt(K.sum(K.square(x2), axis=axes[1], keepdims=True))
        return _sa.batch_dot(x1, x2, axes)

    def compute_output_shape(self, input_shape):
        s1, s2 = list(input_shape[0]), list(input_shape[1])
        if isinstance(self.axes, int):
            if self.axes < 0:
                axes = [self.axes % len(s1), self.axes % len(s2)]
            else:
                axes = [self.axes] * 2
        else:
            axes = self.axes
        s1.pop(axes[0])
        s2.pop(axes[1])
        s2.pop(0)
        out = s1 + s2
        if len(out) == 1:
            out += [1]
        return tuple(out)

    def get_config(self):
        config = super().get_config()
        config["axes"] = self.axes
        config["normalize"] = self.normalize
        return config


def add(inputs, **kwargs):
    return Add(**kwargs)(inputs)


def maximum(inputs, **kwargs):
    return Maximum(**kwargs)(inputs)


class LSTM(Layer):
    pass


class GRU(Layer):
    pass


class UpSampling2D(Layer):
    def __init__(self, size=(2, 2), **kwargs):
        super().__init__(**kwargs)
        self.size = size
