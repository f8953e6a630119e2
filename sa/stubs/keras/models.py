from keras._core import Model, Sequential, Functional
