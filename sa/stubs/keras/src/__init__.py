from keras._core import Functional
