from keras.config import backend, epsilon, floatx, image_data_format
from keras._core import KerasTensor, Variable
