from _sa import rnn
from keras.config import backend, epsilon, floatx
