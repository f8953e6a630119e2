from keras._core import Node
