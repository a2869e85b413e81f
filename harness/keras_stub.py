"""A stand-in for Keras (not available offline): it records what it is asked to learn, and what it gives is a known (linear) function of what it is given."""
import json
import os
import sys
import types

import numpy


def weight(i, f, k):
    return ((i * 7 + f * 3 + k * 5 + 1) % 11 - 5) / 8


def output(x, size):
    """What the network gives for a sample (a list of lists of features)."""
    return [sum(v * weight(i, f, k) for i, row in enumerate(x) for f, v in enumerate(row)) for k in range(size)]


class Layer(object):
    def __init__(self, units, input_shape=None):
        self.units, self.input_shape = units, input_shape


class LSTM(Layer):
    pass


class Dense(Layer):
    pass


class Network(object):
    created = []

    def __init__(self):
        self.layers, self.fits, self.asked, self.compiled, self.size = [], [], [], [], None
        Network.created.append(self)

    def add(self, layer):
        self.layers.append(layer)
        self.size = layer.units

    def compile(self, loss=None, optimizer=None):
        self.compiled.append([loss, optimizer])

    def fit(self, x, y, epochs=1, verbose=0):
        x, y = numpy.asarray(x, dtype=float), numpy.asarray(y, dtype=float)
        if self.layers and x.shape[1:] != tuple(self.layers[0].input_shape):
            raise ValueError('Not the input shape of the network: {}'.format(x.shape))
        if y.shape != (x.shape[0], self.size):
            raise ValueError('Not the output shape of the network: {}'.format(y.shape))
        self.fits.append({'x': x.tolist(), 'y': y.tolist(), 'epochs': epochs, 'verbose': verbose})

    def predict(self, x, verbose=0):
        x = numpy.asarray(x, dtype=float)
        if self.layers and x.shape[1:] != tuple(self.layers[0].input_shape):
            raise ValueError('Not the input shape of the network: {}'.format(x.shape))
        self.asked.append(x.tolist())
        return numpy.array([output(sample, self.size) for sample in x.tolist()])

    def save(self, path):
        with open(path, 'w') as f:
            json.dump([[type(layer).__name__, layer.units, layer.input_shape] for layer in self.layers] or self.size, f)


def load_model(path):
    if not os.path.exists(path):
        raise IOError('No file or directory found at {}'.format(path))
    with open(path) as f:
        content = json.load(f)
    network = Network()
    if isinstance(content, list):
        for name, units, shape in content:
            network.add({'LSTM': LSTM, 'Dense': Dense}[name](units, tuple(shape) if shape else None))
    else:
        network.size = content
    return network


def external(size):
    """A network not created by the model."""
    network = Network()
    network.size = size
    return network


def install():
    if 'keras' in sys.modules and getattr(sys.modules['keras'], 'stub', False):
        return
    keras, models, layers = (types.ModuleType(name) for name in ('keras', 'keras.models', 'keras.layers'))
    models.Sequential, models.load_model, layers.LSTM, layers.Dense = Network, load_model, LSTM, Dense
    keras.models, keras.layers, keras.stub = models, layers, True
    sys.modules.update({'keras': keras, 'keras.models': models, 'keras.layers': layers})
