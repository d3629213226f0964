"""Real networks and optimizers, compiled once per worker (and configuration)
and used by forked processes."""

import io

from sim.clock import install
install()
import numpy                                            # noqa: E402
import h5py                                             # noqa: E402
import theano                                           # noqa: E402
from theanolm.network import Architecture, Network      # noqa: E402
from theanolm.training import create_optimizer, CrossEntropyCost    # noqa: E402
from theanolm.vocabulary import Vocabulary              # noqa: E402

ARCHS = {
    'mlp': ['input type=word name=word_input',
            'layer type=projection name=projection_layer input=word_input size=4',
            'layer type=tanh name=hidden_layer input=projection_layer size=5',
            'layer type=softmax name=output_layer input=hidden_layer'],
    'lstm': ['input type=word name=word_input',
             'layer type=projection name=projection_layer input=word_input size=4',
             'layer type=lstm name=hidden_layer_1 input=projection_layer size=5',
             'layer type=softmax name=output_layer input=hidden_layer_1'],
    'gru': ['input type=word name=word_input',
            'layer type=projection name=projection_layer input=word_input size=4',
            'layer type=gru name=hidden_layer_1 input=projection_layer size=5',
            'layer type=softmax name=output_layer input=hidden_layer_1'],
    'class': ['input type=class name=class_input',
              'layer type=projection name=projection_layer input=class_input size=4',
              'layer type=gru name=hidden_layer_1 input=projection_layer size=5',
              'layer type=softmax name=output_layer input=hidden_layer_1'],
    'multi': ['input type=word name=word_input',
              'input type=class name=class_input',
              'layer type=projection name=wproj input=word_input size=3',
              'layer type=projection name=cproj input=class_input size=2',
              'layer type=tanh name=joint input=wproj input=cproj size=4',
              'layer type=highwaytanh name=hw input=joint size=4',
              'layer type=hsoftmax name=output_layer input=hw'],
    'deep': ['input type=word name=word_input',
             'layer type=projection name=projection_layer input=word_input size=4',
             'layer type=lstm name=h1 input=projection_layer size=4',
             'layer type=gru name=h2 input=h1 size=4',
             'layer type=add name=sum input=h1 input=h2',
             'layer type=tanh name=g input=sum size=4',
             'layer type=softmax name=output_layer input=g'],
    'drop': ['input type=word name=word_input',
             'layer type=projection name=projection_layer input=word_input size=4',
             'layer type=dropout name=d1 input=projection_layer dropout_rate=0.3',
             'layer type=gru name=h1 input=d1 size=4',
             'layer type=fc name=h2 input=h1 size=5 activation=relu',
             'layer type=dropout name=d2 input=h2 dropout_rate=0.5',
             'layer type=softmax name=output_layer input=d2'],
    'bidir': ['input type=word name=word_input',
              'layer type=projection name=projection_layer input=word_input size=4',
              'layer type=blstm name=h1 input=projection_layer size=4',
              'layer type=softmax name=output_layer input=h1'],
    'bigru': ['input type=word name=word_input',
              'layer type=projection name=projection_layer input=word_input size=4',
              'layer type=bgru name=h1 input=projection_layer size=4',
              'layer type=softmax name=output_layer input=h1'],
}

OPTIMIZERS = ['sgd', 'nesterov', 'adagrad', 'adadelta', 'rmsprop-sgd', 'rmsprop-nesterov', 'adam']


def architecture(name, lines=None):
    f = io.StringIO('\n'.join(lines or ARCHS[name]) + '\n')
    f.name = name
    return Architecture.from_description(f)


def build_network(arch, vocab, seed=1, **kw):
    numpy.random.seed(seed)
    prior = vocab.get_class_probs() if vocab.has_unigram_probs() else None
    return Network(architecture(arch) if isinstance(arch, str) else arch, vocab, prior, **kw)


def build_optimizer(method, network, lr=0.1, nfiles=3, weights=None):
    options = {'method': method, 'epsilon': 1e-6, 'gradient_decay_rate': 0.9,
               'sqr_gradient_decay_rate': 0.999, 'learning_rate': lr,
               'weights': numpy.asarray(weights if weights else [1.0] * nfiles, dtype=theano.config.floatX),
               'momentum': 0.9, 'max_gradient_norm': 5.0, 'num_noise_samples': 1,
               'noise_sharing': None}
    cost = CrossEntropyCost(network, None, None, None, 1e-6)
    return create_optimizer(options, network, cost)


def state_values(*objects):
    """Everything the objects save, by path."""
    f = h5py.File('state-values', 'w', driver='core', backing_store=False)
    try:
        for o in objects:
            o.get_state(f)
        out = {}

        def visit(name, obj):
            if isinstance(obj, h5py.Dataset) and (name.startswith('layers/') or name.startswith('optimizer/')):
                out[name] = obj[...]
        f.visititems(visit)
        return out
    finally:
        f.close()


class RealSystem:
    real = True

    def __init__(self, network, optimizer):
        self.network = network
        self.optimizer = optimizer
        self._update = optimizer.update_minibatch
        self._shared = self._find_shared()

    def _find_shared(self):
        """Direct access to the shared variables (much faster than saving the
        state for every update), if they can be identified by their names."""
        import gc
        paths = state_values(self.network, self.optimizer)
        found = {}
        for obj in gc.get_objects():
            if isinstance(obj, theano.compile.SharedVariable) and obj.name in paths:
                if obj.name in found and found[obj.name] is not obj:
                    return None
                found[obj.name] = obj
        if set(found) != set(paths):
            return None
        for path, value in paths.items():
            if not numpy.array_equal(found[path].get_value(), value):
                return None
        return found

    def hook(self, fn):
        self.optimizer.update_minibatch = fn

    def values(self):
        if self._shared is not None:
            return {k: numpy.array(v.get_value()) for k, v in self._shared.items()}
        return state_values(self.network, self.optimizer)

    def step(self, batch):
        self._update(*batch)
