"""A kill at any moment leaves the last saved model intact on disk."""
from sim import traingen
from sim import disk            # noqa: F401  (run.sh loads the simulated disk)
from sim import commandsim

RUNS = {'quick': 120, 'thorough': 8000}
FROZEN = ('shape', 'rel', 'first', 'vocab', 'clock', 'lr', 'real', 'errno')
REAL = ['the whole theanolm train command: argument parsing, vocabulary, network, optimizer, Trainer, iterators, model file (real h5py/HDF5)',
        'system calls on the model file (intercepted, performed on a scratch directory)']
STUB = ['validation perplexities: chosen by the plan', 'clock: simulated', 'kill: the disk image is rebuilt from the log of system calls up to the kill']
ASSUMPTIONS = ['a killed process loses only what it had not handed to the kernel (no power loss)',
               'floatX=float64, pure Python Theano linker']
RULE = ('Plans: corpora, options, validation cost histories, architecture, optimizer and disk faults from VERIF_SEED. In every '
        'life of the training process, the disk image after every system call on the model file, and after 1, n/2, n-1 and a '
        'random number of bytes of every write, is compared with the last saved state and the one being saved; the next life '
        'starts from one of the images. Distinct: by the hash of the event log.')
ASPECTS = ['kill:*', 'save:*', 'file:*']
RESTARTED = ['resume:*']
RUN_TIMEOUT = 300


def gen(rng, index, tier):
    while True:
        plan = traingen.gen_real(rng, index, tier, faults='none')
        plan['nsamples'] = plan['stat'] = None
        plan['vocab']['oos'] = True
        plan['max_updates'] = rng.choice([25, 40, 60])
        if traingen.valid(plan):
            break
    plan['real']['arch'] = rng.choice(['mlp', 'mlp', 'gru', 'class', 'multi'])
    plan['lives'] = rng.choice([1, 2, 2, 3])
    plan['crash'] = [rng.randrange(1 << 20) for _ in range(plan['lives'])]
    if rng.random() < 0.5:
        plan['costs'] = [{'rel': rng.choice(['big', 'clear', 'slight']), 'shape': [1.0, 1.3, 0.6, 1.1, 0.9, 1.7, 0.8],
                          'first': 50.0} for _ in range(4)]
    plan['disk'] = []
    for inc in range(plan['lives']):
        r = rng.random()
        if r < 0.35:
            plan['disk'].append({'inc': inc, 'kind': 'error', 'cls': rng.choice(['write', 'write', 'open', 'meta']),
                                 'nth': rng.choice([1, 2, 3, 4, 5, 6, 8, 12]), 'errno': rng.choice([5, 28, 122])})
        elif r < 0.5:
            plan['disk'].append({'inc': inc, 'kind': 'split', 'bytes': rng.choice([512, 4000, 40000])})
        elif r < 0.7:
            for _ in range(rng.choice([1, 3])):
                plan['disk'].append({'inc': inc, 'kind': rng.choice(['short', 'eintr']), 'nth': rng.randrange(1, 8),
                                     'bytes': rng.choice([1, 100, 5000])})
    # interrupts and errors in the middle of the work, also while saving
    for inc in range(plan['lives']):
        if rng.random() < 0.35:
            plan['faults'].append({'inc': inc, 'at': rng.randrange(1, 60), 'kind': 'interrupt',
                                   'lines': rng.choice([1, 5, 20, 40, 80]) + rng.randrange(0, 25)})
    return plan


def valid_plan(plan):
    return traingen.valid(plan) and plan['lives'] >= 1 and plan['crash'] and \
        all(f['nth'] >= 1 for f in plan['disk'] if 'nth' in f) and all(f['at'] >= 1 for f in plan['faults'])


def run(plan, ctx):
    commandsim.run(plan, ctx, ASPECTS, RESTARTED)
    ctx.nontrivial = ctx.probes['save'] > 0
