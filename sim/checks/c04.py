"""Annealing returns to the best state and halves the learning rate."""
from sim import disk            # noqa: F401  (run.sh loads the simulated disk)
from sim import traingen
from sim.trainersim import run_aspects

RUNS = {'quick': 700, 'thorough': 60000}
FROZEN = ('shape', 'rel', 'first', 'vocab', 'clock', 'lr', 'real', 'command', 'images')
REAL = ['Trainer, stoppers, shuffling and linear batch iterators, vocabulary, Parameters, HDF5 model file on disk (real theanolm code, real h5py)']
STUB = ['network and optimizer: hash chain over all updates (a share of the runs of C01 uses real networks and optimizers)', 'validation scorer: costs chosen by the plan', 'clock: simulated, with jumps', 'process: exceptions at seam events or source lines, surviving bytes = model file at that moment']
ASSUMPTIONS = ['floatX=float64, pure Python Theano linker', 'validation points leave room for the samples (documented requirement of the trainer)', 'networks without dropout and noise sampling, whose random streams are not part of the saved state']
RULE = ('Plans: random corpora (1-3 files, long, empty and duplicate lines), batch sizes, length limits, validation '
        'frequency, patience, stopping criterion, validation cost histories and faults (kill, interrupt or error at a '
        'seam event, kill at an arbitrary source line, restart after the end), all from VERIF_SEED. Non-trivial: at least one annealing happened. '
        'Distinct: by the hash of the complete event log.')
ASPECTS = ['rollback:*', 'replay:*', 'train:lr', 'train:params', 'train:position', 'train:chain', 'resume:lr']
RESTARTED = []
ANNEALED = ['train:*', 'epoch:*', 'data:*', 'schedule:*']


def gen(rng, index, tier):
    if index % 20 == 7:
        plan = traingen.gen_command(rng, index // 20, tier, validation=True)
        plan['patience'] = rng.choice([0, 0, 1])
        plan['max_ann'] = rng.choice([2, 5, 9])
        return plan
    plan = traingen.gen(rng, index, tier, validation=True)
    if rng.random() < 0.7:
        plan['patience'] = rng.choice([0, 0, 1])
        plan['max_e'] = rng.choice([5, 12])
        plan['max_ann'] = rng.choice([2, 5, 9])
    if index % 12 == 5:
        plan = traingen.gen_real(rng, index // 12, tier, validation=True)
        plan['patience'] = rng.choice([0, 0, 1])
        plan['max_ann'] = 5
    return plan


valid_plan = traingen.valid


def run(plan, ctx):
    sim = run_aspects(plan, ctx, ASPECTS, RESTARTED, ANNEALED)
    ctx.nontrivial = ctx.probes['anneal'] > 0
