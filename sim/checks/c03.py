"""The model file always holds the best validated state."""
from sim import disk            # noqa: F401  (run.sh loads the simulated disk)
from sim import traingen
from sim.trainersim import run_aspects

RUNS = {'quick': 700, 'thorough': 60000}
FROZEN = ('shape', 'rel', 'first', 'vocab', 'clock', 'lr', 'real', 'command', 'images')
REAL = ['Trainer, stoppers, shuffling and linear batch iterators, vocabulary, Parameters, HDF5 model file on disk (real theanolm code, real h5py)']
STUB = ['network and optimizer: hash chain over all updates (a share of the runs of C01 uses real networks and optimizers)', 'validation scorer: costs chosen by the plan', 'clock: simulated, with jumps', 'process: exceptions at seam events or source lines, surviving bytes = model file at that moment']
ASSUMPTIONS = ['floatX=float64, pure Python Theano linker', 'validation points leave room for the samples (documented requirement of the trainer)', 'networks without dropout and noise sampling, whose random streams are not part of the saved state']
RULE = ('Plans: random corpora (1-3 files, long, empty and duplicate lines), batch sizes, length limits, validation '
        'frequency, patience, stopping criterion, validation cost histories and faults (kill, interrupt or error at a '
        'seam event, kill at an arbitrary source line, restart after the end), all from VERIF_SEED. Non-trivial: at least two validations decided differently (improved or not). '
        'Distinct: by the hash of the complete event log.')
ASPECTS = ['file:*', 'torn:*', 'train:history', 'rollback:history', 'resume:history']
RESTARTED = []
ANNEALED = []


def gen(rng, index, tier):
    if index % 20 == 7:
        plan = traingen.gen_command(rng, index // 20, tier, validation=True)
        return plan
    return traingen.gen(rng, index, tier, validation=True, line_faults=rng.random() < 0.5)


valid_plan = traingen.valid


def run(plan, ctx):
    sim = run_aspects(plan, ctx, ASPECTS, RESTARTED, ANNEALED)
    ctx.nontrivial = ctx.probes['validation:improved'] > 0 and ctx.probes['validation:no'] > 0
