"""Interrupted training resumes exactly from the saved state."""
from sim import disk            # noqa: F401  (run.sh loads the simulated disk)
from sim import traingen
from sim.trainersim import run_aspects

RUNS = {'quick': 600, 'thorough': 40000}
FROZEN = ('shape', 'rel', 'first', 'vocab', 'clock', 'lr', 'real', 'command', 'images')
REAL = ['Trainer, stoppers, shuffling and linear batch iterators, vocabulary, Parameters, HDF5 model file on disk (real theanolm code, real h5py)']
STUB = ['network and optimizer: hash chain over all updates (a share of the runs of C01 uses real networks and optimizers)', 'validation scorer: costs chosen by the plan', 'clock: simulated, with jumps', 'process: exceptions at seam events or source lines, surviving bytes = model file at that moment']
ASSUMPTIONS = ['floatX=float64, pure Python Theano linker', 'validation points leave room for the samples (documented requirement of the trainer)', 'networks without dropout and noise sampling, whose random streams are not part of the saved state']
RULE = ('Plans: random corpora (1-3 files, long, empty and duplicate lines), batch sizes, length limits, validation '
        'frequency, patience, stopping criterion, validation cost histories and faults (kill, interrupt or error at a '
        'seam event, kill at an arbitrary source line, restart after the end), all from VERIF_SEED. Non-trivial: training was resumed from a saved state at least once. '
        'Distinct: by the hash of the complete event log.')
ASPECTS = ['resume:*', 'file:*']
RESTARTED = ['train:*', 'replay:*', 'epoch:*', 'rollback:*', 'data:*', 'stop:late']
ANNEALED = []


def gen(rng, index, tier):
    if index % 20 == 7:
        plan = traingen.gen_command(rng, index // 20, tier)
        if rng.random() < 0.5:
            # better states after annealing, then a restart
            plan['patience'] = 0
            plan['max_ann'] = plan['max_e'] = 9
            plan['costs'] = [{'rel': 'worse' if i % 2 else 'big', 'shape': [1.0], 'first': 50.0} for i in range(20)]
            plan['max_updates'] = 90
            plan['faults'] = [dict(f, at=20 + f['at'] % 150) for f in plan['faults']]
        return plan
    if index % 4 == 0:
        return traingen.gen_real(rng, index // 4, tier, line_faults=rng.random() < 0.3)
    return traingen.gen(rng, index, tier, line_faults=rng.random() < 0.5)


valid_plan = traingen.valid


def run(plan, ctx):
    sim = run_aspects(plan, ctx, ASPECTS, RESTARTED, ANNEALED)
    ctx.nontrivial = ctx.probes['resume'] > 0
