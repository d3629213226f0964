"""Training stops exactly when the chosen stopping criterion says."""
from sim import disk            # noqa: F401  (run.sh loads the simulated disk)
from sim import traingen
from sim.trainersim import run_aspects

RUNS = {'quick': 700, 'thorough': 60000}
FROZEN = ('shape', 'rel', 'first', 'vocab', 'clock', 'lr', 'real', 'command', 'images')
REAL = ['Trainer, stoppers, shuffling and linear batch iterators, vocabulary, Parameters, HDF5 model file on disk (real theanolm code, real h5py)']
STUB = ['network and optimizer: hash chain over all updates (a share of the runs of C01 uses real networks and optimizers)', 'validation scorer: costs chosen by the plan', 'clock: simulated, with jumps', 'process: exceptions at seam events or source lines, surviving bytes = model file at that moment']
ASSUMPTIONS = ['floatX=float64, pure Python Theano linker', 'validation points leave room for the samples (documented requirement of the trainer)', 'networks without dropout and noise sampling, whose random streams are not part of the saved state']
RULE = ('Plans: random corpora (1-3 files, long, empty and duplicate lines), batch sizes, length limits, validation '
        'frequency, patience, stopping criterion, validation cost histories and faults (kill, interrupt or error at a '
        'seam event, kill at an arbitrary source line, restart after the end), all from VERIF_SEED. Non-trivial: training ran to its end. '
        'Distinct: by the hash of the complete event log.')
ASPECTS = ['stop:*']
RESTARTED = []
ANNEALED = []


def gen(rng, index, tier):
    if index % 14 == 7:
        plan = traingen.gen_command(rng, index // 14, tier, updates=(90, 150), validation=True)
        plan['patience'] = rng.choice([0, 0, 1])
        plan['max_e'] = rng.choice([2, 4, 6])
        plan['min_e'] = rng.choice([0, 1, 3])
        plan['max_ann'] = rng.choice([0, 0, 1])
        plan['faults'] = plan['faults'][:1]
        return plan
    plan = traingen.gen(rng, index, tier)
    plan['max_updates'] = 1500
    if rng.random() < 0.6:
        # improvements first, then none: training has to end
        k = rng.randrange(0, 6)
        plan['costs'] = traingen.gen_costs(rng, k) + \
            [{'rel': rng.choice(['worse', 'within', 'equal', 'abit']), 'shape': [1.0, 1.1, 0.9], 'first': 50.0} for _ in range(60)]
        plan['max_e'] = rng.choice([3, 5, 8])
    return plan


valid_plan = traingen.valid


def run(plan, ctx):
    sim = run_aspects(plan, ctx, ASPECTS, RESTARTED, ANNEALED)
    ctx.nontrivial = any(k.startswith('finished') for k in ctx.probes)
