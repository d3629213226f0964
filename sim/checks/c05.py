"""Every epoch trains on every sentence exactly once, in a fresh random order."""
from sim import disk            # noqa: F401  (run.sh loads the simulated disk)
from sim import traingen
from sim.trainersim import run_aspects

RUNS = {'quick': 700, 'thorough': 60000}
FROZEN = ('shape', 'rel', 'first', 'vocab', 'clock', 'lr', 'real', 'command', 'images')
REAL = ['Trainer, stoppers, shuffling and linear batch iterators, vocabulary, Parameters, HDF5 model file on disk (real theanolm code, real h5py)']
STUB = ['network and optimizer: hash chain over all updates (a share of the runs of C01 uses real networks and optimizers)', 'validation scorer: costs chosen by the plan', 'clock: simulated, with jumps', 'process: exceptions at seam events or source lines, surviving bytes = model file at that moment']
ASSUMPTIONS = ['floatX=float64, pure Python Theano linker', 'validation points leave room for the samples (documented requirement of the trainer)', 'networks without dropout and noise sampling, whose random streams are not part of the saved state']
RULE = ('Plans: random corpora (1-3 files, long, empty and duplicate lines), batch sizes, length limits, validation '
        'frequency, patience, stopping criterion, validation cost histories and faults (kill, interrupt or error at a '
        'seam event, kill at an arbitrary source line, restart after the end), all from VERIF_SEED. Non-trivial: an epoch was interrupted by a restart or an annealing, or several epochs were completed, or sampling was used. '
        'Distinct: by the hash of the complete event log.')
ASPECTS = ['data:*', 'epoch:*', 'order:*', 'replay:*', 'rollback:data', 'resume:data', 'rollback:twice', 'resume:twice', 'train:position', 'rollback:position', 'resume:position']
RESTARTED = []
ANNEALED = []


def many_files(plan, rng):
    """Spreads the sentences over so many files that file numbers get large."""
    lines = [x for fl in plan['files'] for x in fl if x.split()]
    n = rng.choice([129, 140, 200, 300])
    words = plan['vocab']['shortlist']
    plan['files'] = [[lines[i] if i < len(lines) else '%s %s' % (rng.choice(words), rng.choice(words))] for i in range(n)]
    for i in range(rng.choice([0, 5, 40])):
        plan['files'][rng.randrange(n)].append('%s %s' % (rng.choice(words), rng.choice(words)))
    plan['validation'] = False
    plan['B'] = rng.choice([3, 8, 16])
    plan['f'] = 1
    plan['nsamples'] = plan['stat'] = None
    plan['max_updates'] = 120
    return plan


def gen(rng, index, tier):
    if index % 20 == 7:
        plan = traingen.gen_command(rng, index // 20, tier)
        plan['max_e'] = rng.choice([3, 5])
        return plan
    if index % 60 == 24:
        return many_files(traingen.gen(rng, index, tier, validation=False), rng)
    if index % 6 == 5:
        return traingen.gen(rng, index, tier, sampling=True, validation=False)
    plan = traingen.gen(rng, index, tier, big=index % 10 == 3)
    if rng.random() < 0.5:
        plan['max_e'] = rng.choice([3, 5])
        plan['min_e'] = rng.choice([2, 3])
    return plan


valid_plan = traingen.valid


def run(plan, ctx):
    sim = run_aspects(plan, ctx, ASPECTS, RESTARTED, ANNEALED)
    ctx.nontrivial = ctx.probes['resume-mid-epoch'] > 0 or ctx.probes['anneal'] > 0 or ctx.probes['fresh-order'] > 0 or bool(plan.get('sampling'))
