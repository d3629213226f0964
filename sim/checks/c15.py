"""Scores do not depend on batching or on what was scored before."""
import os

from sim import cmds, realnet
from sim import disk                                    # noqa: F401
from sim import scoresim as ss
from sim.core import Violation
from sim.scoresim import numpy, close, same

RUNS = {'quick': 260, 'thorough': 20000}
FROZEN = ('model', 'scorers', 'L')
REAL = ['Network (from a model file), TextScorer, ScoringBatchIterator and LinearBatchIterator, Vocabulary, LatticeDecoder, TextSampler, optimizer: one set of objects per run',
        'theanolm score as a whole process (a share of the runs)']
STUB = ['text files: memory files whose reads fail when the plan says so', 'clock: simulated']
ASSUMPTIONS = ['floatX=float64; equal means equal up to a relative difference of 1e-8 (sums may be rounded differently)',
               'networks without GLU layers (not supported by the pure Python linker)']
RULE = ('Plans: model, texts and a seeded schedule of operations on the same objects (score batches of any grouping and order, perplexity with any '
        'batch size, repeated iteration, line scores, decoding, sampling, training followed by restoring the parameters, operations aborted by a '
        'read error) from VERIF_SEED. Reference: each utterance alone in a forked process that scored nothing else. '
        'Non-trivial: at least three operations, with a mini-batch of several utterances of different length. Distinct: by the hash of the event log.')
RUN_TIMEOUT = 200
SIMTIME = 'one step is one operation of the schedule'
ARCHS = ['mlp', 'lstm', 'gru', 'class', 'multi', 'deep', 'drop', 'bidir', 'bigru']


def prepare():
    cmds.prepare()


def gen(rng, index, tier):
    if index % 13 == 12:
        return gen_command(rng)
    m = ss.gen_world(rng, ARCHS)
    if index < 40:
        m['arch'] = ARCHS[index % len(ARCHS)]
    n = rng.choice([3, 6, 10])
    lengths = rng.choice([(1, 2, 3, 5, 9, 14), (1, 12), (4,), (1, 2)])
    plan = {'model': m, 'text': cmds.gen_text(rng, m, n, lengths=lengths, empty=0.05),
            'scorers': rng.sample([[True, False], [False, False], [False, True], [True, True]], rng.choice([1, 2])),
            'L': rng.choice([None, None, None, 3, 5, 8]), 'ops': []}
    for _ in range(rng.choice([4, 7, 12])):
        kind = rng.choice(['batch', 'batch', 'batch', 'ppl', 'ppl', 'lines', 'reuse', 'abort', 'train', 'decode', 'sample', 'reload'])
        plan['ops'].append({'op': kind, 'seed': rng.randrange(1 << 30), 'size': rng.choice([1, 2, 3, 5, 16]),
                            'n': rng.choice([1, 2, 5, 9]), 'scorer': rng.randrange(2)})
    return plan


def gen_command(rng):
    m = ss.gen_world(rng, ARCHS)
    opts = []
    if rng.random() < 0.5:
        opts.append('--shortlist')
    if rng.random() < 0.3:
        opts.append('--exclude-unk')
    return {'command': rng.choice(['word-scores', 'utterance-scores', 'perplexity']), 'model': m, 'options': opts,
            'text': cmds.gen_text(rng, m, rng.choice([5, 20, 40]), empty=0.05), 'order': rng.randrange(1 << 30),
            'clock': []}


def valid_plan(plan):
    return any(x.strip() for x in plan['text']) and ('command' in plan or (len(plan['scorers']) > 0 and len(plan['ops']) > 0))


def shrink(plan):
    if 'ops' in plan:
        for i in range(len(plan['ops'])):
            p = dict(plan)
            p['ops'] = plan['ops'][:i] + plan['ops'][i + 1:]
            if p['ops']:
                yield p
        for n in (None,):
            if plan['L'] is not None:
                yield dict(plan, L=n)


# ---------------------------------------------------------------- objects

class Run:
    def __init__(self, plan, ctx):
        self.plan = plan
        self.ctx = ctx
        self.path = os.path.join(ctx.scratch, 'model.h5')
        cmds.write_model(plan['model'], self.path)
        self.world = ss.World(plan, self.path)
        self.voc = self.world.vocabulary
        self.keys = sorted(self.world.scorers)
        self.lines = [x for x in plan['text']]
        self.utts = [ss.utterance(x) for x in self.lines]
        # every sequence that any operation may score
        self.seqs = sorted({tuple(p) for u in self.utts for L in (None, plan['L']) for p in ss.pieces(u, L)})
        self.ref = {}
        for key in self.keys:
            for s in self.seqs:
                self.ref[key, s] = ss.isolated(lambda: ss.score_words(self.world.scorers[key], self.voc, s))
        self.iters = {}
        self.mixed = False
        self.decoder = None
        self.sampler = None
        self.optimizer = None

    def fail(self, sig, where, want, got):
        raise Violation(sig, '%s: %s, alone %s (model %s, scorer %s)' % (where, got, want, self.plan['model']['arch'], self.key))

    def expected_total(self, seqs):
        """Sum and number of the finite scores."""
        xs = [x for s in seqs for x in self.ref[self.key, s] if x is not None and x != -numpy.inf]
        return sum(xs), len(xs)

    def subset(self, rng, n):
        idx = [rng.randrange(len(self.lines)) for _ in range(n)]
        return idx

    def source(self, idx):
        return ss.Source(''.join(self.lines[i] + '\n' for i in idx))

    def run_batches(self, it, seqs, where):
        k = 0
        for ids, words, mask in it:
            lens = {len(w) for w in words}
            if len(words) > 1 and len(lens) > 1:
                self.mixed = True
            class_ids, probs = self.voc.get_class_memberships(ids)
            res = self.world.scorers[self.key].score_batch(ids, class_ids, probs, mask)
            if len(res) != len(words):
                self.fail('lost-sequence', where, len(words), len(res))
            for w, r in zip(words, res):
                if k >= len(seqs) or tuple(w) != seqs[k]:
                    self.fail('wrong-sequence', where, seqs[k] if k < len(seqs) else None, w)
                r = [None if x is None else float(x) for x in r]
                want = self.ref[self.key, seqs[k]]
                if not same(want, r):
                    self.fail('batch-score', '%s, sequence %d %s' % (where, k, ' '.join(seqs[k])), want, r)
                k += 1
        if k != len(seqs):
            self.fail('lost-sequence', where, len(seqs), k)

    def check_ppl(self, got, seqs, where):
        lp, n = self.expected_total(seqs)
        want = numpy.exp(-lp / n)
        if not close(want, got):
            self.fail('perplexity', where, want, got)

    def sequences(self, idx, L):
        return [tuple(p) for i in idx for p in ss.pieces(self.utts[i], L)]

    def step(self, k, op):
        import random
        rng = random.Random(op['seed'])
        self.key = self.keys[op['scorer'] % len(self.keys)]
        scorer = self.world.scorers[self.key]
        L = self.plan['L'] if rng.random() < 0.6 else None
        where = 'operation %d (%s, batch size %d)' % (k, op['op'], op['size'])
        kind = op['op']
        idx = self.subset(rng, op['n'])
        seqs = self.sequences(idx, L)
        if kind == 'batch':
            it = ss.ScoringBatchIterator(self.source(idx), self.voc, batch_size=op['size'], max_sequence_length=L, map_oos_to_unk=False)
            self.run_batches(it, seqs, where)
        elif kind in ('ppl', 'reuse'):
            if self.expected_total(seqs)[1] == 0:
                return
            if kind == 'reuse' and self.iters:
                it, seqs = self.iters[sorted(self.iters)[rng.randrange(len(self.iters))]]
                if self.expected_total(seqs)[1] == 0:
                    return
            else:
                it = ss.LinearBatchIterator(self.source(idx), self.voc, batch_size=op['size'], max_sequence_length=L, map_oos_to_unk=False)
                self.iters[k] = (it, seqs)
            got = scorer.compute_perplexity(it)
            self.check_ppl(got, seqs, where)
        elif kind == 'lines':
            for i in idx:
                got = scorer.score_line(self.lines[i], self.voc)
                if not self.utts[i]:
                    if got is not None:
                        self.fail('line-score', where, None, got)
                    continue
                want, _ = self.expected_total([tuple(self.utts[i])])
                if got is None or not close(want, got):
                    self.fail('line-score', '%s, line %s' % (where, self.lines[i]), want, got)
        elif kind == 'abort':
            # an operation that fails in the middle
            src = self.source(idx)
            it = ss.LinearBatchIterator(src, self.voc, batch_size=op['size'], max_sequence_length=L, map_oos_to_unk=False)
            src.fail_at = rng.randrange(0, len(idx) + 1)
            try:
                scorer.compute_perplexity(it)
            except OSError:
                self.ctx.fault('aborted-operation')
            except ValueError:
                pass
        elif kind == 'train':
            if self.optimizer is None:
                self.world.network.class_prior_probs = None
                self.optimizer = realnet.build_optimizer('sgd', self.world.network, lr=0.3)
            it = ss.LinearBatchIterator(self.source(idx), self.voc, batch_size=op['size'], max_sequence_length=L or 10, map_oos_to_unk=True)
            n = 0
            for ids, files, mask in it:
                if ids.shape[0] < 3:
                    continue
                self.optimizer.update_minibatch(ids, self.voc.word_id_to_class_id[ids], files, mask)
                n += 1
            if n and any(self.moved(seqs)):
                self.ctx.fault('parameters-changed')
            self.world.restore()
        elif kind == 'reload':
            self.world.restore()
        elif kind == 'decode':
            self.decode(rng)
        elif kind == 'sample':
            self.sample(rng, op)

    def moved(self, seqs):
        for s in seqs[:1]:
            r = ss.score_words(self.world.scorers[self.key], self.voc, s)
            yield not same(r, self.ref[self.key, s])

    def decode(self, rng):
        if self.plan['model']['arch'] in ('bidir', 'bigru'):
            return
        from theanolm.network import Network
        from theanolm.scoring import LatticeDecoder
        from theanolm.scoring.slflattice import SLFLattice
        if self.decoder is None:
            net = Network.from_file(self.path, mode=Network.Mode(minibatch=False))
            self.decoder = LatticeDecoder(net, decoding_options())
        lat = cmds.gen_lattice(rng, self.plan['model'], n=rng.choice([3, 5]))
        self.decoder.decode(SLFLattice(ss.Source(cmds.slf(lat))))

    def sample(self, rng, op):
        if self.plan['model']['arch'] in ('bidir', 'bigru'):
            return
        from theanolm.network import Network
        from theanolm import TextSampler
        if self.sampler is None:
            net = Network.from_file(self.path, mode=Network.Mode(minibatch=False))
            self.sampler = TextSampler(net)
        self.sampler.generate(5, op['size'])


def decoding_options(**kw):
    o = {'nnlm_weight': 1.0, 'lm_scale': None, 'wi_penalty': None, 'unk_penalty': None, 'use_shortlist': False,
         'unk_from_lattice': False, 'linear_interpolation': False, 'max_tokens_per_node': None, 'beam': None,
         'recombination_order': None}
    o.update(kw)
    return o


def run(plan, ctx):
    if 'command' in plan:
        return run_command(plan, ctx)
    sim = Run(plan, ctx)
    ctx.event('model', plan['model']['arch'], [round(sum(x for x in v if x is not None and x > -1e300), 9) for _, v in sorted(sim.ref.items())])
    for k, op in enumerate(plan['ops']):
        ctx.event(k, op['op'], op['size'], op['n'])
        ctx.probe('op:' + op['op'])
        ctx.steps += 1
        sim.step(k, op)
    # in the end everything once more, one by one and all together
    sim.key = sim.keys[0]
    for size in (1, len(sim.lines)):
        idx = list(range(len(sim.lines)))
        it = ss.ScoringBatchIterator(sim.source(idx), sim.voc, batch_size=size, max_sequence_length=None, map_oos_to_unk=False)
        sim.run_batches(it, sim.sequences(idx, None), 'at the end, batch size %d' % size)
    ctx.probe('arch:' + plan['model']['arch'])
    ctx.nontrivial = sim.mixed and len(plan['ops']) >= 3


# ---------------------------------------------------------------- commands

def parse_words(text):
    """Output of --output word-scores by utterance: the score of every line."""
    out = []
    for block in text.split('# Sentence ')[1:]:
        head, _, body = block.partition('\n')
        rows = [x for x in body.split('\n') if x.startswith('log(') or x.startswith('p(')]
        out.append(rows)
    return out


def run_command(plan, ctx):
    import random
    root = os.path.join(ctx.scratch, 'disk')
    os.mkdir(root)
    model = os.path.join(root, 'model.h5')
    cmds.write_model(plan['model'], model)
    mode = plan['command']
    log = os.path.join(ctx.scratch, 'log')

    def score(lines, name):
        src = os.path.join(root, name)
        out = src + '.out'
        cmds.put(src, ''.join(x + '\n' for x in lines))
        r = cmds.run('theanolm', ['score', model, src, '--output', mode, '--output-file', out, '--log-file', log] + plan['options'], root, log=False)
        ctx.steps += 1
        if r.status:
            return None
        return cmds.get(out).decode()

    def body(text):
        if mode == 'word-scores':
            return [parse_numbers('\n'.join(x)) for x in parse_words(text)]
        if mode == 'utterance-scores':
            return [parse_numbers(x) for x in text.split('\n') if x.strip()]
        for line in text.split('\n'):
            if line.startswith('Perplexity'):
                return [parse_numbers(line)]
        return None

    lines = [x for x in plan['text'] if x.strip()]
    whole = score(lines, 'whole.txt')
    if whole is None:
        ctx.event('not scorable')
        return
    want = body(whole)
    order = list(range(len(lines)))
    random.Random(plan['order']).shuffle(order)
    got = score([lines[i] for i in order], 'shuffled.txt')
    got = None if got is None else body(got)
    ctx.event(mode, len(lines), plan['options'], len(want or []))
    ctx.probe('command:' + mode)
    if mode == 'perplexity':
        if not got or not want or not same(want[0], got[0]):
            raise Violation('command-order', 'perplexity of the same sentences in another order: %s, %s' % (want, got))
    else:
        if not want or len(want) != len(lines) or got is None or len(got) != len(lines):
            raise Violation('command-lost', '%d utterances, scores for %s and %s' % (len(lines), want and len(want), got and len(got)))
        for k, i in enumerate(order):
            if not same(want[i], got[k]):
                raise Violation('command-order', '`%s´ is scored %s, in another order %s' % (lines[i], want[i], got[k]))
        for i in sorted(order[:3]):
            alone = score([lines[i]], 'alone%d.txt' % i)
            alone = None if alone is None else body(alone)
            if not alone or not same(want[i], alone[0]):
                raise Violation('command-alone', '`%s´ is scored %s, alone %s' % (lines[i], want[i], alone))
    ctx.nontrivial = len(set(lines)) > 2


def parse_numbers(text):
    import re
    return [float(x) for x in re.findall(r'(?<![\w.])-?(?:\d+\.\d+(?:e-?\d+)?|inf|\d+)(?![\w.])', text)]
