"""C19: generated text follows the distribution of the model."""

import os

from sim import disk
from sim import cmds, scoresim as ss
from sim.core import Violation
from sim.scoresim import numpy
from sim.trainersim import LineBomb
from scipy.stats import chi2
from theanolm.network import Network
from theanolm.scoring import TextScorer
from theanolm import TextSampler

RUNS = {'quick': 80, 'thorough': 10000}
FROZEN = ('model', 'seed', 'length')
REAL = ['TextSampler, Network in single step mode, Vocabulary, word classes, recurrent states: real code',
        'theanolm sample as a whole process (a share of the runs)']
STUB = ['random numbers: real generators, seeded by the plan', 'clock: simulated', 'system calls on the output file: short or interrupted as the plan says']
ASSUMPTIONS = ['floatX=float64', 'frequencies are compared with the probabilities of the model by chi-square tests at the level 1e-12, so that small '
               'deviations are not seen', 'networks without bidirectional layers (they cannot generate text) and without GLU layers']
RULE = ('Plans: model and a schedule of generations with one sampler (numbers of sentences, lengths and beginnings), some aborted at a random line, '
        'interleaved with scoring and restoring of parameters, or a series of sample commands with different seeds and disk faults, from VERIF_SEED. '
        'Reference: probabilities of all word sequences, scored alone in another process. Checked over the history: form of every sentence, '
        'frequencies of whole sequences after each beginning, independence of neighbouring sentences and of consecutive generations. '
        'Non-trivial: at least 1000 sentences were counted. Distinct: by the hash of the event log.')
RUN_TIMEOUT = 300
SIMTIME = 'one step is one generated sentence'
ARCHS = ['mlp', 'lstm', 'gru', 'class', 'multi', 'deep', 'drop']
ALPHA = 1e-12


def prepare():
    cmds.prepare()


def gen(rng, index, tier):
    m = cmds.gen_model(rng, archs=[ARCHS[index % len(ARCHS)]], nwords=rng.choice([2, 3, 4, 6]))
    m['noise'] = rng.choice([0.7, 1.5, 3.0])
    if rng.random() < 0.3:
        m['counts'][rng.randrange(len(m['words']))] = 0
    tokens = rng.choice([2, 3, 3]) if len(m['words']) < 6 else 2
    prefixes = [[rng.choice(m['words']) for _ in range(k)] for k in rng.choice([[0], [0], [0, 1], [2], [1, 3]])]
    plan = {'model': m, 'seed': rng.randrange(1 << 30), 'length': tokens + 1, 'prefixes': prefixes, 'ops': []}
    if index % 5 == 4:
        plan['command'] = True
        for _ in range(rng.choice([2, 3])):
            plan['ops'].append({'op': 'generate', 'n': rng.choice([400, 1000]), 'prefix': rng.randrange(len(prefixes)), 'seed': rng.randrange(1 << 30),
                                'fault': rng.choice([None, None, 'short', 'eintr'])})
        return plan
    total = 0
    while total < 3000:
        kind = rng.choice(['generate'] * 6 + ['abort', 'score', 'restore', 'other'])
        op = {'op': kind, 'n': rng.choice([1, 2, 16, 100, 700, 1500]), 'prefix': rng.randrange(len(prefixes)), 'seed': rng.randrange(1 << 30)}
        if kind == 'generate':
            total += max(100, op['n'])
            op['times'] = 100 if op['n'] < 16 else 1
        elif kind == 'abort':
            op['lines'] = rng.choice([5, 40, rng.randrange(1, 300)])
        plan['ops'].append(op)
    return plan


def valid_plan(plan):
    return bool(plan['ops']) and bool(plan['prefixes']) and all(op['prefix'] < len(plan['prefixes']) and op['n'] >= 1 for op in plan['ops'])


# ---------------------------------------------------------------- reference

def reference(path, plan):
    """Distribution of what follows each beginning: {words: probability},
    and of the first word."""
    network = Network.from_file(path)
    scorer = TextScorer(network, use_shortlist=False)
    voc = network.vocabulary
    words = [voc.id_to_word[i] for i in range(voc.num_shortlist_words())]
    out = []
    for prefix in plan['prefixes']:
        joint, first = {}, {}
        todo = [()]
        prob = {(): 1.0}
        for k in range(plan['length'] - 1):
            later = []
            # all continuations by one word, as one mini-batch of equal lengths
            seqs = [s + (w,) for s in todo for w in words]
            for i in range(0, len(seqs), 200):
                part = seqs[i:i + 200]
                ids = numpy.asarray([[voc.word_to_id[w] for w in ['<s>'] + list(prefix) + list(s)] for s in part], dtype='int64').T
                class_ids, probs = voc.get_class_memberships(ids)
                for s, lps in zip(part, scorer.score_batch(ids, class_ids, probs, numpy.ones(ids.shape, numpy.int8))):
                    prob[s] = prob[s[:-1]] * float(numpy.exp(lps[-1]))
            # Hierarchical softmax may lose some probability to outputs that are
            # no words.
            total = {}
            for s in seqs:
                total[s[:-1]] = total.get(s[:-1], 0.0) + prob[s] / prob[s[:-1]]
            for s in seqs:
                prob[s] /= total[s[:-1]]
                if k == 0:
                    first[s[0]] = prob[s]
                if s[-1] == '</s>' or k == plan['length'] - 2:
                    joint[s] = prob[s]
                elif prob[s] > 0:
                    later.append(s)
            todo = later
        out.append((joint, first))
    return out


def test(counts, probs, what):
    """Compares frequencies with probabilities."""
    n = sum(counts.values())
    if n < 200:
        return
    for k, c in counts.items():
        if probs.get(k, 0.0) == 0.0:
            raise Violation('impossible', '%s: %s was generated %d times, its probability is zero' % (what, k, c))
    cells = []
    rest_c, rest_p = n, 1.0
    for k in sorted(probs, key=lambda k: (-probs[k], k)):
        if probs[k] * n < 15:
            break
        cells.append((counts.get(k, 0), probs[k] * n, k))
        rest_c -= counts.get(k, 0)
        rest_p -= probs[k]
    if rest_p * n >= 15:
        cells.append((rest_c, rest_p * n, 'others'))
    elif cells:
        c, e, k = cells.pop()
        cells.append((c + rest_c, e + max(0.0, rest_p) * n, k))
    if len(cells) < 2:
        return
    stat = sum((c - e) ** 2 / e for c, e, _k in cells)
    p = float(chi2.sf(stat, len(cells) - 1))
    if p < ALPHA:
        c, e, k = max(cells, key=lambda x: abs(x[0] - x[1]) / x[1] ** 0.5)
        raise Violation('distribution', '%s: of %d, %s was generated %d times, expected %.1f (chi-square %.1f, %d cells)'
                        % (what, n, k, c, e, stat, len(cells)))


class History:
    """Counts over everything that was generated."""

    def __init__(self, plan, ref):
        self.plan = plan
        self.ref = ref
        self.joint = [{} for _ in ref]
        self.near = [{} for _ in ref]
        self.calls = [{} for _ in ref]
        self.last = [None] * len(ref)
        self.total = 0

    def add(self, k, sentences, where):
        """Sentences (lists of words, already cut) of one generation."""
        plan = self.plan
        head = ['<s>'] + plan['prefixes'][k]
        tails = []
        for s in sentences:
            if s[:len(head)] != head:
                raise Violation('form', '%s: `%s´ does not begin with `%s´' % (where, ' '.join(s), ' '.join(head)))
            tail = tuple(s[len(head):])
            if not (len(tail) == plan['length'] - 1 and '</s>' not in tail[:-1] or 0 < len(tail) < plan['length'] and '</s>' not in tail[:-1] and tail[-1] == '</s>'):
                raise Violation('form', '%s: `%s´ is not %d words long and does not end in </s>' % (where, ' '.join(s), len(head) - 1 + plan['length']))
            tails.append(tail)
        for t in tails:
            self.joint[k][t] = self.joint[k].get(t, 0) + 1
        for a, b in zip(tails[::2], tails[1::2]):
            key = (a[0], b[0])
            self.near[k][key] = self.near[k].get(key, 0) + 1
        if self.last[k] is not None:
            for a, b in zip(self.last[k], tails):
                key = (a[0], b[0])
                self.calls[k][key] = self.calls[k].get(key, 0) + 1
            self.last[k] = None         # each generation is in one pair only
        else:
            self.last[k] = tails
        self.total += len(tails)

    def check(self):
        for k, (joint, first) in enumerate(self.ref):
            after = ' after `%s´' % ' '.join(self.plan['prefixes'][k]) if self.plan['prefixes'][k] else ''
            pairs = {(a, b): first[a] * first[b] for a in first for b in first}
            test(self.joint[k], joint, 'sentences' + after)
            test(self.near[k], pairs, 'first words of neighbouring sentences' + after)
            test(self.calls[k], pairs, 'first words in consecutive generations' + after)


# ---------------------------------------------------------------- runs

def cut(sentence):
    return sentence[:sentence.index('</s>') + 1] if '</s>' in sentence else sentence


def run(plan, ctx):
    root = os.path.join(ctx.scratch, 'disk')
    os.mkdir(root)
    path = os.path.join(root, 'model.h5')
    cmds.write_model(plan['model'], path)
    ref = ss.isolated(lambda: reference(path, plan))
    history = History(plan, ref)
    ctx.event(plan['model']['arch'], [sorted(j.items())[:3] for j, _f in ref])
    if plan.get('command'):
        run_commands(plan, ctx, root, path, history)
    else:
        run_library(plan, ctx, path, history)
    history.check()
    ctx.event(history.total, [sorted(x.items())[:20] for x in history.joint])
    ctx.steps += history.total
    ctx.probe('arch:' + plan['model']['arch'])
    ctx.nontrivial = history.total >= 1000


def run_library(plan, ctx, path, history):
    numpy.random.seed(plan['seed'] % (1 << 31))
    net = Network.from_file(path, mode=Network.Mode(minibatch=False))
    sampler = TextSampler(net)
    scorer = None
    for i, op in enumerate(plan['ops']):
        prefix = ' '.join(plan['prefixes'][op['prefix']])
        ctx.probe('op:' + op['op'])
        where = 'generation %d' % i
        if op['op'] == 'generate':
            for _ in range(op['times']):
                got = sampler.generate(plan['length'], op['n'], seed_sequence=prefix)
                if len(got) != op['n']:
                    raise Violation('number', '%s: %d sentences instead of %d' % (where, len(got), op['n']))
                want = plan['length'] + len(plan['prefixes'][op['prefix']])
                for s in got:
                    if len(s) != want:
                        raise Violation('form', '%s: `%s´ is not %d words long' % (where, ' '.join(s), want))
                history.add(op['prefix'], [cut(s) for s in got], where)
        elif op['op'] == 'other':
            got = sampler.generate(6, 3, seed_sequence=prefix)
            ctx.event('other', got)
        elif op['op'] == 'abort':
            bomb = LineBomb(op['lines'], RuntimeError('simulated'))
            bomb.arm()
            try:
                sampler.generate(plan['length'], min(op['n'], 20), seed_sequence=prefix)
            except RuntimeError as e:
                if 'simulated' not in str(e):
                    raise
                ctx.fault('aborted-generation')
            finally:
                bomb.disarm()
        elif op['op'] == 'restore':
            with ss.h5py.File(path, 'r') as f:
                net.set_state(f)
        else:
            if scorer is None:
                scorer = TextScorer(Network.from_file(path))
            scorer.score_line(' '.join(plan['model']['words'][:2]), net.vocabulary)


def run_commands(plan, ctx, root, path, history):
    for i, op in enumerate(plan['ops']):
        out = os.path.join(root, 'out%d.txt' % i)
        argv = ['sample', path, '--output-file', out, '--num-sentences', str(op['n']), '--sentence-length', str(plan['length']),
                '--random-seed', str(op['seed'])]
        prefix = plan['prefixes'][op['prefix']]
        if prefix:
            argv += ['--seed-sequence', ' '.join(prefix)]
        kw = {}
        if op['fault'] == 'short':
            kw['split'] = (0, 100)
            ctx.fault('short-writes')
        elif op['fault'] == 'eintr':
            kw['rules'] = [(disk.C_WRITE, 0, disk.K_EINTR)]
            ctx.fault('eintr-write')
        where = 'command %d' % i
        r = cmds.run('theanolm', argv, root, **kw)
        if r.status:
            raise Violation('fails', '%s exits with status %d' % (where, r.status))
        lines = cmds.get_text(out).decode('utf-8').split('\n')
        if lines[-1] != '' or len(lines) != op['n'] + 1:
            raise Violation('number', '%s: %d sentences instead of %d' % (where, len(lines) - 1, op['n']))
        ctx.probe('command')
        history.add(op['prefix'], [x.split(' ') for x in lines[:-1]], where)
