"""Interleaved hypotheses keep their own recurrent state."""
import os
import random

from sim import cmds
from sim import disk                                    # noqa: F401
from sim import scoresim as ss
from sim.core import Violation, REPO
from sim.scoresim import numpy, close, same
from sim.trainersim import LineBomb

RUNS = {'quick': 330, 'thorough': 30000}
FROZEN = ('model', 'opts', 'links', 'n', 'times', 'utt', 'nodes')
REAL = ['LatticeDecoder, SLFLattice and KaldiLattice, RecurrentState, Network in single step mode, TextSampler, TextScorer: real code',
        'theanolm decode and theanolm score as whole processes (a share of the runs)']
STUB = ['lattice files: memory files', 'clock: simulated']
ASSUMPTIONS = ['floatX=float64; equal means equal up to a relative difference of 1e-8',
               'networks without bidirectional layers (they cannot extend hypotheses word by word) and without GLU layers (not supported by the pure Python linker)']
RULE = ('Plans: model, decoding options and a schedule of decodings and samplings with shared objects from VERIF_SEED; the shape and the node '
        'times of a random lattice decide how the hypotheses are grouped and interleaved; faults abort a decoding at a random line. Reference: '
        'each hypothesis scored alone by TextScorer in a forked process. Non-trivial: at least one step extended several hypotheses, and two '
        'operations were performed. Distinct: by the hash of the event log.')
RUN_TIMEOUT = 200
SIMTIME = 'one step is one word appended to one hypothesis'
ARCHS = ['mlp', 'lstm', 'gru', 'class', 'multi', 'deep', 'drop']
MAX_PATHS = 4000


def prepare():
    cmds.prepare()


def gen_times(rng, lat):
    """Times that agree with the links, with ties."""
    t = [0.0] * lat['n']
    for a, b, *_x in sorted(lat['links'], key=lambda x: x[0]):
        t[b] = max(t[b], round(t[a] + rng.choice([0.0, 0.1, 0.1, 0.3]), 2))
    return t


def gen_lat(rng, m, n=None, unk=False):
    lat = cmds.gen_lattice(rng, m, n=n or rng.choice([3, 5, 7, 9, 12]), times=False, null=rng.choice([0.0, 0.15, 0.4]))
    if unk and rng.random() < 0.4:
        for link in lat['links']:
            if link[2] is not None and rng.random() < 0.2 and not any(x[0] == link[0] and x[2] == '<unk>' for x in lat['links']):
                link[2] = '<unk>'
    if rng.random() < 0.6:
        lat['times'] = gen_times(rng, lat)
    nodes = list(range(lat['n']))
    if rng.random() < 0.4:
        rng.shuffle(nodes)
    lat['nodes'] = nodes
    if rng.random() < 0.5:
        rng.shuffle(lat['links'])
    return lat


def slf(lat):
    """SLF with the node numbers permuted."""
    perm = lat['nodes']
    p = dict(lat, links=[[perm[a], perm[b], w, ac, lm] for a, b, w, ac, lm in lat['links']])
    if lat['times']:
        p['times'] = [None] * lat['n']
        for i, x in enumerate(lat['times']):
            p['times'][perm[i]] = x
    return cmds.slf(p)


def gen(rng, index, tier):
    m = ss.gen_world(rng, ARCHS)
    if index < 30:
        m['arch'] = ARCHS[index % len(ARCHS)]
    if index % 17 == 16:
        return gen_command(rng, m)
    opts = {'nnlm_weight': rng.choice([1.0, 0.5, 0.9]), 'lm_scale': rng.choice([None, 1.0, 7.5]), 'wi_penalty': rng.choice([None, 0.0, -2.0]),
            'unk_penalty': rng.choice([None, None, -3.0]), 'use_shortlist': rng.random() < 0.5, 'linear_interpolation': rng.random() < 0.2,
            'max_tokens_per_node': rng.choice([None, None, 1, 2, 5]), 'beam': rng.choice([None, None, 1.0, 20.0]),
            'recombination_order': rng.choice([None, None, 1, 2, 4])}
    plan = {'model': m, 'opts': opts, 'ops': []}
    if rng.random() < 0.25:
        m['noise'] = 25.0           # almost deterministic predictions
    for _ in range(rng.choice([2, 3, 5])):
        kind = rng.choice(['decode', 'decode', 'decode', 'abort', 'sample', 'again', 'score'])
        op = {'op': kind, 'seed': rng.randrange(1 << 30), 'fmt': rng.choice(['slf', 'slf', 'kaldi'])}
        if kind in ('decode', 'abort'):
            op['lat'] = gen_lat(rng, m, unk=not opts['use_shortlist'])
            op['lines'] = rng.choice([30, 200, 700, rng.randrange(1, 2500)])
        elif kind == 'sample':
            op['n'] = rng.choice([1, 2, 4])
            op['length'] = rng.choice([3, 8])
            op['prefix'] = [rng.choice(m['words']) for _ in range(rng.choice([0, 0, 1, 3]))]
        plan['ops'].append(op)
    return plan


def gen_command(rng, m):
    lats = []
    for i in range(rng.choice([1, 2, 4])):
        lat = cmds.gen_lattice(rng, m, n=rng.choice([4, 6, 8]), oov=False)
        lat['utt'] = 'u%d' % i
        lats.append(lat)
    return {'command': True, 'model': m, 'lats': lats, 'opts': {'shortlist': rng.random() < 0.5, 'nbest': rng.choice([1, 3, 50]),
            'tokens': rng.choice([None, 2, 10]), 'recombination': rng.choice([None, 1, 3])}}


def valid_plan(plan):
    lats = plan['lats'] if 'command' in plan else [op['lat'] for op in plan['ops'] if 'lat' in op]
    for lat in lats:
        if lat['n'] < 2 or not lat['links']:
            return False
    return bool(plan.get('ops') or plan.get('lats'))


def shrink(plan):
    if 'ops' in plan:
        for i in range(len(plan['ops'])):
            p = dict(plan)
            p['ops'] = plan['ops'][:i] + plan['ops'][i + 1:]
            if p['ops']:
                yield p
        for key, v in (('beam', None), ('max_tokens_per_node', None), ('recombination_order', None), ('unk_penalty', None),
                       ('lm_scale', None), ('wi_penalty', None), ('linear_interpolation', False), ('nnlm_weight', 1.0), ('use_shortlist', False)):
            if plan['opts'][key] != v:
                yield dict(plan, opts=dict(plan['opts'], **{key: v}))


# ---------------------------------------------------------------- reference

def paths(lat):
    """All paths: words -> list of (acoustic, lattice LM) sums; None if too many."""
    out = {}
    for a, b, w, ac, lm in lat['links']:
        out.setdefault(a, []).append((b, w, ac, lm))
    count = [0] * lat['n']
    count[lat['n'] - 1] = 1
    for i in range(lat['n'] - 2, -1, -1):
        count[i] = sum(count[b] for b, *_x in out.get(i, ()))
    if count[0] > MAX_PATHS:
        return None
    res = {}

    def visit(node, words, ac, lm):
        if node == lat['n'] - 1:
            res.setdefault(words, []).append((ac, lm))
            return
        for b, w, a, l in out.get(node, ()):
            visit(b, words + (w,) if w is not None else words, ac + a, lm + l)
    visit(0, (), 0.0, 0.0)
    return res


class Reference:
    """Scores of word sequences on their own."""

    def __init__(self, path, opts):
        from theanolm.network import Network
        self.opts = opts
        self.network = Network.from_file(path)
        self.voc = self.network.vocabulary
        self.plain = ss.TextScorer(self.network, use_shortlist=False, exclude_unk=False)
        self.short = ss.TextScorer(self.network, use_shortlist=True, exclude_unk=False)
        self.cache = {}

    def scores(self, words):
        """Plain scores and scores with the shortlist of the words after <s>."""
        words = tuple(words)
        if words not in self.cache:
            self.cache[words] = (ss.score_words(self.plain, self.voc, words), ss.score_words(self.short, self.voc, words))
        return self.cache[words]

    def logprob(self, words):
        plain, short = self.scores(words)
        total = 0.0
        shortlist = self.opts['use_shortlist'] and self.voc.has_unigram_probs()
        pen = self.opts['unk_penalty']
        for k, w in enumerate(words[1:]):
            known = w in self.voc
            inside = known and self.voc.in_shortlist(self.voc.word_to_id[w])
            if shortlist and known:
                x = short[k]
            elif not inside and pen is not None and w != '</s>':
                x = pen
            else:
                x = plain[k]
            total += x
        return total


# ---------------------------------------------------------------- objects

class Run:
    def __init__(self, plan, ctx):
        from theanolm.network import Network
        self.plan, self.ctx = plan, ctx
        self.path = os.path.join(ctx.scratch, 'model.h5')
        cmds.write_model(plan['model'], self.path)
        self.ref = Reference(self.path, plan['opts'])
        self.net = Network.from_file(self.path, mode=Network.Mode(minibatch=False))
        self.voc = self.net.vocabulary
        self.decoder = ss_decoder(self.net, plan['opts'])
        self.sampler = None
        self.calls = []
        self.last = None
        self.grouped = False
        self.done = 0

    def lattice(self, op):
        from theanolm.scoring.slflattice import SLFLattice
        from theanolm.scoring.kaldilattice import KaldiLattice
        lat = op['lat']
        if op['fmt'] == 'kaldi':
            ids = cmds.kaldi_words(self.plan['model'])
            names = sorted(ids, key=ids.get)
            return KaldiLattice(cmds.kaldi(lat, ids).rstrip('\n').split('\n'), names)
        return SLFLattice(ss.Source(slf(lat)))

    def check_token(self, token, where, full, lat_paths):
        words = token.history_words(self.voc)
        if words[0] != '<s>' or (full and words[-1] != '</s>'):
            raise Violation('history', '%s: a hypothesis has the words %s' % (where, words))
        want = self.ref.logprob(words)
        self.ctx.steps += len(words) - 1
        if not close(want, token.nn_lm_logprob):
            raise Violation('hypothesis-score', '%s: the hypothesis `%s´ got the language model score %s; scored alone it is %s (model %s)' %
                            (where, ' '.join(words), token.nn_lm_logprob, want, self.plan['model']['arch']))
        if full and lat_paths is not None:
            sums = lat_paths.get(tuple(words[1:-1]))
            if not sums or not any(close_lattice(ac, token.ac_logprob) and close_lattice(lm, token.lat_lm_logprob) for ac, lm in sums):
                raise Violation('path-score', '%s: the hypothesis `%s´ has the acoustic and lattice scores %s, %s; paths of the lattice with these words: %s' %
                                (where, ' '.join(words), token.ac_logprob, token.lat_lm_logprob, sums))
        return words, want

    def decode(self, op, where):
        ctx = self.ctx
        final, recomb = self.decoder.decode(self.lattice(op))
        self.last = op
        lp = paths(op['lat'])
        best = None
        seen = set()
        for t in final:
            words, _ = self.check_token(t, where, True, lp)
            seen.add(tuple(words[1:-1]))
        for t, history, logprob in recomb:
            self.check_token(t, where + ', recombined', False, None)
            kept = [self.voc.id_to_word[w] if isinstance(w, int) else w for w in history]
            want = self.ref.logprob(kept)
            if not close(want, logprob):
                raise Violation('hypothesis-score', '%s: the kept hypothesis `%s´ got the language model score %s; scored alone it is %s' %
                                (where, ' '.join(kept), logprob, want))
        o = self.plan['opts']
        if o['beam'] is None and o['max_tokens_per_node'] is None and o['recombination_order'] is None and lp is not None:
            if seen != set(lp):
                raise Violation('hypothesis-lost', '%s: nothing may be pruned, but the paths %s are missing' % (where, sorted(set(lp) - seen)[:3]))
            ctx.probe('all-paths')
        if len(final) > 1:
            self.grouped = True
        ctx.event('decoded', len(final), len(recomb), [round(float(t.nn_lm_logprob), 8) for t in final[:5]])
        ctx.probe('final-tokens', len(final))
        ctx.probe('recombined', len(recomb))

    def step(self, k, op):
        where = 'operation %d (%s)' % (k, op['op'])
        kind = op['op']
        if kind == 'decode':
            self.decode(op, where)
        elif kind == 'again':
            if self.last is not None:
                self.decode(self.last, where)
        elif kind == 'abort':
            lat = self.lattice(op)
            bomb = LineBomb(op['lines'], KeyboardInterrupt())
            try:
                bomb.arm()
                try:
                    self.decoder.decode(lat)
                finally:
                    bomb.disarm()
            except KeyboardInterrupt:
                self.ctx.fault('aborted-decoding')
                self.ctx.event('aborted')
            self.last = op
        elif kind == 'score':
            self.ref.cache.clear()
        elif kind == 'sample':
            self.sample(op, where)
        self.done += 1

    # -- sampling

    def make_sampler(self):
        """A sampler whose compiled function is recorded."""
        import theano
        from theanolm.network import Network
        from theanolm import TextSampler
        net = Network.from_file(self.path, mode=Network.Mode(minibatch=False))
        real = theano.function
        self.real_step = None

        def function(*a, **kw):
            f = real(*a, **kw)
            self.real_step = f

            def call(*args):
                res = f(*args)
                self.calls.append((args, res))
                return res
            return call
        theano.function = function
        try:
            self.sampler = TextSampler(net)
        finally:
            theano.function = real

    def sample(self, op, where):
        if self.sampler is None:
            self.make_sampler()
        del self.calls[:]
        texts = self.sampler.generate(op['length'], op['n'], ' '.join(op['prefix']))
        if len(texts) != op['n']:
            raise Violation('sample-lost', '%s: %d sequences instead of %d' % (where, len(texts), op['n']))
        self.ctx.event('sampled', texts)
        for j, words in enumerate(texts):
            self.ctx.steps += len(words)
            # every sampled word was possible after the words before it
            plain, _ = self.ref.scores(words)
            for k, x in enumerate(plain):
                if k < len(op['prefix']):
                    if words[k + 1] != op['prefix'][k]:
                        raise Violation('sample-prefix', '%s: sequence %d starts with %s' % (where, j, words))
                    continue
                w = words[k + 1]
                prob = self.membership(w)
                if prob > 0 and x - numpy.log(prob) < -25:
                    raise Violation('sample-impossible', '%s: sequence %d: `%s´ after `%s´, although its class has the log probability %s there' %
                                    (where, j, w, ' '.join(words[:k + 1]), x - numpy.log(prob)))
        self.check_states(texts, where)
        if op['n'] > 1:
            self.grouped = True

    def membership(self, w):
        _, p = self.voc.get_class_memberships(numpy.asarray([[self.voc.word_to_id[w]]]))
        return float(p[0, 0])

    def check_states(self, texts, where):
        """The states passed on for one sequence are those of that sequence."""
        calls = [c for c in self.calls if len(c[0]) > 2 and len(c[0]) == len(c[1]) + 1]
        if not calls:
            return
        for j in range(len(texts)):
            state = [numpy.zeros_like(s[:, :1]) for s in calls[0][0][2:]]
            for k, (args, res) in enumerate(calls):
                if args[0].shape != (1, len(texts)) or any(s.shape[1] != len(texts) for s in args[2:]):
                    return
                for s, got in zip(state, args[2:]):
                    if not numpy.allclose(s, got[:, j:j + 1], rtol=1e-8, atol=1e-10):
                        raise Violation('sample-state', '%s: step %d of sequence %d starts with the state of something else than `%s´' %
                                        (where, k, j, ' '.join(texts[j][:k])))
                w = self.voc.id_to_word[args[0][0, j]]
                if k < len(texts[j]) and w != texts[j][k]:
                    raise Violation('sample-word', '%s: step %d of sequence %d continues from `%s´, but the text has `%s´' % (where, k, j, w, texts[j][k]))
                alone = self.real_step(args[0][:, j:j + 1], args[1][:, j:j + 1], *state)
                state = alone[1:]
        self.ctx.probe('sampler-states', len(calls))


def close_lattice(a, b):
    return a == b or abs(float(a) - float(b)) <= 1e-6 * max(1.0, min(abs(a), abs(b)))


def ss_decoder(net, opts):
    from theanolm.scoring import LatticeDecoder
    return LatticeDecoder(net, dict(opts, unk_from_lattice=False))


def run(plan, ctx):
    if 'command' in plan:
        return run_command(plan, ctx)
    sim = Run(plan, ctx)
    ctx.event(plan['model']['arch'], sorted(plan['opts'].items(), key=str))
    for k, op in enumerate(plan['ops']):
        ctx.probe('op:' + op['op'])
        sim.step(k, op)
    ctx.probe('arch:' + plan['model']['arch'])
    ctx.nontrivial = sim.grouped and sim.done > 1


def run_command(plan, ctx):
    root = os.path.join(ctx.scratch, 'disk')
    os.mkdir(root)
    model = os.path.join(root, 'model.h5')
    cmds.write_model(plan['model'], model)
    o = plan['opts']
    names = []
    for i, lat in enumerate(plan['lats']):
        lat = dict(lat, lmscale=None, wip=None)
        names.append(os.path.join(root, 'l%d.slf' % i))
        cmds.put(names[-1], cmds.slf(lat))
    out = os.path.join(root, 'best.txt')
    log = os.path.join(ctx.scratch, 'log')
    argv = ['decode', model, '--output', 'full', '--n-best', str(o['nbest']), '--output-file', out, '--log-file', log]
    if o['shortlist']:
        argv.append('--shortlist')
    if o['tokens']:
        argv += ['--max-tokens-per-node', str(o['tokens'])]
    if o['recombination']:
        argv += ['--recombination-order', str(o['recombination'])]
    r = cmds.run('theanolm', argv + ['--lattices'] + names, root, log=False)
    if r.status:
        raise Violation('decode-failed', 'decoding ended with status %s' % r.status)
    rows = [x.split(' ') for x in cmds.get(out).decode().split('\n') if x]
    text = os.path.join(root, 'text.txt')
    cmds.put(text, ''.join(' '.join(x[5:]) + '\n' for x in rows))
    scores = os.path.join(root, 'scores.txt')
    argv = ['score', model, text, '--output', 'utterance-scores', '--output-file', scores, '--log-file', log]
    if o['shortlist']:
        argv.append('--shortlist')
    r = cmds.run('theanolm', argv, root, log=False)
    if r.status:
        raise Violation('score-failed', 'scoring the decoded text ended with status %s' % r.status)
    got = [float(x.split()[0]) for x in cmds.get(scores).decode().split('\n') if x.strip()]
    ctx.event('command', len(rows), [round(x, 8) for x in got[:10]])
    if len(got) != len(rows):
        raise Violation('score-lost', '%d decoded paths, %d scores' % (len(rows), len(got)))
    for x, y in zip(rows, got):
        ctx.steps += len(x) - 5
        z = float(x[2])
        if z == -numpy.inf:
            continue                # words that are not in the training data are not counted by score
        if not abs(z - y) <= 1e-6 * max(1.0, abs(z)):
            raise Violation('command-score', 'decode reports the language model score %s for `%s´, score %s' % (z, ' '.join(x[5:]), y))
    ctx.probe('command')
    ctx.nontrivial = len(rows) > 1
