"""Decoding returns the best paths of the lattice."""
import io
import os

from sim import cmds
from sim import disk
from sim import scoresim as ss
from sim.checks import c16
from sim.core import Violation
from sim.scoresim import numpy, close
from sim.trainersim import LineBomb

RUNS = {'quick': 420, 'thorough': 40000}
FROZEN = ('model', 'opts', 'links', 'n', 'times', 'utt', 'nodes', 'lat', 'finals', 'where')
REAL = ['LatticeDecoder, SLFLattice and KaldiLattice, RescoredLattice and its writers, Network in single step mode, TextScorer: real code',
        'theanolm decode as a whole process (a share of the runs)']
STUB = ['lattice files: memory files (real files for the whole commands, with short and interrupted reads)', 'clock: simulated']
ASSUMPTIONS = ['floatX=float64; equal means equal up to a relative difference of 1e-8',
               'lattices of at most %d paths, networks without bidirectional and GLU layers' % c16.MAX_PATHS,
               'with linear interpolation, and with recombination of unequal histories, only the scores and the order of the returned paths are decided']
RULE = ('Plans: model, decoding options and a history of decodings with one decoder from VERIF_SEED. The topology, the numbering of the nodes, the order of '
        'the links in the file and the node times decide in which order the hypotheses are extended, recombined and pruned; faults abort decodings and split '
        'reads. Reference: all paths of the lattice, enumerated, each scored alone. Non-trivial: a lattice with at least two different word sequences was '
        'decoded completely. Distinct: by the hash of the event log.')
RUN_TIMEOUT = 200
SIMTIME = 'one step is one path of a lattice'
ARCHS = c16.ARCHS


def prepare():
    cmds.prepare()


def gen(rng, index, tier):
    m = ss.gen_world(rng, ARCHS)
    if index < 30:
        m['arch'] = ARCHS[index % len(ARCHS)]
    if rng.random() < 0.2:
        m['noise'] = 3.0
    opts = {'nnlm_weight': rng.choice([1.0, 0.5, 0.9, 0.0]), 'lm_scale': rng.choice([None, None, 1.0, 7.5]), 'wi_penalty': rng.choice([None, 0.0, -2.0, 4.0]),
            'unk_penalty': rng.choice([None, None, -3.0]), 'use_shortlist': rng.random() < 0.4, 'linear_interpolation': rng.random() < 0.25,
            'max_tokens_per_node': rng.choice([None, None, None, 100000, 1, 2, 5]), 'beam': rng.choice([None, None, None, 1e9, 1.0, 20.0]),
            'recombination_order': rng.choice([None, None, None, 50, 1, 2]), 'unk_from_lattice': rng.random() < 0.2}
    plan = {'model': m, 'opts': opts}
    if index % 16 == 15:
        lats = []
        for i in range(rng.choice([1, 2, 4])):
            lat = gen_lat(rng, m, opts)
            lat['utt'] = 'u%d' % i
            lats.append(lat)
        plan['command'] = {'lats': lats, 'nbest': rng.choice([1, 2, 5, 1000]), 'fmt': rng.choice(['slf', 'kaldi']), 'logbase': rng.choice([None, None, 10, 2]),
                           'short': rng.choice([None, 1, 7, 100]), 'gz': rng.random() < 0.2}
        return plan
    plan['ops'] = []
    for _ in range(rng.choice([2, 3, 5, 8])):
        kind = rng.choice(['decode', 'decode', 'decode', 'abort', 'again', 'permuted'])
        op = {'op': kind, 'seed': rng.randrange(1 << 30), 'fmt': rng.choice(['slf', 'slf', 'kaldi'])}
        if kind in ('decode', 'abort'):
            op['lat'] = gen_lat(rng, m, opts)
            op['lines'] = rng.choice([30, 200, 700, rng.randrange(1, 2500)])
            op['rescore'] = rng.choice([None, 'slf', 'kaldi'])
        plan['ops'].append(op)
    return plan


def gen_lat(rng, m, opts):
    lat = c16.gen_lat(rng, m, unk=not opts['use_shortlist'])
    if rng.random() < 0.3:
        # the same words on many paths
        few = rng.sample(m['words'], min(2, len(m['words'])))
        for link in lat['links']:
            if link[2] is not None and rng.random() < 0.7:
                link[2] = rng.choice(few)
    if rng.random() < 0.2:
        for link in lat['links']:
            link[3] = round(link[3] / 30, 3)
    if rng.random() < 0.1:
        for link in lat['links']:
            link[3] = -1.0
            link[4] = -1.0
    if rng.random() < 0.15:
        for link in lat['links']:
            link[4] = round(link[4] * 200, 3)
    if rng.random() < 0.5:
        # final states of Kaldi lattices
        nodes = [lat['n'] - 1] + [i for i in range(1, lat['n'] - 1) if rng.random() < 0.2]
        lat['finals'] = [[i, round(-rng.random() * 5, 3), round(-rng.random() * 5, 3)] for i in nodes]
        lat['where'] = rng.randrange(100)
    if rng.random() < 0.1:
        lat['times'] = [rng.choice([0.0, 0.5, 1.0, 2.0]) for _ in range(lat['n'])]
    lat['shift'] = rng.choice([None, None, 0.5, 3.0])
    return lat


def valid_plan(plan):
    lats = plan['command']['lats'] if 'command' in plan else [op['lat'] for op in plan['ops'] if 'lat' in op]
    for lat in lats:
        if lat['n'] < 2 or not lat['links']:
            return False
    return bool(lats) and bool(plan.get('ops') or plan['command']['lats'])


shrink = c16.shrink


# ---------------------------------------------------------------- reference

def normalized(lat, fmt):
    """Number of nodes and links, the last node being the only final one."""
    if fmt == 'kaldi' and lat.get('finals'):
        n = lat['n']
        return n + 1, lat['links'] + [[node, n, None, ac, lm] for node, ac, lm in lat['finals']]
    return lat['n'], lat['links']


def enumerate_paths(n, links):
    """All paths as lists of links; None if there are too many."""
    out = {}
    for link in links:
        out.setdefault(link[0], []).append(link)
    last = n - 1
    count = [0] * n
    count[last] = 1
    for i in range(last - 1, -1, -1):
        count[i] = sum(count[x[1]] for x in out.get(i, ()))
    if not 0 < count[0] <= c16.MAX_PATHS:
        return None
    res = []

    def visit(node, path):
        if node == last:
            res.append(list(path))
            return
        for link in out.get(node, ()):
            path.append(link)
            visit(link[1], path)
            path.pop()
    visit(0, [])
    return res


class Reference:
    def __init__(self, path, opts):
        self.ref = c16.Reference(path, opts)
        self.voc = self.ref.voc
        self.opts = opts
        self.shortlist = opts['use_shortlist'] and self.voc.has_unigram_probs()
        self.prefix = {}

    def word_scores(self, seq):
        """Scores of the words after <s>, each given the words before it."""
        if len(seq) > 1 and seq not in self.prefix:
            plain, short = self.ref.scores(seq)
            for k in range(len(seq) - 1):
                self.prefix.setdefault(seq[:k + 2], (plain[k], short[k]))
        return [self.prefix[seq[:k + 2]] for k in range(len(seq) - 1)]

    def scores(self, links, end=True):
        """Words and scores of a path or the beginning of one."""
        o = self.opts
        words = tuple(x[2] for x in links if x[2] is not None)
        seq = ('<s>',) + words + (('</s>',) if end else ())
        nn = 0.0
        lms = [x[4] for x in links if x[2] is not None]
        for k, (plain, short) in enumerate(self.word_scores(seq)):
            w = seq[k + 1]
            known = w in self.voc
            inside = known and self.voc.in_shortlist(self.voc.word_to_id[w])
            last = k == len(words)
            if self.shortlist and known:
                x = short
            elif not inside and not last and o['unk_from_lattice']:
                x = lms[k]
            elif not inside and not last and o['unk_penalty'] is not None:
                x = o['unk_penalty']
            else:
                x = plain
            nn += x
        ac = sum(x[3] for x in links)
        lat = sum(x[4] for x in links)
        w = o['nnlm_weight']
        if o['linear_interpolation']:
            a = nn + numpy.log(w) if w > 0 else -numpy.inf
            b = lat + numpy.log(1 - w) if w < 1 else -numpy.inf
            lm = float(numpy.logaddexp(a, b))
        else:
            lm = (w * nn if w else 0.0) + ((1 - w) * lat if w != 1 else 0.0)
        graph = lm * self.lm_scale + self.wi * (len(seq) - 1)
        return seq, {'ac': ac, 'lat': lat, 'nn': nn, 'graph': graph, 'total': ac + graph}

    def lattice(self, lat, fmt):
        o = self.opts
        slf = fmt == 'slf'
        self.lm_scale = o['lm_scale'] if o['lm_scale'] is not None else (lat['lmscale'] if slf and lat['lmscale'] is not None else 1.0)
        self.wi = o['wi_penalty'] if o['wi_penalty'] is not None else (lat['wip'] if slf and lat['wip'] is not None else 0.0)
        n, links = normalized(lat, fmt)
        paths = enumerate_paths(n, links)
        if paths is None:
            return None
        res = {}
        for x in paths:
            seq, scores = self.scores(x)
            scores['links'] = x
            res.setdefault(seq[1:-1], []).append(scores)
        return res

    def kept(self, lat, fmt):
        """The totals of the paths that survive recombination and the limit on
        hypotheses at a node; None if ties leave a choice."""
        n, links = normalized(lat, fmt)
        limit, order = self.opts['max_tokens_per_node'], self.opts['recombination_order']
        out = {}
        for link in links:
            out.setdefault(link[0], []).append(link)
        tie = False

        def best(hyps, limit):
            nonlocal tie
            hyps = sorted(hyps, key=lambda h: -h[1]['total'])
            seen, res = {}, []
            for h in hyps:
                key = h[0] if order is None else h[0][-order:]
                if key in seen:
                    # of equal histories it does not matter which one is kept
                    if close(seen[key][1]['total'], h[1]['total']) and seen[key][0] != h[0]:
                        tie = True
                    continue
                seen[key] = h
                res.append(h)
            if limit is not None and len(res) > limit:
                if close(res[limit - 1][1]['total'], res[limit][1]['total']):
                    tie = True
                res = res[:limit]
            return res
        hyps = [[] for _ in range(n)]
        hyps[0] = [(('<s>',), {'total': 0.0}, [])]
        for node in range(n - 1):
            for seq, sc, path in best(hyps[node], limit):
                for link in out.get(node, ()):
                    p = path + [link]
                    q, c = self.scores(p, end=False)
                    hyps[link[1]].append((q, c, p))
        final = best([self.scores(p) + (p,) for _, _, p in best(hyps[n - 1], limit)], None)
        return None if tie else {q[1:-1]: c['total'] for q, c, _ in final}


def unpruned(o):
    return o['beam'] in (None, 1e9) and o['max_tokens_per_node'] in (None, 100000) and o['recombination_order'] in (None, 50)


def shifted(lat):
    """The lattice as it is written, possibly with the times shifted."""
    if not lat['times'] or not lat.get('shift'):
        return lat
    return dict(lat, times=[round(t * lat['shift'] + 1, 3) for t in lat['times']])


def judge(o, ref, got, where, ctx, model, kept, nbest=None):
    """got: (words, scores) of the returned paths in order."""
    ctx.steps += sum(len(x) for x in ref.values())
    for words, sc in got:
        cands = ref.get(words)
        if not cands:
            raise Violation('no-such-path', '%s: `%s´ is not a path of the lattice' % (where, ' '.join(words)))
        if not any(all(close(c[k], v) for k, v in sc.items()) for c in cands):
            raise Violation('path-score', '%s: `%s´ got the scores %s; the paths with these words have %s' % (where, ' '.join(words), sc, cands[:3]))
    totals = [sc['total'] for _, sc in got]
    for a, b in zip(totals, totals[1:]):
        if b > a and not close(a, b):
            raise Violation('not-sorted', '%s: a path with the total %s comes before one with %s' % (where, a, b))
    if not got:
        raise Violation('no-path', '%s: no path was returned' % where)
    if not unpruned(o):
        if o['max_tokens_per_node'] is not None and len(got) > o['max_tokens_per_node']:
            raise Violation('too-many', '%s: %d paths with at most %d hypotheses at a node' % (where, len(got), o['max_tokens_per_node']))
        if o['beam'] in (None, 1e9):
            if kept is not None:
                ctx.probe('pruned-exactly')
                want = sorted((t for t in kept.values() if o['beam'] is None or t > -numpy.inf), reverse=True)[:nbest]
                if want and not ss.same(want, totals[:len(want)]) or o['beam'] is None and len(want) != len(got):
                    raise Violation('pruning', '%s: the totals of the returned paths are %s; those of the best hypotheses at every node %s' %
                                    (where, totals[:5], want[:5]))
        else:
            judge_beam(o, ref, got, where, ctx, model, nbest)
        return
    if len({w for w, _ in got}) != len(got):
        raise Violation('twice', '%s: the same words are returned twice' % where)
    if o['linear_interpolation']:
        return
    for words, sc in got:
        best = max(c['total'] for c in ref[words])
        if not close(best, sc['total']):
            raise Violation('not-best', '%s: `%s´ has the total %s, although a path with these words has %s' % (where, ' '.join(words), sc['total'], best))
    best = max((c['total'] for x in ref.values() for c in x), default=None)
    if not close(best, totals[0]):
        raise Violation('not-best', '%s: the first path has the total %s, although the best one has %s' % (where, totals[0], best))


def judge_beam(o, ref, got, where, ctx, model, nbest):
    """Pruning with a beam removes only hypotheses that are worse by the beam."""
    if o['linear_interpolation']:
        return
    begin = {}
    for paths in ref.values():
        for c in paths:
            c['begins'] = []
            for k in range(len(c['links']) + 1):
                part = c['links'][:k]
                key = tuple(id(x) for x in part)
                if key not in begin:
                    begin[key] = model.scores(part, end=False)[1]['total'] if part else 0.0
                c['begins'].append(begin[key])
    top = max(begin.values())
    have = {w for w, _ in got}
    if o['max_tokens_per_node'] in (None, 100000) and o['recombination_order'] in (None, 50) and (nbest is None or len(got) < nbest):
        for words, paths in ref.items():
            if words not in have and any(min(c['begins']) > top - o['beam'] + 1e-6 for c in paths):
                raise Violation('beam', '%s: `%s´ is missing, although it never was %s worse than the best hypothesis' % (where, ' '.join(words), o['beam']))
    # at the final node nothing worse than the best one by the beam remains
    ends = []
    for words, sc in got:
        ends.append(max((c['begins'][-1] for c in ref[words] if close(c['total'], sc['total'])), default=None))
    if len(got) > 1 and None not in ends and min(ends) <= max(ends) - o['beam'] - 1e-6:
        raise Violation('beam', '%s: hypotheses with the totals %s and %s at the final node are both kept' % (where, max(ends), min(ends)))
    ctx.probe('beam')


def kaldi(lat, ids):
    text = cmds.kaldi(lat, ids)
    if lat.get('finals'):
        lines = text.rstrip('\n').split('\n')[:-1]
        for node, ac, lm in lat['finals']:
            # the line of a final state may come anywhere after the first one
            lines.insert(lat['where'] * (len(lines) - 2) // 100 + 2, '%d %s,%s,%s' % (node, -lm, -ac, '3_4' if lat['where'] % 2 else ''))
        text = '\n'.join(lines) + '\n\n'
    return text


class Run:
    def __init__(self, plan, ctx):
        from theanolm.network import Network
        from theanolm.scoring import LatticeDecoder
        self.plan, self.ctx = plan, ctx
        self.path = os.path.join(ctx.scratch, 'model.h5')
        cmds.write_model(plan['model'], self.path)
        self.ref = Reference(self.path, plan['opts'])
        self.net = Network.from_file(self.path, mode=Network.Mode(minibatch=False))
        self.voc = self.net.vocabulary
        self.decoder = LatticeDecoder(self.net, dict(plan['opts']))
        self.ids = cmds.kaldi_words(plan['model'])
        self.names = sorted(self.ids, key=self.ids.get)
        self.last = None
        self.complete = 0

    def lattice(self, lat, fmt):
        from theanolm.scoring.slflattice import SLFLattice
        from theanolm.scoring.kaldilattice import KaldiLattice
        if fmt == 'kaldi':
            return KaldiLattice(kaldi(lat, self.ids).rstrip('\n').split('\n'), self.names)
        return SLFLattice(ss.Source(c16.slf(shifted(lat))))

    def decode(self, op, where):
        o = self.plan['opts']
        lat = op['lat']
        ref = self.ref.lattice(lat, op['fmt'])
        if ref is None:
            return
        real = self.lattice(lat, op['fmt'])
        final, recomb = self.decoder.decode(real)
        got = [(tuple(t.history_words(self.voc)[1:-1]), {'ac': float(t.ac_logprob), 'lat': float(t.lat_lm_logprob), 'nn': float(t.nn_lm_logprob),
                                                         'graph': float(t.graph_logprob), 'total': float(t.total_logprob)}) for t in final]
        judge(o, ref, got, where, self.ctx, self.ref, None if unpruned(o) else self.ref.kept(lat, op['fmt']))
        if unpruned(o):
            # a beam removes impossible paths
            need = {w for w, x in ref.items() if o['beam'] is None or any(c['total'] > -numpy.inf for c in x)}
            if need - {w for w, _ in got}:
                raise Violation('path-lost', '%s: nothing may be pruned, but %s is missing' % (where, sorted(need - {w for w, _ in got})[:3]))
            self.ctx.probe('all-paths')
        if op.get('rescore') and not any(x[2] is None for x in lat['links']) and \
           len({(x[0], x[2]) for x in lat['links']}) == len(lat['links']):
            self.rescore(op, real, final, recomb, got, where)
        self.ctx.event('decoded', len(got), [(list(w), round(s['total'], 7)) for w, s in got[:4]])
        self.last = op
        if len(ref) > 1:
            self.complete += 1
            self.ctx.probe('several-paths')

    def rescore(self, op, real, final, recomb, got, where):
        """The rescored lattice of a deterministic lattice, written and read again."""
        from theanolm.scoring import RescoredLattice
        from theanolm.scoring.slflattice import SLFLattice
        from theanolm.scoring.kaldilattice import KaldiLattice
        new = RescoredLattice(real, final, recomb, self.voc)
        buf = io.StringIO()
        if op['rescore'] == 'slf':
            new.write_slf(buf)
            again = SLFLattice(io.StringIO(buf.getvalue()))
        else:
            new.write_kaldi(buf, self.ids)
            again = KaldiLattice(buf.getvalue().rstrip('\n').split('\n'), self.names)
        where += ', rescored lattice'
        longest = max(len(w) for w, _ in got)
        sums = {}

        def visit(node, words, ac):
            if node.final and not node.out_links:
                sums.setdefault(words, []).append(ac)
            for link in node.out_links:
                more = words + (link.word,) if link.word is not None else words
                if len(more) <= longest:
                    visit(link.end_node, more, ac + float(link.ac_logprob or 0.0))
                elif not recomb:
                    raise Violation('rescored-extra', '%s: `%s´ is longer than any path that was returned' % (where, ' '.join(more)))
        visit(again.initial_node, (), 0.0)
        want = {w: s['ac'] for w, s in got}
        lost = [w for w in want if w not in sums]
        if lost:
            raise Violation('rescored-lost', '%s: %s is missing' % (where, lost[:3]))
        if recomb:
            return                  # paths joined by recombination are added
        extra = [w for w in sums if w not in want]
        if extra:
            raise Violation('rescored-extra', '%s: %s was not returned by the decoder' % (where, extra[:3]))
        for w, acs in sums.items():
            if len(acs) != 1 or not c16.close_lattice(want[w], acs[0]):
                raise Violation('rescored-acoustic', '%s: `%s´ has the acoustic scores %s instead of %s' % (where, ' '.join(w), acs, want[w]))
        self.ctx.probe('rescored:' + op['rescore'])

    def step(self, k, op):
        where = 'operation %d (%s, %s)' % (k, op['op'], op['fmt'])
        kind = op['op']
        if kind == 'decode':
            self.decode(op, where)
        elif kind == 'again' and self.last is not None:
            self.decode(self.last, where)
        elif kind == 'permuted' and self.last is not None:
            self.decode(dict(self.last, lat=permuted(self.last['lat'], op['seed'])), where)
        elif kind == 'abort':
            lat = self.lattice(op['lat'], op['fmt'])
            bomb = LineBomb(op['lines'], KeyboardInterrupt())
            try:
                bomb.arm()
                try:
                    self.decoder.decode(lat)
                finally:
                    bomb.disarm()
            except KeyboardInterrupt:
                self.ctx.fault('aborted-decoding')


def permuted(lat, seed):
    """The same lattice numbered and timed in another way."""
    import random
    rng = random.Random(seed)
    lat = dict(lat, links=list(lat['links']), nodes=list(lat['nodes']))
    rng.shuffle(lat['links'])
    rng.shuffle(lat['nodes'])
    lat['times'] = c16.gen_times(rng, lat) if rng.random() < 0.7 else None
    return lat


def run(plan, ctx):
    if 'command' in plan:
        return run_command(plan, ctx)
    sim = Run(plan, ctx)
    ctx.event(plan['model']['arch'], sorted(plan['opts'].items(), key=str))
    for k, op in enumerate(plan['ops']):
        ctx.probe('op:' + op['op'])
        sim.step(k, op)
    ctx.nontrivial = sim.complete > 0


def run_command(plan, ctx):
    root = os.path.join(ctx.scratch, 'disk')
    os.mkdir(root)
    model = os.path.join(root, 'model.h5')
    cmds.write_model(plan['model'], model)
    c, o = plan['command'], plan['opts']
    ref = Reference(model, o)
    ids = cmds.kaldi_words(plan['model'])
    words = os.path.join(root, 'words.txt')
    cmds.put(words, ''.join('%s %d\n' % x for x in ids.items()))
    names = []
    ext = '.gz' if c['gz'] else ''
    if c['fmt'] == 'kaldi':
        names.append(os.path.join(root, 'lattices.txt' + ext))
        cmds.put(names[0], ''.join(kaldi(lat, ids) for lat in c['lats']))
    else:
        for i, lat in enumerate(c['lats']):
            names.append(os.path.join(root, 'l%d.slf%s' % (i, ext)))
            cmds.put(names[-1], c16.slf(shifted(lat)))
    out = os.path.join(root, 'best.txt')
    base = c['logbase']
    scale = numpy.log(base) if base else 1.0
    argv = ['decode', model, '--output', 'full', '--n-best', str(c['nbest']), '--output-file', out, '--log-file', os.path.join(ctx.scratch, 'log'),
            '--lattice-format', c['fmt'], '--kaldi-vocabulary', words, '--nnlm-weight', str(o['nnlm_weight'])]
    for key, value in (('lm-scale', o['lm_scale']), ('unk-penalty', o['unk_penalty']), ('max-tokens-per-node', o['max_tokens_per_node']),
                       ('beam', o['beam']), ('recombination-order', o['recombination_order']), ('log-base', base)):
        if value is not None:
            argv.append('--%s=%s' % (key, value))
    if o['wi_penalty'] is not None:
        argv.append('--wi-penalty=%r' % float(o['wi_penalty'] / scale))
    for key, value in (('shortlist', o['use_shortlist']), ('unk-from-lattice', o['unk_from_lattice']), ('linear-interpolation', o['linear_interpolation'])):
        if value:
            argv.append('--' + key)
    rules = []
    if c['short']:
        for n in names:
            for i in range(200):
                rules.append((disk.C_READ, i, disk.K_SHORT, c['short'], os.path.basename(n)))
            ctx.fault('short-read')
    r = cmds.run('theanolm', argv + ['--lattices'] + names, root, log=False, rules=rules)
    if r.status:
        raise Violation('decode-failed', 'decoding ended with status %s' % r.status)
    rows = [x.split(' ') for x in cmds.get(out).decode().split('\n') if x]
    by_utt = {}
    for x in rows:
        by_utt.setdefault(x[0], []).append(x)
    if list(by_utt) != [lat['utt'] for lat in c['lats']]:
        raise Violation('utterances', 'the output has the utterances %s instead of %s' % (list(by_utt), [lat['utt'] for lat in c['lats']]))
    for lat in c['lats']:
        want = ref.lattice(lat, c['fmt'])
        if want is None:
            continue
        got = []
        for x in by_utt[lat['utt']]:
            if x[5] != '<s>' or x[-1] != '</s>' or int(x[4]) != len(x) - 5:
                raise Violation('format', 'the output line `%s´' % ' '.join(x))
            got.append((tuple(x[6:-1]), {'ac': float(x[1]) * scale, 'graph': float(x[2]) * scale, 'total': float(x[3]) * scale}))
        where = 'utterance %s of theanolm decode' % lat['utt']
        if len(got) > c['nbest']:
            raise Violation('n-best', '%s: %d paths instead of %d' % (where, len(got), c['nbest']))
        judge(o, want, got, where, ctx, ref, None if unpruned(o) else ref.kept(lat, c['fmt']), c['nbest'])
        possible = {w: x for w, x in want.items() if o['beam'] is None or any(s['total'] > -numpy.inf for s in x)}
        if unpruned(o) and len(got) < min(c['nbest'], len(possible)):
            raise Violation('n-best', '%s: %d paths instead of %d' % (where, len(got), min(c['nbest'], len(possible))))
        if unpruned(o) and not o['linear_interpolation']:
            best = sorted((max(s['total'] for s in x) for x in want.values()), reverse=True)
            for (w, s), b in zip(got, best):
                if not close(s['total'], b):
                    raise Violation('n-best', '%s: `%s´ with the total %s, where the paths of the lattice have %s' % (where, ' '.join(w), s['total'], b))
        if len(want) > 1:
            ctx.nontrivial = True
        ctx.event('command', len(got), [(list(w), round(s['total'], 7)) for w, s in got[:4]])
    ctx.probe('command:' + c['fmt'])
