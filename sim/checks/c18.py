"""C18: scoring a text accounts for every word exactly once."""

import math
import os
import re
import signal

from sim import disk
from sim import cmds, scoresim as ss
from sim.core import Violation
from sim.trainersim import LineBomb
from theanolm.network import Network
from theanolm.scoring import TextScorer

RUNS = {'quick': 130, 'thorough': 12000}
FROZEN = ('model', 'form', 'mode', 'marking', 'scorers')
REAL = ['theanolm score as a whole process, from argument parsing to the finalization of the interpreter: reading, batching, network, scorer, '
        'merging of subwords, statistics and output; input from files, .gz and standard input, output to files, .gz and standard output']
STUB = ['system calls on the files: performed on a scratch directory, short, split or interrupted as the plan says', 'clock: simulated',
        'kills: SIGKILL when the n-th line of the code under test is reached']
ASSUMPTIONS = ['floatX=float64; equal means equal up to a relative difference of 1e-8',
               'networks without GLU layers (not supported by the pure Python linker)',
               'a <w> that ends no word (at the beginning of a sentence) belongs to no word']
RULE = ('Plans: model, text and a history of scoring commands over the same output file (output format, base, options, subword marking, input and '
        'output as file, .gz or standard stream, interrupted, short and split reads and writes, a command killed at a random line and run again, the '
        'text in one piece, in parts or repeated) from VERIF_SEED. Reference: every sentence scored alone in another process; the counts, sums and '
        'perplexities are computed from that. Non-trivial: at least two commands wrote their complete output. Distinct: by the hash of the event log.')
RUN_TIMEOUT = 300
SIMTIME = 'one step is one sentence scored by a command'
ARCHS = ['mlp', 'lstm', 'gru', 'class', 'multi', 'deep', 'drop', 'bidir', 'bigru']
MODES = ['perplexity', 'word-scores', 'utterance-scores']


def prepare():
    cmds.prepare()


def gen(rng, index, tier):
    m = ss.gen_world(rng, ARCHS)
    marking = rng.choice([None, None, 'word-boundary', 'prefix-affix'])
    if marking == 'word-boundary':
        m['words'][rng.randrange(len(m['words']))] = '<w>'
    elif marking == 'prefix-affix':
        for part in ('words', 'oos'):
            m[part] = [rng.choice(['%s', '+%s', '%s+', '+%s+']) % w for w in m[part]]
    plan = {'model': m, 'marking': marking, 'scorers': [[a, b] for a in (False, True) for b in (False, True)]}
    n = rng.choice([1, 2, 5, 15, 16, 17, 31, 32, 33, 50])
    text = cmds.gen_text(rng, m, n, empty=rng.choice([0, 0.05, 0.3]), lengths=rng.choice([(1, 2, 3, 5), (1,), (1, 14), (4,), (2, 9, 30)]))
    for i in range(len(text)):
        r = rng.random()
        if marking == 'word-boundary' and text[i] and rng.random() < 0.8:
            ws = []
            for w in text[i].split():
                w = '<unk>' if rng.random() < 0.04 else w
                ws += [w, '<w>'] if rng.random() < 0.6 else [w]
            text[i] = rng.choice(['<w> ', '']) + ' '.join(ws) + rng.choice([' <w>', ''])
        if r < 0.05:
            text[i] = '<s> ' + text[i]
        elif r < 0.1:
            text[i] = text[i] + ' </s>'
        elif r < 0.13 and marking is None:
            text[i] = text[i] + ' <unk>'
        elif r < 0.16:
            text[i] = rng.choice(['  ', '\t']) + text[i].replace(' ', rng.choice(['  ', '\u00a0'])) + ' '
        elif r < 0.19 and i:
            text[i] = text[rng.randrange(i)]
    plan['text'] = text
    plan['final_newline'] = rng.random() < 0.8
    plan['steps'] = []
    for k in range(rng.choice([2, 3, 5])):
        s = {'mode': MODES[(index + k) % 3] if k < 2 else rng.choice(MODES), 'shortlist': rng.random() < 0.4, 'exclude': rng.random() < 0.35,
             'base': rng.choice([None, None, 2, 10]), 'form': rng.choice(['file', 'file', 'gz', 'stdin']),
             'out': rng.choice(['a', 'a', 'a', 'b', 'gz', 'stdout']), 'log': rng.choice(['file', 'file', 'debug']),
             'part': rng.choice([None, None, [0, 1], [1, 2], [1, 3]]), 'repeat': rng.choice([1, 1, 1, 2]), 'fault': None}
        f = rng.random()
        if f < 0.2:
            s['fault'] = {'kind': 'split', 'reads': rng.choice([1, 3, 17, 100]), 'writes': 0}
        elif f < 0.3:
            s['fault'] = {'kind': 'split', 'reads': 0, 'writes': rng.choice([1, 7, 100])}
        elif f < 0.4:
            s['fault'] = {'kind': 'eintr', 'cls': rng.choice(['read', 'write']), 'nth': rng.choice([0, 0, 1, 3])}
        elif f < 0.6:
            s['fault'] = {'kind': 'kill', 'lines': rng.choice([300, 2000, rng.randrange(1, 9000)])}
        plan['steps'].append(s)
    return plan


def valid_plan(plan):
    return any(x.split() for x in plan['text']) and bool(plan['steps'])


def shrink(plan):
    for i in range(len(plan['steps'])):
        for k in ('fault', 'part', 'base'):
            if plan['steps'][i][k] is not None:
                yield dict(plan, steps=plan['steps'][:i] + [dict(plan['steps'][i], **{k: None})] + plan['steps'][i + 1:])


# ---------------------------------------------------------------- reference

def merge(words, scores, marking):
    """[(parts of a word, score)], the first one being the sentence start."""
    out = [([words[0]], 0.0)]
    if marking is None:
        return out + [([w], x) for w, x in zip(words[1:], scores)]
    total = None
    parts = []

    def add(a, b):
        return None if a is None or b is None else a + b

    if marking == 'prefix-affix':
        for w, x in zip(words[1:], scores):
            if len(out) > 1 and out[-1][0][-1].endswith('+') and w.startswith('+'):
                out[-1] = (out[-1][0] + [w], add(out[-1][1], x))
            else:
                out.append(([w], x))
        return out
    total = 0.0
    for w, x in zip(words[1:], scores):
        total = add(total, x)
        if w != '<w>':
            parts.append(w)
            continue
        if parts:
            out.append((parts, total))
        parts, total = [], 0.0
    if parts:
        out.append((parts, total))
    # a word with an unknown part is an unknown word
    return [(['<unk>'] if '<unk>' in p else p, x) for p, x in out]


class Expect:
    """What has to be written for a text."""

    def __init__(self, sentences, scores, marking):
        self.sentences = []
        for words in sentences:
            merged = merge(words, scores[tuple(words)], marking)
            finite = [x for _, x in merged[1:] if x is not None and x != -math.inf]
            self.sentences.append((words, merged, finite))
        self.zero = any(x == -math.inf for w in sentences for x in scores[tuple(w)] if x is not None)
        self.raw = [[x for x in scores[tuple(w)] if x is not None and x != -math.inf] for w in sentences]

    def counts(self):
        s = self.sentences
        return {'Number of sentences': len(s), 'Number of words': sum(len(m) for _, m, _f in s),
                'Number of tokens': sum(len(w) for w, _m, _f in s),
                'Number of predicted probabilities': sum(len(f) for _w, _m, f in s),
                'Number of excluded (OOV) words': sum(x is None for _w, m, _f in s for _p, x in m[1:]),
                'Number of zero probabilities': sum(x == -math.inf for _w, m, _f in s for _p, x in m[1:] if x is not None)}


def value(text):
    try:
        return float(text)
    except ValueError:
        return math.nan


def check_statistics(lines, e, base, where):
    got = {}
    for line in lines:
        name, sep, x = line.rpartition(': ')
        if sep:
            if name in got:
                raise Violation('statistics', '%s: `%s´ is written twice' % (where, name))
            got[name] = value(x)
    for name, want in e.counts().items():
        if got.get(name) != want:
            raise Violation('statistics', '%s: %s is %s, counted %s' % (where, name, got.get(name), want))
    total = sum(x for _w, _m, f in e.sentences for x in f)
    n = sum(len(f) for _w, _m, f in e.sentences)
    if not n:
        return
    want = {'Cross entropy (base e)': -total / n, 'Perplexity': math.exp(-total / n)}
    if base is not None:
        want['Cross entropy (base %d)' % base] = -total / n / math.log(base)
    for name, x in want.items():
        if name not in got or not ss.close(x, got[name]):
            raise Violation('perplexity', '%s: %s is %s, from the scores of the sentences alone %s' % (where, name, got.get(name), x))


def check_words(lines, e, base, model, where):
    scale = 1.0 if base is None else math.log(base)
    short = set(model['words']) | {'<s>', '</s>', '<unk>'}
    k = 0

    def take():
        nonlocal k
        while k < len(lines) and not lines[k].strip():
            k += 1
        k += 1
        return lines[k - 1] if k <= len(lines) else ''

    for i, (words, merged, finite) in enumerate(e.sentences):
        at = '%s, sentence %d `%s´' % (where, i + 1, ' '.join(words))
        if take().split() != ['#', 'Sentence', str(i + 1)]:
            raise Violation('word-scores', '%s: expected its beginning, found `%s´' % (at, lines[k - 1] if k <= len(lines) else ''))
        for parts, want in merged[1:]:
            line = take()
            info = ' '.join(p + (':shortlist' if p in short else ':OOS' if p in model['oos'] else ':OOV') for p in parts)
            name = ' '.join(parts)
            if '<unk>' not in parts and not line.endswith('[%s]' % info):
                raise Violation('word-scores', '%s: `%s´ for the word `%s´' % (at, line, info))
            if want is None:
                if not line.startswith('p(%s | ' % name) or ') is not predicted' not in line:
                    raise Violation('word-scores', '%s: `%s´ should not be predicted, found `%s´' % (at, name, line))
                continue
            mt = re.match(r'log\(p\((.*)\)\) = (\S+)  \[', line)
            if not mt or not mt.group(1).startswith(name + ' | '):
                raise Violation('word-scores', '%s: expected the score of `%s´, found `%s´' % (at, name, line))
            if not ss.close(want / scale, value(mt.group(2))):
                raise Violation('word-scores', '%s: score of `%s´ is %s, alone %s' % (at, name, mt.group(2), want / scale))
        if not finite:
            continue
        line = take()
        name, _, x = line.partition(': ')
        want = math.exp(-sum(finite) / len(finite))
        if name != 'Sentence perplexity' or not ss.close(want, value(x)):
            raise Violation('word-scores', '%s: `%s´, perplexity from the scores is %s' % (at, line, want))
    return lines[k:]


def check_utterances(lines, e, base, where):
    scale = 1.0 if base is None else math.log(base)
    got = [x for x in lines if x.strip()]
    if len(got) != len(e.sentences):
        raise Violation('utterance-scores', '%s: %d sentences, %d scores' % (where, len(e.sentences), len(got)))
    for x, raw, (words, _m, _f) in zip(got, e.raw, e.sentences):
        if not ss.close(sum(raw) / scale, value(x)):
            raise Violation('utterance-scores', '%s: `%s´ has score %s, alone %s' % (where, ' '.join(words), x, sum(raw) / scale))


# ---------------------------------------------------------------- runs

def run(plan, ctx):
    root = os.path.join(ctx.scratch, 'disk')
    os.mkdir(root)
    m = plan['model']
    model = os.path.join(root, 'model.h5')
    cmds.write_model(m, model)

    def score_all():
        out = {}
        for key in [tuple(x) for x in plan['scorers']]:
            # the command tells the network, too, to exclude unknown words
            network = Network.from_file(model, exclude_unk=key[1])
            scorer = TextScorer(network, use_shortlist=key[0], exclude_unk=key[1])
            for u in sorted({tuple(ss.utterance(x)) for x in plan['text']}):
                if u:
                    out[key, u] = ss.score_words(scorer, network.vocabulary, u)
        return out
    ref = ss.isolated(score_all)
    ctx.event(m['arch'], plan['marking'], len(plan['text']), round(sum(x for v in ref.values() for x in v if x is not None and x > -1e300), 9))
    complete = 0
    for k, s in enumerate(plan['steps']):
        lines = plan['text']
        if s['part']:
            a, b = s['part']
            lines = lines[len(lines) * a // (b + 1):len(lines) * (a + 1) // (b + 1) + 1]
        lines = lines * s['repeat']
        sentences = [u for u in (ss.utterance(x) for x in lines) if u]
        if not sentences:
            continue
        scores = {u: ref[(s['shortlist'], s['exclude']), u] for u in {tuple(x) for x in sentences}}
        e = Expect(sentences, scores, plan['marking'] if s['mode'] != 'utterance-scores' else None)
        if not all(f for _w, _m, f in e.sentences):
            ctx.probe('sentence-without-probabilities')
        if e.zero:
            ctx.probe('zero-probability')
        src = os.path.join(root, 'in%d.txt%s' % (k, '.gz' if s['form'] == 'gz' else ''))
        cmds.put(src, '\n'.join(lines) + ('\n' if plan['final_newline'] else ''))
        out = os.path.join(root, {'gz': 'out.gz'}.get(s['out'], s['out'] + '.txt'))
        argv = ['score', model, '-' if s['form'] == 'stdin' else src, '--output', s['mode'], '--log-file', os.path.join(ctx.scratch, 'log'),
                '--log-level', 'debug' if s['log'] == 'debug' else 'info']
        if s['out'] != 'stdout':
            argv += ['--output-file', out]
        if s['base'] is not None:
            argv += ['--log-base', str(s['base'])]
        if s['shortlist']:
            argv.append('--shortlist')
        if s['exclude']:
            argv.append('--exclude-unk')
        if plan['marking'] is not None:
            argv += ['--subwords', plan['marking']]
        kw = {'stdin': src if s['form'] == 'stdin' else None, 'stdout': out if s['out'] == 'stdout' else None}
        f = s['fault']
        where = 'command %d (%s)' % (k, ' '.join(argv[3:]).replace(ctx.scratch, ''))
        if f and f['kind'] == 'kill':
            bomb = LineBomb(f["lines"], RuntimeError(), before=lambda: os.kill(os.getpid(), signal.SIGKILL))
            r = cmds.run('theanolm', argv, root, log=False, before=bomb.arm, **kw)
            ctx.event(k, 'kill', r.status)
            if r.status == -signal.SIGKILL:
                ctx.fault('kill')
            f = None
        if f and f['kind'] == 'split':
            kw['split'] = (f['reads'], f['writes'])
            ctx.fault('short-reads' if f['reads'] else 'short-writes')
        elif f:
            kw['rules'] = [(disk.C_READ if f['cls'] == 'read' else disk.C_WRITE, f['nth'], disk.K_EINTR)]
        r = cmds.run('theanolm', argv, root, reads=True, **kw)
        if f and f['kind'] == 'eintr' and r.fired:
            ctx.fault('eintr-' + f['cls'])
        ctx.steps += len(sentences)
        ctx.probe('%s:%s' % (s['mode'], plan['marking']))
        ctx.event(k, s['mode'], len(sentences), r.status)
        if r.status:
            if s['mode'] == 'utterance-scores' and e.zero:
                ctx.probe('zero-probability-refused')
                continue
            raise Violation('fails', '%s exits with status %d' % (where, r.status))
        data = cmds.get_text(out)
        if data is None:
            raise Violation('no-output', '%s wrote no readable output' % where)
        got = data.decode('utf-8').split('\n')
        if s['mode'] == 'utterance-scores':
            check_utterances(got, e, s['base'], where)
        elif s['mode'] == 'word-scores':
            check_statistics(check_words(got, e, s['base'], m, where), e, s['base'], where)
        else:
            check_statistics(got, e, s['base'], where)
        complete += 1
    ctx.probe('arch:' + m['arch'])
    ctx.nontrivial = complete >= 2
