"""Word class optimization keeps exact statistics and a usable snapshot."""
import io
import json
import math
import os
import signal
from collections import Counter

from sim import cmds
from sim import disk
from sim.core import Violation, Abort

RUNS = {'quick': 1400, 'thorough': 20000}
FROZEN = ('cmd', 'method', 'fmt', 'vocabulary_format')
REAL = ['NumpyBigramOptimizer and TheanoBigramOptimizer with BigramStatistics and Vocabulary',
        'wctool as a whole process, its output file on the simulated disk']
STUB = ['system calls on the output file: recorded; kills end the process at a chosen word', 'clock: simulated']
ASSUMPTIONS = ['a kill does not lose data that the process has handed to the operating system',
               'differences of the log likelihood below 1e-9 * N * log N are rounding']
RULE = ('Plans: text, initial classes, and a seeded history of moves, searches and kills from VERIF_SEED. After every step classes and '
        'probabilities and log likelihood are compared with a recount from the text. Distinct: by the hash of the event log.')
SIMTIME = 'one step is one move or search of the optimizer, or one snapshot on the simulated disk'


def prepare():
    cmds.prepare()


def gen_corpus(rng):
    n = rng.choice([2, 3, 4, 6, 9, 14])
    words = ['w%d' % i for i in range(n)]
    if rng.random() < 0.3:
        words[rng.randrange(n)] = rng.choice(cmds.ODD)
    lines = []
    style = rng.choice(['random', 'random', 'markov', 'symmetric', 'repeat'])
    for _ in range(rng.choice([1, 2, 4, 8, 20])):
        k = rng.choice([1, 1, 2, 3, 6, 10])
        ws = []
        for j in range(k):
            if style == 'markov' and ws and ws[-1] in words and rng.random() < 0.8:
                ws.append(words[(words.index(ws[-1]) * 2 + rng.randrange(2)) % n])
            elif style == 'repeat' and ws and rng.random() < 0.6:
                ws.append(ws[-1])
            else:
                ws.append(rng.choice(words))
        lines.append(ws)
    if style == 'symmetric':
        perm = list(words)
        rng.shuffle(perm)
        m = dict(zip(words, perm))
        lines += [[m[w] for w in ws] for ws in lines]
    text = [' '.join(ws) for ws in lines]
    if rng.random() < 0.3:
        text.insert(rng.randrange(len(text)), '')
    if rng.random() < 0.2:
        text[-1] = '<s> ' + text[-1] + ' </s>'
    return words, text


def gen_sparse(rng):
    """Few occurrences of many words: many moves make no difference except for
    rounding."""
    n = rng.choice([8, 12, 16])
    words = ['w%d' % i for i in range(n)]
    text = [' '.join(rng.choice(words) for _ in range(8)) for _ in range(2)]
    k = rng.choice([3, 4])
    vocab = [[w, rng.randrange(k)] for w in words]
    rng.shuffle(vocab)
    return words, text, vocab


def FIXED(tier):
    """A word that would be moved for ever by rounding errors."""
    vocab = 'w7 2 w6 2 w2 2 w5 0 w0 3 w11 2 w4 3 z0 2 w8 2 w10 0 w9 3 w3 0 z1 3 w1 0 z2 3'.split()
    yield {'text': ['w0 w5 w1 w11 w6 w10 w9 w7', 'w1 w4 w3 w9 w6 w8 w6 w3'], 'num_classes': 4, 'method': 'bigram-numpy', 'ops': [],
           'vocabulary': [[w, int(k)] for w, k in zip(vocab[::2], vocab[1::2])]}


def gen(rng, index, tier):
    words, text = gen_corpus(rng)
    if index % 4 == 0 and index % 3 != 2:
        words, text, vocab = gen_sparse(rng)
        return {'text': text, 'num_classes': 2, 'vocabulary': vocab, 'method': 'bigram-numpy' if index % 16 else 'bigram-theano',
                'ops': [['best', rng.randrange(100)] for _ in range(rng.choice([0, 3]))]}
    plan = {'text': text, 'num_classes': rng.choice([2, 2, 3, 5])}
    if rng.random() < 0.55:
        # an initial vocabulary: some words of the text missing, some that never occur
        vocab = [w for w in words if rng.random() < 0.85] or [words[0]]
        vocab += ['z%d' % i for i in range(rng.choice([0, 0, 1, 3]))]
        if rng.random() < 0.3:
            vocab.append(rng.choice(['<s>', '</s>', '<unk>']))
        rng.shuffle(vocab)
        k = rng.choice([2, 3, 4])
        plan['vocabulary'] = [[w, rng.randrange(k)] for w in vocab]
        if rng.random() < 0.3:
            # one class that holds only words that never occur
            plan['vocabulary'] += [['y0', 90], ['y1', 90]]
    plan['method'] = 'bigram-theano' if index % 4 == 3 else 'bigram-numpy'
    if index % 3 == 2:
        plan['cmd'] = True
        plan['fmt'] = rng.choice(['classes', 'srilm-classes'])
        plan['frequency'] = rng.choice([1, 1, 2, 3, 5, 0, 50])
        plan['files'] = rng.choice([1, 1, 2, 3])
        plan['kill'] = rng.randrange(1, 60)
        plan['gz'] = rng.random() < 0.2
    else:
        ops = []
        for _ in range(rng.choice([4, 10, 25])):
            if rng.random() < 0.4:
                ops.append(['best', rng.randrange(100)])
            else:
                ops.append(['move', rng.randrange(100), rng.randrange(100)])
        plan['ops'] = ops
    return plan


def valid_plan(plan):
    return any(x.split() for x in plan['text']) and plan['num_classes'] > 1


def vocabulary_text(plan):
    return ''.join('%s %d\n' % (w, c) for w, c in plan['vocabulary'])


class Recount:
    """The statistics as the definition gives them, from the text."""

    def __init__(self, text, known):
        self.seqs = []
        for line in text:
            ws = line.split()
            if not ws:
                continue
            if ws[0] != '<s>':
                ws = ['<s>'] + ws
            if ws[-1] != '</s>':
                ws = ws + ['</s>']
            self.seqs.append([w if w in known else '<unk>' for w in ws])
        self.words = Counter(w for s in self.seqs for w in s)
        self.pairs = Counter(p for s in self.seqs for p in zip(s, s[1:]))
        n = sum(self.words.values())
        self.tol = 1e-9 * n * math.log(n + 1)

    def stats(self, classes):
        c = Counter()
        for w, k in self.words.items():
            c[classes[w]] += k
        cc = Counter()
        for (a, b), k in self.pairs.items():
            cc[classes[a], classes[b]] += k
        return c, cc

    def ll(self, classes):
        c, cc = self.stats(classes)
        return sum(k * math.log(k) for k in cc.values()) + sum(k * math.log(k) for k in self.words.values()) \
            - 2 * sum(k * math.log(k) for k in c.values())


def run(plan, ctx):
    if plan.get('cmd'):
        run_command(plan, ctx)
    else:
        run_objects(plan, ctx)


# ------------------------------------------------------------------ objects

def run_objects(plan, ctx):
    from theanolm.vocabulary import Vocabulary, compute_word_counts, BigramStatistics
    from wordclasses import NumpyBigramOptimizer, TheanoBigramOptimizer
    text = io.StringIO('\n'.join(plan['text']) + '\n')
    if 'vocabulary' in plan:
        v = Vocabulary.from_file(io.StringIO(vocabulary_text(plan)), 'classes')
    else:
        v = Vocabulary.from_word_counts(compute_word_counts([text]), plan['num_classes'])
        text.seek(0)
    stats = BigramStatistics([text], v)
    make = TheanoBigramOptimizer if plan['method'] == 'bigram-theano' else NumpyBigramOptimizer
    opt = make(stats, v)
    words = list(v.words())
    ref = Recount(plan['text'], set(words))
    ids = {w: v.word_to_id[w] for w in words}
    normal = v.num_normal_classes
    movable = [w for w in words if not (w.startswith('<') and w.endswith('>'))]
    if not movable or normal < 2:
        raise Abort('nothing to move')

    def classes():
        return {w: int(opt.get_word_class(ids[w])) for w in words}

    def check(expect, what):
        got = classes()
        if got != expect:
            bad = sorted(w for w in words if got[w] != expect[w])
            raise Violation('class-assignment', '%s: %s should be in %s, is in %s' % (
                what, bad, [expect[w] for w in bad], [got[w] for w in bad]))
        listed = {}
        c, _ = ref.stats(expect)
        for w, k, p in opt.words():
            if w in listed:
                raise Violation('listed-twice', '%s: word %s is listed twice' % (what, w))
            listed[w] = int(k)
            want = ref.words[w] / c[k] if c[k] else 0.0
            if not abs(float(p) - want) <= 1e-9:
                raise Violation('membership-probability', '%s: P(%s | class %d) is %r, should be %r' % (what, w, k, float(p), want))
        if listed != expect:
            raise Violation('class-listing', '%s: lists %s, should be %s' % (what, listed, expect))
        ll = float(opt.log_likelihood())
        want = ref.ll(expect)
        if not abs(ll - want) <= ref.tol:
            raise Violation('class-statistics', '%s: log likelihood %r, a recount gives %r' % (what, ll, want))
        return want

    current = classes()
    ll = check(current, 'initial classes')
    ctx.event('start', plan['method'], sorted(current.items()), round(ll, 6))

    def search(word, what):
        nonlocal current, ll
        moved = opt.move_to_best_class(word)
        new = classes()
        ctx.steps += 1
        diffs = {}
        size = Counter(current.values())
        for k in range(normal):
            if k != current[word]:
                trial = dict(current)
                trial[word] = k
                diffs[k] = ref.ll(trial) - ll
        best = max(diffs.values())
        changed = [w for w in words if new[w] != current[w]]
        if not moved:
            if changed:
                raise Violation('moved-silently', '%s: %s changed class although no move was announced' % (what, changed))
            if size[current[word]] > 1 and best > ref.tol:
                raise Violation('improvement-missed', '%s: word %s stays in class %d, moving it would improve the log likelihood '
                                'by %r (%s)' % (what, word, current[word], best, diffs))
        else:
            if changed != [word]:
                raise Violation('moved-wrong-word', '%s: words %s changed class instead of %s' % (what, changed, word))
            if new[word] not in diffs:
                raise Violation('moved-to-special-class', '%s: word %s was moved to class %d' % (what, word, new[word]))
            if diffs[new[word]] < best - ref.tol or diffs[new[word]] < -ref.tol:
                raise Violation('wrong-move', '%s: word %s was moved from class %d to %d, which changes the log likelihood by %r; '
                                'the best move gives %r' % (what, word, current[word], new[word], diffs[new[word]], best))
            ctx.probe('move')
        current = new
        ll = check(current, what)
        return moved

    force = getattr(opt, '_move', None)
    announce = getattr(opt, '_evaluate', None)
    for n, op in enumerate(plan['ops']):
        word = movable[op[1] % len(movable)]
        if op[0] == 'best':
            search(word, 'step %d (best class of %s)' % (n, word))
            continue
        k = op[2] % normal
        if force is None or k == current[word]:
            continue
        trial = dict(current)
        trial[word] = k
        what = 'step %d (move %s from %d to %d)' % (n, word, current[word], k)
        if announce is not None:
            d = announce(ids[word], k)
            try:
                ok = abs(float(d) - (ref.ll(trial) - ll)) <= ref.tol
            except (TypeError, ValueError):
                ok = False
            if not ok:
                raise Violation('announced-change', '%s: announced change %r, a recount gives %r' % (what, d, ref.ll(trial) - ll))
        force(ids[word], k)
        current = trial
        ll = check(current, what)
        ctx.event('move', word, k, round(ll, 6))
        ctx.steps += 1
        ctx.fault('forced-move')
    # optimize to the end
    seen = {tuple(current[w] for w in words)}
    iteration = 0
    while True:
        moves = 0
        for word in movable:
            if search(word, 'iteration %d, word %s' % (iteration, word)):
                moves += 1
                key = tuple(current[w] for w in words)
                if key in seen:
                    raise Violation('no-progress-cycle', 'iteration %d: moving word %s leads to classes that were left before: %s'
                                    % (iteration, word, current))
                seen.add(key)
        iteration += 1
        ctx.event('iteration', moves, sorted(current.items()), round(ll, 6))
        if moves == 0:
            break
        if iteration > 400:
            raise Abort('many iterations')
    ctx.probe('iterations', iteration)
    ctx.nontrivial = True


# ------------------------------------------------------------------ command

def parse(data, fmt):
    """The classes in an output file; None if it is not complete."""
    try:
        text = data.decode('utf-8')
    except UnicodeDecodeError:
        return None
    if not text.endswith('\n'):
        return None
    result = {}
    for line in text.split('\n')[:-1]:
        f = line.split(' ')
        if fmt == 'classes':
            if len(f) != 2:
                return None
            w, k, p = f[0], f[1], None
        else:
            if len(f) != 3 or not f[0].startswith('CLASS-'):
                return None
            k, p, w = f[0][len('CLASS-'):], f[1], f[2]
        if w in result:
            return None
        try:
            result[w] = (int(k), None if p is None else float(p))
        except ValueError:
            return None
    return result


def run_command(plan, ctx):
    from theanolm.vocabulary import Vocabulary
    from wordclasses.bigramoptimizer import BigramOptimizer
    root = os.path.join(ctx.scratch, 'disk')
    os.mkdir(root)
    inputs = []
    for i in range(plan['files']):
        p = os.path.join(root, 'train%d.txt%s' % (i, '.gz' if plan['gz'] and i == 0 else ''))
        cmds.put(p, ''.join(x + '\n' for x in plan['text'][i::plan['files']]))
        inputs.append(p)
    out = os.path.join(root, 'OUT.txt')
    base = ['--method', plan['method'], '--output-format', plan['fmt'], '--num-classes', str(plan['num_classes']),
            '--log-file', os.path.join(ctx.scratch, 'log.txt'), '--output-frequency', str(plan['frequency'])]
    argv = ['--training-set'] + inputs + base + ['--output-file', out]
    if 'vocabulary' in plan:
        voc = os.path.join(root, 'vocabulary.txt')
        cmds.put(voc, vocabulary_text(plan))
        argv += ['--vocabulary', voc, '--vocabulary-format', 'classes']
        words = list(Vocabulary.from_file(io.StringIO(vocabulary_text(plan)), 'classes').words())
    else:
        words = sorted(set(' '.join(plan['text']).split()) | {'<s>', '</s>', '<unk>'})
    ref = Recount(plan['text'], set(words))
    trail = os.path.join(ctx.scratch, 'trail')

    def hook(kill=None):
        """Marks the moments between words in the log of the disk."""
        original = getattr(BigramOptimizer, 'move_to_best_class', None)
        if original is None:
            return
        n = [0]

        def wrapper(self, word, *args, **kwargs):
            n[0] += 1
            disk.lib().simdisk_mark(n[0])
            if kill is not None and n[0] == kill:
                os.kill(os.getpid(), signal.SIGKILL)
            with open(trail, 'a') as f:
                f.write(json.dumps({w: int(k) for w, k, _ in self.words()}) + '\n')
            return original(self, word, *args, **kwargs)
        BigramOptimizer.move_to_best_class = wrapper

    res = cmds.run('wctool', argv, root, before=hook)
    ctx.steps += len(res.log)
    if res.status != 0:
        raise Violation('command-fails', 'wctool %s: exit status %d' % (argv, res.status))
    # what the classes were at each moment
    states = []
    if os.path.exists(trail):
        with open(trail) as f:
            states = [json.loads(x) for x in f]

    def check_snapshot(data, expect, what):
        got = parse(data, plan['fmt'])
        if got is None or set(got) != set(words):
            raise Violation('incomplete-snapshot', '%s: the output file is not a complete list of classes: %r' % (what, data[-200:]))
        if expect is not None and {w: k for w, (k, _) in got.items()} != expect:
            raise Violation('stale-snapshot', '%s: the output file holds %s, the classes were %s' % (what, got, expect))
        if plan['fmt'] != 'classes':
            cl = {w: k for w, (k, _) in got.items()}
            c, _ = ref.stats(cl)
            for w, (k, p) in got.items():
                want = ref.words[w] / c[k] if c[k] else 0.0
                if not abs(p - want) <= 1e-9:
                    raise Violation('membership-probability', '%s: P(%s | class %d) is %r, should be %r' % (what, w, k, p, want))
        return {w: k for w, (k, _) in got.items()}

    final = check_snapshot(cmds.get(out, b''), None, 'at the end')
    nwords = len(words)
    due = [j for j in range(1, nwords + 1) if j * plan['frequency'] // nwords > (j - 1) * plan['frequency'] // nwords]
    image = disk.Image()
    kills = 0
    killed_at = None
    for rec in res.log:
        if rec[0] != disk.MARK:
            image.apply(rec)
            continue
        k = rec[2] or rec[1] or rec[3]
        # before the k'th word is processed
        data = next((d for p, d in image.files.items() if p.endswith('OUT.txt')), b'')
        done = k - 1
        # the last snapshot that was due
        last = None
        for j in range(done, 0, -1):
            if ((j - 1) % nwords) + 1 in due:
                last = j
                break
        if last is None:
            continue
        kills += 1
        check_snapshot(data, states[last] if last < len(states) else None,
                       'killed before word %d of the run, the last snapshot was due after word %d' % (k, last))
    ctx.fault('kill-image', kills)
    ctx.event('command', plan['method'], res.status, len(states), sorted(final.items()))
    if states:
        # the optimum of the definition: no move improves
        ll = ref.ll(final)
        size = Counter(final.values())
        first = ref.ll(states[0])
        if ll < first - ref.tol:
            raise Violation('log-likelihood-decreased', 'log likelihood %r at the beginning, %r at the end' % (first, ll))
        prev = first
        for i, s in enumerate(states[1:], 1):
            cur = ref.ll(s)
            if cur < prev - ref.tol:
                raise Violation('log-likelihood-decreased', 'from %r to %r by word %d of the run' % (prev, cur, i))
            prev = cur
        normal = max((k for w, k in final.items() if not w.startswith('<')), default=-1) + 1
        for w in words:
            if w.startswith('<') and w.endswith('>') or size[final[w]] < 2:
                continue
            for k in set(final[x] for x in words if not x.startswith('<')):
                t = dict(final)
                t[w] = k
                if ref.ll(t) > ll + ref.tol:
                    raise Violation('ended-early', 'moving %s from class %d to %d would improve the log likelihood from %r to %r'
                                    % (w, final[w], k, ll, ref.ll(t)))
        # a real kill, and a restart from what is left
        kill = 1 + plan['kill'] % len(states)
        os.unlink(out)
        res = cmds.run('wctool', argv, root, before=lambda: hook(kill))
        ctx.steps += len(res.log)
        if res.status != -signal.SIGKILL:
            raise Violation('not-repeatable', 'the second run ended with status %d before word %d' % (res.status, kill))
        ctx.fault('kill')
        data = cmds.get(out, b'')
        if any(((j - 1) % nwords) + 1 in due for j in range(1, kill)):
            left = check_snapshot(data, None, 'killed before word %d' % kill)
            voc = os.path.join(root, 'left.txt')
            cmds.put(voc, data)
            again = os.path.join(root, 'AGAIN.txt')
            res = cmds.run('wctool', ['--training-set'] + inputs + base + ['--output-file', again, '--vocabulary', voc,
                                                                       '--vocabulary-format', plan['fmt']], root)
            if res.status != 0:
                raise Violation('unusable-snapshot', 'a restart from the snapshot that was left fails with status %d: %r'
                                % (res.status, data))
            end = check_snapshot(cmds.get(again, b''), None, 'after the restart')
            if ref.ll(end) < ref.ll(left) - ref.tol:
                raise Violation('restart-loses', 'log likelihood %r in the snapshot, %r after the restart' % (ref.ll(left), ref.ll(end)))
            ctx.fault('restart')
            ctx.event('restart', kill, sorted(end.items()))
    ctx.nontrivial = True
