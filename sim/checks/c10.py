"""What training saved is what every other command loads."""
import os
import pickle
import signal

from sim import cmds, realnet
from sim import disk                                    # noqa: F401
from sim.checks.c08 import lines
from sim.core import Violation, HarnessError
from sim.realnet import h5py, numpy
from sim.scoresim import close, isolated, same, score_words
from sim.trainersim import LineBomb

from theanolm.network import Network
from theanolm.scoring import TextScorer
from theanolm.training.trainer import Trainer

RUNS = {'quick': 84, 'thorough': 4000}
FROZEN = ('model', 'arch', 'text', 'dev', 'classes')
REAL = ['theanolm train as a whole process (vocabulary, architecture, network, optimizer, trainer, model file), several lives of it; '
        'Network.from_file and TextScorer in processes that did not train; theanolm score as a whole process']
STUB = ['clock: simulated', 'kills: SIGKILL when the n-th line of the code under test after the m-th update is reached']
ASSUMPTIONS = ['states in which training passes through are recorded by scoring a probe text in the training process before the first and after every update',
               'which of the states is saved is the business of C02 and C03']
RULE = ('Plans: random vocabulary (words, classes, SRILM classes, from the text, given number of classes; words outside the shortlist; unusual words), random '
        'architecture (up to 13 inputs, layers and layer inputs), optimizer, data, and a history of lives with kills, annealings and files as older versions '
        'wrote them, from VERIF_SEED. Every model file seen on the way is loaded in another process; vocabulary, architecture and the scores of a probe text must be those '
        'that a training process had. Non-trivial: a kill, an annealing or more than one loaded file. Distinct: by the hash of the event log.')
RUN_TIMEOUT = 400
SIMTIME = 'one step is one mini-batch update or one loaded model file'

ODD = cmds.ODD + ['<x>', '<S>', '#', '=', '"', "'", '\\', '%', '0', '-1', 'nan', 'None', 'a' * 70, 'ä' * 40, '!NULL', 'a_b', '\u2028'.strip() or 'zz', 'A', 'a']


# ---------------------------------------------------------------- plans

def gen_arch(rng, has_classes):
    """A random architecture description."""
    big = rng.random()
    nin = rng.choice([1, 1, 2, 3])
    if big < 0.22:
        nin = rng.choice([11, 12])
    out = []
    order = list(range(nin))
    rng.shuffle(order)
    names = rng.choice([['in%d' % i for i in order], ['input_%c' % (97 + i) for i in order]])
    for k, n in enumerate(names):
        out.append('input type=%s name=%s' % (rng.choice(['word', 'word', 'class']), n))
    layers = []                     # (name, size)
    for k, n in enumerate(names):
        size = rng.choice([2, 3])
        layers.append(('p%d' % k, size))
        out.append('layer type=projection name=p%d input=%s size=%d' % (k, n, size))
    last, size = layers[0]
    if len(layers) > 1:
        size = rng.choice([3, 4])
        kind = rng.choice(['tanh', 'fc', 'gru', 'lstm']) if nin < 5 else rng.choice(['tanh', 'fc'])
        ins = list(layers)
        rng.shuffle(ins)
        out.append('layer type=%s name=joint %s size=%d%s' % (kind, ' '.join('input=' + x for x, _ in ins), size, ' activation=relu' if kind == 'fc' else ''))
        last = 'joint'
    depth = rng.choice([0, 1, 2, 3])
    if 0.22 <= big < 0.4:
        depth = rng.choice([9, 10])
    pool = []
    for k in range(depth):
        name = 'h%d' % k
        kind = rng.choice(['tanh', 'lstm', 'gru', 'highwaytanh', 'highway', 'dropout', 'fc', 'blstm', 'bgru'] if depth < 5 else ['tanh', 'tanh', 'highwaytanh', 'dropout', 'fc', 'tanh'])
        options = ''
        if kind in ('tanh', 'lstm', 'gru', 'fc'):
            size = rng.choice([3, 4])
            options = ' size=%d' % size
        elif kind in ('blstm', 'bgru'):
            size = 4
            options = ' size=4'
        elif kind.startswith('highway'):
            options = ' size=%d' % size
        if kind == 'fc' and rng.random() < 0.7:
            options += ' activation=%s' % rng.choice(['relu', 'leakyrelu', 'tanh'])
        elif kind == 'highway':
            options += rng.choice(['', ' activation=relu'])
        if kind == 'dropout':
            options = ' dropout_rate=%s' % rng.choice(['0.2', '0.5'])
        out.append('layer type=%s name=%s input=%s%s' % (kind, name, last, options))
        pool.append((name, size))
        last = name
    mates = [x for x, s in pool if s == size and x != last]
    if mates and rng.random() < 0.6:
        out.append('layer type=add name=sum input=%s input=%s' % (last, rng.choice(mates)))
        last = 'sum'
    out.append('layer type=%s name=output_layer input=%s' % ('hsoftmax' if rng.random() < 0.2 else 'softmax', last))
    return out


def gen(rng, index, tier):
    m = cmds.gen_model(rng, archs=['mlp'], nwords=rng.choice([6, 11, 14]), oos=0)
    for i in range(len(m['words'])):
        if rng.random() < 0.15:
            w = rng.choice(ODD)
            if w.strip() == w and len(w.split()) == 1 and w not in m['words']:
                m['words'][i] = w
    vocab = rng.choice(['words', 'words', 'classes', 'classes', 'srilm-classes', 'none', 'num-classes'])
    m['oos'] = ['oos%d' % i for i in range(rng.choice([0, 2, 4]))] if vocab in ('words', 'classes', 'srilm-classes') else []
    k = rng.choice([2, 3, 12])
    plan = {'model': m, 'vocab': vocab, 'seed': rng.randrange(1 << 31),
            'classes': [[rng.randrange(k), rng.choice(['1', '0.5', '0.25', '0.125', '0.3', '1e-3'])] for _ in m['words']],
            'special': rng.choice([[], [], ['<s>', '</s>', '<unk>'], ['<unk>'], ['</s>']]),
            'dev': cmds.gen_text(rng, m, 3, empty=0), 'lives': []}
    # every word occurs somewhere, except a few of the shortlist
    unseen = set(rng.sample(m['words'], rng.choice([0, 0, 1, 3])))
    seen = dict(m, words=[w for w in m['words'] if w not in unseen])
    plan['text'] = [cmds.gen_text(rng, seen, rng.choice([7, 12]), empty=0.05, oov=False) for _ in range(rng.choice([1, 2]))]
    rest = [w for w in seen['words'] + m['oos'] if rng.random() < 0.8]
    plan['text'][0] += [' '.join(rest[i:i + 6]) for i in range(0, len(rest), 6)]
    plan['arch'] = gen_arch(rng, vocab != 'words')
    plan['opt'] = rng.choice(realnet.OPTIMIZERS)
    plan['lr'] = rng.choice([0.1, 0.5, 2.0]) if plan['opt'] in ('sgd', 'nesterov') else rng.choice([0.01, 0.1])
    plan['validation'] = rng.random() < 0.75
    plan['f'] = rng.choice([1, 2, 4])
    plan['B'] = rng.choice([1, 1, 2])
    plan['patience'] = rng.choice([0, 0, 1, 4])
    plan['epochs'] = rng.choice([2, 3])
    for _ in range(rng.choice([1, 2, 2, 3])):
        plan['lives'].append({'kill': rng.choice([None, [rng.randrange(4, 25), rng.choice([1, 3, 30, 300, 3000])], [rng.randrange(1, 60), rng.choice([1, 30, 1000])]]),
                              'legacy': rng.random() < 0.15, 'images': rng.choice([1, 2]), 'score': rng.random() < 0.25})
    return plan


def valid_plan(plan):
    return bool(plan['lives']) and all(any(x.strip() for x in t) for t in plan['text']) and any(x.strip() for x in plan['dev'])


def shrink(plan):
    if plan['validation']:
        yield dict(plan, validation=False)
    if plan['arch'] != realnet.ARCHS['mlp']:
        yield dict(plan, arch=realnet.ARCHS['mlp'])


def prepare():
    cmds.prepare()


# ---------------------------------------------------------------- observation

def describe(network):
    """Vocabulary and architecture, by what they do."""
    v = network.vocabulary
    n = v.num_words()
    short = v.num_shortlist_words()
    words = [str(v.id_to_word[i]) for i in range(n)]
    ids = numpy.arange(n).reshape(-1, 1)
    class_ids, probs = v.get_class_memberships(ids)
    d = {'words': words, 'ids': sorted((str(w), int(i)) for w, i in v.word_to_id.items()), 'shortlist': int(short),
         'in_shortlist': [bool(v.in_shortlist(i)) for i in range(n)], 'num_classes': int(v.num_classes()), 'num_normal_classes': int(v.num_normal_classes),
         'classes': [int(x) for x in class_ids[:, 0]], 'word_probs': [float(x) for x in probs[:, 0]],
         'oos_probs': None, 'class_probs': None}
    if v.has_unigram_probs():
        d['oos_probs'] = [float(x) for x in v.get_oos_probs()]
        d['class_probs'] = [float(x) for x in v.get_class_probs()]
    a = network.architecture

    def plain(x):
        return [str(y) for y in x] if isinstance(x, (list, tuple)) else str(x)
    d['inputs'] = [sorted((k, plain(x)) for k, x in i.items()) for i in a.inputs]
    d['layers'] = [sorted((k, plain(x)) for k, x in i.items() if k != 'devices') for i in a.layers]
    d['output'] = str(a.output_layer)
    return d


def eq(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or (a != 0.0 and b != 0.0 and close(a, b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def diff(a, b):
    for k in sorted(a):
        if not eq(a[k], b[k]):
            return k
    return None


def probe_lines(plan):
    """A text that contains every word, in several contexts."""
    m = plan['model']
    words = m['words'] + m['oos'] + ['oov0']
    n = 7
    out = [['<s>'] + words[i:i + n] + ['</s>'] for i in range(0, len(words), n)]
    out.append(['<s>'] + words[::-3] + ['</s>'])
    return out


class Probe:
    def __init__(self, plan, network):
        self.network = network
        self.lines = probe_lines(plan)
        self.scorers = [TextScorer(network, use_shortlist=True), TextScorer(network, use_shortlist=False)]
        self.info = describe(network)

    def score(self):
        out = []
        for s in self.scorers:
            for ws in self.lines:
                out += score_words(s, self.network.vocabulary, ws)
        return out


# ---------------------------------------------------------------- lives

def life_hooks(plan, life, model, record):
    """Installs the recording in the training process.  ``record`` is the file
    that it goes to, in one piece per state, so that it survives a kill."""
    initialize = Trainer.initialize
    f = open(record, 'ab', 0)
    state = {'probe': None, 'updates': 0, 'image': cmds.get(model), 'n': 0}

    def put(*x):
        f.write(pickle.dumps(x))

    def look():
        image = cmds.get(model)
        if image != state['image']:
            state['image'] = image
            state['n'] += 1
            put('image', image)
        put('state', state['updates'], state['probe'].score())

    def wrapped(self, network, st, optimizer, *args, **kwargs):
        # what the scorers need is compiled without touching the random numbers
        result = initialize(self, network, st, optimizer, *args, **kwargs)
        rs2 = numpy.random.get_state()
        state['probe'] = Probe(plan, network)
        numpy.random.set_state(rs2)
        put('info', state['probe'].info)
        look()
        update = optimizer.update_minibatch

        def hooked(*a, **k):
            r = update(*a, **k)
            state['updates'] += 1
            look()
            if life['kill'] and state['updates'] == life['kill'][0]:
                def die():
                    os.kill(os.getpid(), signal.SIGKILL)
                LineBomb(life['kill'][1], HarnessError('killed'), before=die).arm()
            return r
        optimizer.update_minibatch = hooked
        set_state = network.set_state

        def restoring(*a, **k):
            put('restore')
            return set_state(*a, **k)
        network.set_state = restoring
        return result
    Trainer.initialize = wrapped


def read_record(path):
    out = []
    with open(path, 'rb') as f:
        while True:
            try:
                out.append(pickle.load(f))
            except (EOFError, pickle.UnpicklingError):
                return out


class Run:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.root = os.path.join(ctx.scratch, 'disk')
        os.mkdir(self.root)
        p = self.path
        m = plan['model']
        for i, t in enumerate(plan['text']):
            cmds.put(p('train%d.txt' % i), lines(t))
        cmds.put(p('dev.txt'), lines(plan['dev']))
        cmds.put(p('arch'), lines(plan['arch']))
        kind = plan['vocab']
        words = list(zip(m['words'], plan['classes'])) + [(w, [100 + i, '1']) for i, w in enumerate(plan['special'])]
        if kind == 'words':
            cmds.put(p('vocab'), lines(w for w, _ in words))
        elif kind == 'classes':
            cmds.put(p('vocab'), lines('%s %d' % (w, c[0]) for w, c in words))
        elif kind == 'srilm-classes':
            cmds.put(p('vocab'), lines('CLASS-%d %s %s' % (c[0], c[1], w) for w, c in words))
        self.known = []             # (info, scores) that a training process had
        self.loaded = 0
        self.kills = self.restores = 0

    def path(self, name):
        return os.path.join(self.root, name)

    def argv(self):
        plan, p = self.plan, self.path
        a = ['train', p('model.h5'), '--training-set'] + [p('train%d.txt' % i) for i in range(len(plan['text']))]
        a += ['--architecture', p('arch'), '--random-seed', str(plan['seed']), '--optimization-method', plan['opt'], '--learning-rate', str(plan['lr']),
              '--min-epochs', '0', '--max-epochs', str(plan['epochs']), '--patience', str(plan['patience']), '--stopping-criterion', 'annealing-count', '--max-annealing-count', '2',
              '--batch-size', str(plan['B']), '--sequence-length', '12', '--validation-frequency', str(plan['f']),
              '--log-file', os.path.join(self.ctx.scratch, 'log')]
        if plan['vocab'] == 'num-classes':
            a += ['--num-classes', '3']
        elif plan['vocab'] != 'none':
            a += ['--vocabulary', p('vocab'), '--vocabulary-format', plan['vocab']]
        if plan['validation']:
            a += ['--validation-file', p('dev.txt')]
        return a

    def legacy(self):
        """Makes the file one that an older version would have written."""
        path = self.path('model.h5')
        try:
            with h5py.File(path, 'r+') as f:
                v = f.get('vocabulary')
                if v is None or 'unigram_probs' not in v or 'layers' not in f:
                    return False
                del v['unigram_probs']
                words = v['words'][...]
                n = v['classes'].shape[0]
                del v['words']
                v.create_dataset('words', data=words[:n], dtype=h5py.special_dtype(vlen=str))
        except OSError:
            return False
        return True

    def load(self, path):
        """A model file as another process gets it."""
        plan = self.plan

        def fn():
            probe = Probe(plan, Network.from_file(path))
            return probe.info, probe.score()
        return isolated(fn)

    def command_scores(self, path):
        """Scores of the probe text, by the score command."""
        p = self.path
        text = p('probe.txt')
        cmds.put(text, lines(' '.join(x[1:-1]) for x in probe_lines(self.plan)))
        out = p('scores')
        r = cmds.run('theanolm', ['score', path, text, '--output', 'utterance-scores', '--output-file', out, '--log-file', os.path.join(self.ctx.scratch, 'log')],
                     self.root, log=False)
        if r.status:
            raise Violation('load-failed', 'score ended with status %s on a saved model' % r.status)
        got = []
        for x in cmds.get(out).decode().split('\n'):
            f = x.split()
            if len(f) >= 2 and f[0] == 'Sentence':
                pass
            try:
                got.append(float(f[0]))
            except (ValueError, IndexError):
                pass
        return got

    def check_image(self, path, where):
        self.ctx.steps += 1
        self.loaded += 1
        info, scores = self.load(path)
        if not any(diff(x, info) is None for x, _ in self.known):
            raise Violation('other-vocabulary' if diff(self.known[-1][0], info) not in ('inputs', 'layers', 'output') else 'other-architecture',
                            '%s: the model file gives other %s than training had' % (where, diff(self.known[-1][0], info)))
        hits = [k for k, (x, s) in enumerate(self.known) if same(s, scores) and diff(x, info) is None]
        if not hits:
            best = min(range(len(self.known)), key=lambda k: sum(1 for a, b in zip(self.known[k][1], scores) if not close(a, b)))
            raise Violation('other-scores', '%s: the model file gives the probe text scores that training never had (closest state differs in %d of %d)' % (
                where, sum(1 for a, b in zip(self.known[best][1], scores) if not close(a, b)), len(scores)))
        return info, scores, hits

    def live(self, k, life):
        plan, ctx = self.plan, self.ctx
        model = self.path('model.h5')
        record = os.path.join(ctx.scratch, 'record%d' % k)
        r = cmds.run('theanolm', self.argv(), self.root, log=False, before=lambda: life_hooks(plan, life, model, record))
        rec = read_record(record) if os.path.exists(record) else []
        states = [x for x in rec if x[0] == 'state']
        info = next((x[1] for x in rec if x[0] == 'info'), None)
        killed = r.status == -signal.SIGKILL
        if r.status and not killed:
            raise Violation('train-failed', 'training ended with status %s in life %d' % (r.status, k))
        ctx.event('life', k, r.status, len(states), len([x for x in rec if x[0] == 'image']))
        ctx.steps += len(states)
        if killed:
            self.kills += 1
            ctx.fault('kill')
        if info is None:
            raise HarnessError('training was not observed')
        self.restores += sum(1 for x in rec if x[0] == 'restore')
        if any(x != x for s in states for x in s[2] if x is not None):
            ctx.probe('nan')
            return None
        first = [(info, s[2]) for s in states[:1]]
        self.known += [(info, s[2]) for s in states]
        images = [x[1] for x in rec if x[0] == 'image'][-life['images']:]
        return first, images

    def run(self):
        plan, ctx = self.plan, self.ctx
        model = self.path('model.h5')
        prev = None
        for k, life in enumerate(plan['lives']):
            if life['legacy'] and prev is not None and self.legacy():
                ctx.fault('older-file')
                prev = self.load(model)
                self.known.append(prev)
            res = self.live(k, life)
            if res is None:
                return
            first, images = res
            # training itself continues with what the others load
            if prev is not None and prev[0]['oos_probs'] is None and first:
                # an older file: words are added, the predictions stay the same
                n = len(prev[1]) // 2
                if not same(prev[1][n:], first[0][1][n:]):
                    raise Violation('other-scores', 'life %d of training does not start with the parameters of its model file' % k)
            elif prev is not None and first:
                if diff(prev[0], first[0][0]) is not None:
                    raise Violation('other-vocabulary', 'life %d of training has other %s than the file it was started from' % (k, diff(prev[0], first[0][0])))
                if not same(prev[1], first[0][1]):
                    raise Violation('other-scores', 'life %d of training does not start with the parameters of its model file' % k)
            seen = None
            for i, image in enumerate(images):
                if image is None:
                    continue
                path = self.path('image%d-%d.h5' % (k, i))
                cmds.put_raw(path, image)
                if not self.trained(path):
                    continue
                seen = self.check_image(path, 'image %d of life %d' % (i, k))
                os.unlink(path)
            final = cmds.get(model)
            if final is None or not self.trained(model):
                ctx.probe('nothing-saved')
                prev = None
                continue
            if not (images and images[-1] == final and seen):
                seen = self.check_image(model, 'end of life %d' % k)
            ctx.event('loaded', seen[2][:3], [round(x, 9) if x is not None else None for x in seen[1][:4]])
            if life['score']:
                got = self.command_scores(model)
                want = self.utterance_scores(seen)
                ctx.probe('command')
                if not (len(got) == len(want) and all(abs(a - b) < 1e-4 * max(1, abs(b)) for a, b in zip(got, want))):
                    raise Violation('other-command-scores', 'the score command gives %r, training gave %r' % (got[:4], want[:4]))
            prev = (seen[0], seen[1])

    def utterance_scores(self, seen):
        """Log probabilities of the probe utterances with a full vocabulary."""
        n = 0
        out = []
        ls = probe_lines(self.plan)
        scores = seen[1][len(seen[1]) // 2:]
        for ws in ls:
            s = scores[n:n + len(ws) - 1]
            n += len(ws) - 1
            out.append(sum(x for x in s if x is not None and x > float('-inf')))
        return out

    def trained(self, path):
        try:
            with h5py.File(path, 'r') as f:
                return 'trainer' in f
        except OSError as e:
            raise Violation('unreadable', 'a model file cannot be read: %s' % e)


def run(plan, ctx):
    sim = Run(plan, ctx)
    ctx.event(plan['vocab'], plan['opt'], len(plan['arch']))
    sim.run()
    ctx.probe('vocab:' + plan['vocab'])
    if sum(1 for x in plan['arch'] if x.startswith('input')) > 10:
        ctx.probe('many-inputs')
    if sum(1 for x in plan['arch'] if x.startswith('layer')) > 10:
        ctx.probe('many-layers')
    ctx.probe('loads', sim.loaded)
    if sim.restores:
        ctx.fault('return-to-saved-state', sim.restores)
    ctx.nontrivial = sim.kills > 0 or sim.restores > 0 or sim.loaded > 1
