"""C20: an update depends only on the words that it predicts."""

import os

from sim import disk
from sim import cmds, realnet, scoresim as ss
from sim.core import Violation
from sim.scoresim import numpy, h5py
from sim.trainersim import LineBomb
from theanolm.training import create_optimizer, CrossEntropyCost, NCECost, BlackoutCost
from theanolm.scoring import TextScorer

RUNS = {'quick': 130, 'thorough': 20000}
FROZEN = ('model', 'opt', 'cost', 'seed')
REAL = ['networks, cost functions, optimizers (all methods), TextScorer: real code', 'theanolm train as a whole process (a share of the runs)']
STUB = ['random numbers: real generators, seeded by the plan', 'clock: simulated', 'mini-batches: made by the plan in the format of the batch iterators']
ASSUMPTIONS = ['floatX=float64', 'networks without dropout and GLU layers', 'sampled costs only where noise is shared between the compared mini-batches',
               'the agreement of updates and scores is decided for sgd, to the first order']
RULE = ('Plans: model, optimizer, cost function and its options, and a schedule of updates with mini-batches of any size and content (excluded words, '
        'one-word sequences, several files with weights), aborted updates, scoring, saving and restoring, from VERIF_SEED; or pairs of train commands. '
        'Before each update, forked processes perform the same update with the sequences in another order, with more padding, '
        'each sequence alone, another learning rate instead of the file weight, and in new objects restored from the saved state. Checked: the '
        'results agree; the measured cost changes as the update says; all values stay finite; no update exceeds the maximum norm. '
        'Non-trivial: at least two updates were compared. Distinct: by the hash of the event log.')
RUN_TIMEOUT = 300
SIMTIME = 'one step is one update'
ARCHS = ['mlp', 'lstm', 'gru', 'class', 'multi', 'deep', 'bidir', 'bigru']
COSTS = {'cross-entropy': CrossEntropyCost, 'nce': NCECost, 'blackout': BlackoutCost}


def prepare():
    cmds.prepare()


def gen(rng, index, tier):
    arch = ARCHS[index % len(ARCHS)]
    m = cmds.gen_model(rng, archs=[arch], nwords=rng.choice([3, 5, 8]))
    m['noise'] = rng.choice([0.2, 0.5])
    m['unigram'] = True
    if index % 10 == 9:
        return gen_command(rng, m)
    opt = rng.choice(['sgd'] * 6 + realnet.OPTIMIZERS)
    plan = {'model': m, 'seed': rng.randrange(1 << 30), 'opt': opt, 'cost': 'cross-entropy', 'exclude': rng.random() < 0.5,
            'l1': rng.choice([None, None, None, 0.01]), 'l2': rng.choice([None, None, None, 0.02]), 'norm': rng.choice([1e6, 1e6, 1e6, 5.0, 0.05]),
            'lr': rng.choice([1.0, 0.1, 0.01]), 'weights': [1.0] + [rng.choice([1.0, 0.5, 0.25, 2.0, 0.3, 0.0]) for _ in range(2)], 'steps': []}
    if arch != 'multi' and rng.random() < 0.25:
        plan['cost'] = rng.choice(['nce', 'blackout'])
        plan['sharing'] = rng.choice(['batch', 'batch', 'seq', None])
        plan['noise'] = rng.choice(['uniform', 'unigram', 'log-uniform'])
        plan['samples'] = rng.choice([1, 3])
        if plan['noise'] == 'unigram':
            # sampled without replacement: there must be enough classes
            plan['samples'] = 1
            if plan['sharing'] == 'seq':
                plan['sharing'] = 'batch'
    for _ in range(rng.choice([2, 3, 4])):
        r = rng.random()
        if r < 0.15:
            plan['steps'].append({'op': rng.choice(['score', 'save', 'restore'])})
        plan['steps'].append(gen_update(rng, m, 'abort' if rng.random() < 0.15 else 'update'))
    plan['fresh'] = rng.random() < 0.5
    return plan


def gen_update(rng, m, op):
    words = m['words']
    seqs = []
    style = rng.choice(['mixed', 'mixed', 'mixed', 'unknown', 'pieces'])
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        n = rng.choice([1, 1, 2, 3, 5, 8])
        ws = [rng.choice(words) if rng.random() < 0.8 and style != 'unknown' else '<unk>' for _ in range(n)]
        if style == 'mixed':
            ws = ['<s>'] + ws + ['</s>']
        else:
            # pieces of sentences that were cut at the maximum length
            kind = rng.random()
            if kind < 0.4 or len(ws) < 2:
                ws = ['<s>'] + ws
            elif kind < 0.6 and style != 'unknown':
                ws = ws + ['</s>']
        seqs.append([rng.choice([0, 0, 1, 2]), ws])
    return {'op': op, 'seqs': seqs, 'seed': rng.randrange(1 << 30), 'pad': rng.choice([1, 2, 6]), 'lines': rng.randrange(1, 20)}


def gen_command(rng, m):
    text = cmds.gen_text(rng, m, rng.choice([4, 9]), lengths=(1, 2, 4, 7), empty=0.1)
    if rng.random() < 0.6:
        text += [' '.join(['oov%d' % i for i in range(rng.choice([2, 3, 5, 8]))]) for _ in range(3)]
    return {'model': m, 'seed': rng.randrange(1 << 30), 'opt': rng.choice(realnet.OPTIMIZERS), 'cost': 'cross-entropy', 'command': True,
            'text': text, 'batch': rng.choice([1, 1, 2, 4]), 'length': rng.choice([2, 3, None]), 'exclude': rng.random() < 0.7,
            'weight': rng.choice([0.5, 0.25, 2.0]), 'lr': rng.choice([0.5, 0.125]), 'epochs': rng.choice([1, 2])}


def valid_plan(plan):
    return bool(plan.get('command')) or bool(plan['steps'])


# ---------------------------------------------------------------- objects

class World:
    def __init__(self, plan, path):
        self.plan = plan
        self.path = path
        self.voc = cmds.make_vocabulary(plan['model'])
        self.net = realnet.build_network(plan['model']['arch'], self.voc, seed=plan['seed'] % (1 << 31))
        with h5py.File(path, 'r') as f:
            self.net.set_state(f)
        if plan['cost'] != 'cross-entropy':
            self.net.set_sampling(plan['noise'], 0.5, plan['sharing'])
        unk = self.voc.word_to_id['<unk>']
        eps = 1e-12 if plan['opt'] in ('sgd', 'nesterov') and plan['cost'] == 'cross-entropy' else 1e-6
        cost = COSTS[plan['cost']](self.net, unk if plan['exclude'] else None, plan['l1'], plan['l2'], eps)
        options = {'method': plan['opt'], 'epsilon': eps, 'gradient_decay_rate': 0.9, 'sqr_gradient_decay_rate': 0.99,
                   'learning_rate': plan['lr'], 'weights': numpy.asarray(plan['weights'], dtype='float64'), 'momentum': 0.8,
                   'max_gradient_norm': plan['norm'], 'num_noise_samples': plan.get('samples', 1), 'noise_sharing': plan.get('sharing')}
        self.opt = create_optimizer(options, self.net, cost)
        self.unk = unk

    def matrices(self, seqs, pad=0):
        length = max(len(ws) for _f, ws in seqs) + pad
        ids = numpy.full((length, len(seqs)), self.unk, dtype='int64')
        files = numpy.zeros(ids.shape, 'int64')
        mask = numpy.zeros(ids.shape, 'int8')
        for i, (f, ws) in enumerate(seqs):
            for k, w in enumerate(ws):
                ids[k, i] = self.voc.word_to_id[w]
                files[k, i] = f
                mask[k, i] = 1
        return ids, self.voc.get_class_memberships(ids)[0], files, mask

    def update(self, seqs, pad=0):
        self.opt.update_minibatch(*self.matrices(seqs, pad))

    def values(self):
        return realnet.state_values(self.net, self.opt)

    def params(self):
        return {k: v for k, v in realnet.state_values(self.net).items() if k.startswith('layers/')}

    def set_params(self, values):
        with h5py.File('params', 'w', driver='core', backing_store=False) as f:
            self.net.get_state(f)
            for k, v in values.items():
                f[k][...] = v
            self.net.set_state(f)


def predicted(seqs, exclude):
    return sum(1 for _f, ws in seqs for w in ws[1:] if not (exclude and w == '<unk>'))


def mean_weight(seqs, weights):
    ws = [weights[f] for f, s in seqs for _ in s[1:]]
    return sum(ws) / len(ws)


def difference(a, b):
    """The largest difference of two sets of values, relative to their size."""
    worst, where = 0.0, None
    if sorted(a) != sorted(b):
        return float('inf'), 'names'
    for k in sorted(a):
        x, y = numpy.asarray(a[k], 'float64'), numpy.asarray(b[k], 'float64')
        if x.shape != y.shape:
            return float('inf'), k
        if not (numpy.isfinite(x).all() and numpy.isfinite(y).all()):
            return float('inf'), k
        d = float((abs(x - y) / (1.0 + abs(x))).max()) if x.size else 0.0
        if d > worst:
            worst, where = d, k
    return worst, where


def length(values):
    return float(numpy.sqrt(sum((numpy.asarray(v) ** 2).sum() for v in values.values())))


# ---------------------------------------------------------------- runs

class Sim:
    TOL = 1e-6

    def __init__(self, plan, ctx, path, root):
        self.plan = plan
        self.ctx = ctx
        self.root = root
        self.w = World(plan, path)
        self.scorer = None
        if plan['cost'] == 'cross-entropy':
            self.scorer = TextScorer(self.w.net, use_shortlist=False, exclude_unk=plan['exclude'])
        self.compared = 0
        self.last = max((i for i, op in enumerate(plan['steps']) if op['op'] == 'update'), default=None)

    def same(self, got, want, kind, where, what, tol=None):
        d, name = difference(want, got)
        if d > (tol or self.TOL):
            raise Violation(kind, '%s: %s gives different values (%s differs by %.3g; %s, %s, %s)'
                            % (where, what, name, d, self.plan['model']['arch'], self.plan['opt'], self.plan['cost']))
        self.ctx.probe(kind)
        self.compared += 1

    def after(self, seqs, pad=0, lr=None):
        """The state after an update, by a forked process."""
        def fn():
            if lr is not None:
                self.w.opt.learning_rate = lr
            self.w.update(seqs, pad)
            return self.w.values()
        return ss.isolated(fn)

    def step(self, i, op):
        plan, w = self.plan, self.w
        where = 'step %d (%s)' % (i, op['op'])
        self.ctx.probe('op:' + op['op'])
        if op['op'] == 'score':
            if self.scorer:
                ss.score_words(self.scorer, w.voc, ['<s>'] + plan['model']['words'][:2] + ['</s>'])
        elif op['op'] == 'save':
            with h5py.File(os.path.join(self.root, 'state.h5'), 'w') as f:
                w.net.get_state(f)
                w.opt.get_state(f)
        elif op['op'] == 'restore':
            if os.path.exists(os.path.join(self.root, 'state.h5')):
                with h5py.File(os.path.join(self.root, 'state.h5'), 'r') as f:
                    w.net.set_state(f)
                    w.opt.set_state(f)
        elif op['op'] == 'abort':
            self.abort(op, where)
        else:
            self.update(i, op, where)

    def abort(self, op, where):
        before = self.w.values()
        want = self.after(op['seqs'])
        bomb = LineBomb(op['lines'], RuntimeError('simulated'))
        bomb.arm()
        try:
            self.w.update(op['seqs'])
        except RuntimeError as e:
            if 'simulated' not in str(e):
                raise
            self.ctx.fault('aborted-update')
        finally:
            bomb.disarm()
        got = self.w.values()
        if difference(before, got)[0] > 0 and difference(want, got)[0] > self.TOL:
            raise Violation('torn-update', '%s: an update that was interrupted happened in part' % where)

    def update(self, i, op, where):
        plan, w, ctx = self.plan, self.w, self.ctx
        rng = numpy.random.RandomState(op['seed'] % (1 << 31))
        seqs = op['seqs']
        ce = plan['cost'] == 'cross-entropy'
        start = w.params()
        n = predicted(seqs, plan['exclude'])
        weight = mean_weight(seqs, plan['weights'])
        want = self.after(seqs)
        for k, v in sorted(want.items()):
            if not numpy.isfinite(v).all():
                raise Violation('not-finite', '%s: values of %s are not finite after an update with %d words to predict' % (where, k, n))
        if n == 0:
            ctx.probe('nothing-to-predict')
        if len(seqs) > 1 and (ce or plan['sharing']):
            order = [seqs[j] for j in rng.permutation(len(seqs))]
            self.same(self.after(order), want, 'order', where, 'another order of the sequences')
        if ce or plan['sharing'] == 'batch':
            self.same(self.after(seqs, pad=op['pad']), want, 'padding', where, 'more padding')
        if plan['fresh'] and i == self.last:
            self.fresh(seqs, want, where)
        f = 1 + int(rng.randint(2))
        a = self.after([[f, s] for _f, s in seqs])
        b = self.after([[0, s] for _f, s in seqs], lr=w.opt.learning_rate * plan['weights'][f])
        self.same(a, b, 'weight', where, 'a file with weight %s' % plan['weights'][f])
        delta = {k: want[k] - start[k] for k in start}
        if plan['opt'] == 'sgd':
            limit = w.opt.learning_rate * weight * plan['norm']
            if length(delta) > limit * (1 + 1e-6) + 1e-12:
                raise Violation('norm', '%s: the parameters change by %g, the limit is %g' % (where, length(delta), limit))
        if plan['opt'] == 'sgd' and ce and plan['norm'] >= 1e6:
            self.law(seqs, delta, start, n, weight, where)
            if weight > 0:
                self.gradient(seqs, start, n, weight, where)
        # what the history has left behind
        w.update(seqs)
        got = w.values()
        self.same(got, want, 'again', where, 'the update itself')
        ctx.event('update', i, n, round(length(delta), 9))
        ctx.steps += 1

    def law(self, seqs, delta, start, n, weight, where):
        """The update is the average over the predicted words."""
        if len(seqs) < 2:
            return
        total = {k: numpy.zeros_like(v) for k, v in start.items()}
        for f, s in seqs:
            k = predicted([[f, s]], self.plan['exclude'])
            if not k:
                continue
            # alone, with weight one
            v = self.after([[0, s]])
            for name in total:
                total[name] += k * (v[name] - start[name])
        if n == 0:
            return
        want = {k: start[k] + total[k] * weight / n for k in total}
        got = {k: start[k] + delta[k] for k in total}
        self.same(got, want, 'average', where, 'the mean of the updates by its sequences')

    def cost(self, seqs):
        """The cost of the mini-batch according to the scorer."""
        total, n = 0.0, 0
        for _f, s in seqs:
            for x in ss.score_words(self.scorer, self.w.voc, s):
                if x is not None:
                    total -= x
                    n += 1
        cost = total / max(1, n)
        p = self.w.params()
        if self.plan['l1'] is not None:
            cost += self.plan['l1'] * sum(float(abs(v).sum()) for v in p.values())
        if self.plan['l2'] is not None:
            cost += self.plan['l2'] * sum(float((v ** 2).sum()) for v in p.values())
        return cost

    def gradient(self, seqs, start, n, weight, where):
        """The measured cost changes as much as the update says."""
        lr = 1e-4 / weight

        def fn():
            w = self.w
            w.opt.learning_rate = lr
            w.update(seqs)
            delta = {k: v - start[k] for k, v in w.params().items()}
            if self.plan['l1'] is not None and any((abs(start[k]) <= abs(delta[k])).any() for k in start):
                return None             # the norm is not differentiable
            up = self.cost(seqs)
            w.set_params({k: start[k] - delta[k] for k in start})
            return length(delta), self.cost(seqs) - up
        result = ss.isolated(fn)
        if result is None:
            return
        size, change = result
        expected = 2 * size ** 2 / 1e-4
        if abs(change - expected) > 2e-3 * abs(expected) + 1e-10:
            raise Violation('gradient', '%s: the cost changed by %g in a step of length %g, expected %g (%d words, %s)'
                            % (where, change, size, expected, n, self.plan['model']['arch']))
        self.ctx.probe('gradient')

    def fresh(self, seqs, want, where):
        """The same update in new objects."""
        if self.plan['cost'] != 'cross-entropy':
            return
        path = os.path.join(self.root, 'fresh.h5')
        with h5py.File(path, 'w') as f:
            self.w.net.get_state(f)
            self.w.opt.get_state(f)

        def fn():
            w = World(self.plan, self.w.path)
            with h5py.File(path, 'r') as f:
                w.net.set_state(f)
                w.opt.set_state(f)
            w.update(seqs)
            return w.values()
        self.same(ss.isolated(fn), want, 'fresh', where, 'a new process')


def run(plan, ctx):
    root = os.path.join(ctx.scratch, 'disk')
    os.mkdir(root)
    if plan.get('command'):
        run_commands(plan, ctx, root)
        return
    path = os.path.join(root, 'model.h5')
    cmds.write_model(plan['model'], path)
    sim = Sim(plan, ctx, path, root)
    ctx.event(plan['model']['arch'], plan['opt'], plan['cost'])
    for i, op in enumerate(plan['steps']):
        sim.step(i, op)
    ctx.probe('arch:' + plan['model']['arch'])
    ctx.probe('opt:' + plan['opt'])
    ctx.probe('cost:' + plan['cost'])
    ctx.nontrivial = sim.compared >= 2


def run_commands(plan, ctx, root):
    p = lambda name: os.path.join(root, name)
    lines = lambda xs: ''.join(x + '\n' for x in xs)
    m = plan['model']
    cmds.put(p('text'), lines(plan['text']))
    cmds.put(p('arch'), lines(realnet.ARCHS[m['arch']]))
    cmds.put(p('vocab'), lines(m['words']))
    models = []
    for name, lr, weight in (('a', plan['lr'], plan['weight']), ('b', plan['lr'] * plan['weight'], 1.0)):
        model = p(name + '.h5')
        argv = ['train', model, '--training-set', p('text'), '--architecture', p('arch'), '--vocabulary', p('vocab'), '--vocabulary-format', 'words',
                '--random-seed', str(plan['seed']), '--optimization-method', plan['opt'], '--learning-rate', str(lr), '--weights', str(weight),
                '--batch-size', str(plan['batch']), '--max-epochs', str(plan['epochs']), '--log-file', p('log')]
        if plan['length']:
            argv += ['--sequence-length', str(plan['length'])]
        if plan['exclude']:
            argv += ['--exclude-unk']
        r = cmds.run('theanolm', argv, root)
        if r.status:
            raise Violation('fails', 'training exits with status %d: %s' % (r.status, ' '.join(argv)))
        with h5py.File(model, 'r') as f:
            values = {}
            f.visititems(lambda k, v: values.__setitem__(k, v[...]) if isinstance(v, h5py.Dataset) and k.startswith('layers/') else None)
        for k, v in sorted(values.items()):
            if not numpy.isfinite(v).all():
                raise Violation('not-finite', 'the values of %s are not finite after training (%s)' % (k, ' '.join(argv)))
        models.append(values)
        ctx.steps += 1
    d, name = difference(models[0], models[1])
    if d > 1e-6:
        raise Violation('weight', 'training with weight %s and with that times the learning rate differ (%s by %.3g)' % (plan['weight'], name, d))
    ctx.event('command', plan['opt'], m['arch'])
    ctx.probe('command')
    ctx.nontrivial = True
