"""Incomplete or incompatible model files are refused, never used silently."""
import errno
import os

from sim import cmds, realnet
from sim import disk
from sim.checks.c08 import content, difference, lines
from sim.core import Violation, HarnessError
from sim.realnet import h5py

RUNS = {'quick': 110, 'thorough': 6000}
FROZEN = ('model', 'train', 'text', 'dev', 'arch')
REAL = ['theanolm train (which also writes the model file), score, decode and sample as whole processes: ModelFile, Vocabulary, Architecture, Network, optimizer, trainer and iterator states']
STUB = ['reads of the model file: failed or cut short as the plan says', 'clock: simulated']
ASSUMPTIONS = ['optional parts that older versions did not write may be missing: cost_history, unigram_probs, words_left, devices; a file that contains only a vocabulary is the start of a training',
               'values inside the file are not altered']
RULE = ('Plans: a model trained and saved by the real command, then damaged files (truncated at a random length, any stored dataset, group or position '
        'removed, a part of the vocabulary shortened), other architectures, other optimizers, and failing reads of the file, each given to a command, from VERIF_SEED. Allowed: the command '
        'fails and leaves the file as it was, or its result is exactly the one it gives with the complete file. Non-trivial: at least one file was refused. '
        'Distinct: by the hash of the event log.')
RUN_TIMEOUT = 300
SIMTIME = 'one step is one process'

ARCHS = {k: realnet.ARCHS[k] for k in ('mlp', 'lstm', 'gru', 'class', 'multi', 'deep')}
ARCHS['relu'] = ['input type=word name=word_input', 'layer type=projection name=projection_layer input=word_input size=4',
                 'layer type=fc name=hidden_layer input=projection_layer size=5 activation=relu',
                 'layer type=softmax name=output_layer input=hidden_layer']
ARCHS['dropout'] = ['input type=word name=word_input', 'layer type=projection name=projection_layer input=word_input size=4',
                    'layer type=dropout name=drop input=projection_layer dropout_rate=0.3', 'layer type=tanh name=hidden_layer input=drop size=5',
                    'layer type=softmax name=output_layer input=hidden_layer']
# what the methods keep for every parameter
STATE = {'sgd': '', 'nesterov': 'v', 'adagrad': 's', 'adadelta': 'gd', 'rmsprop-sgd': 'g', 'rmsprop-nesterov': 'gv', 'adam': 'gmt'}
OPTIONAL = ('cost_history', 'unigram_probs', 'words_left', 'devices')


def prepare():
    cmds.prepare()


def gen(rng, index, tier):
    arch = sorted(ARCHS)[index % len(ARCHS)]
    m = cmds.gen_model(rng, archs=['mlp'], nwords=8)
    plan = {'model': m, 'arch': arch, 'text': cmds.gen_text(rng, m, rng.choice([17, 24]), empty=0), 'dev': cmds.gen_text(rng, m, 4, empty=0),
            'train': {'vocab': rng.choice(['words', 'classes', 'none']), 'opt': rng.choice(realnet.OPTIMIZERS), 'validation': rng.random() < 0.5},
            'seed': rng.randrange(1 << 31), 'tests': []}
    for _ in range(5):
        t = {'cmd': rng.choice(['train', 'train', 'score', 'decode', 'sample']),
             'kind': rng.choice(['truncate', 'remove', 'remove', 'remove', 'arch', 'arch', 'opt', 'read', 'shorten']), 'n': rng.randrange(1 << 30)}
        if t['kind'] in ('arch', 'opt'):
            t['cmd'] = 'train'
        if t['cmd'] == 'sample' and arch == 'multi':
            t['cmd'] = 'score'
        plan['tests'].append(t)
    return plan


def valid_plan(plan):
    return bool(plan['tests']) and any(x.strip() for x in plan['text']) and any(x.strip() for x in plan['dev'])


def shrink(plan):
    for t in plan['tests']:
        if len(plan['tests']) > 1:
            yield dict(plan, tests=[t])


# ---------------------------------------------------------------- architectures

def other_archs(desc):
    """Descriptions of other networks, by name."""
    out = {}

    def edit(name, k, line):
        new = list(desc)
        new[k] = line
        if new != desc:
            out['%s-%d' % (name, k)] = new

    for k, line in enumerate(desc):
        f = line.split()
        for i, x in enumerate(f):
            key, _, value = x.partition('=')
            if key == 'size':
                edit('size', k, ' '.join(f[:i] + ['size=%d' % (int(value) + 1)] + f[i + 1:]))
            elif key == 'type' and value in ('lstm', 'gru', 'softmax', 'hsoftmax', 'highwaytanh', 'word', 'class'):
                new = {'lstm': 'gru', 'gru': 'lstm', 'softmax': 'hsoftmax', 'hsoftmax': 'softmax', 'highwaytanh': 'tanh', 'word': 'class', 'class': 'word'}[value]
                edit('type', k, ' '.join(f[:i] + ['type=' + new] + f[i + 1:]))
            elif key == 'activation':
                edit('activation', k, ' '.join(f[:i] + ['activation=leakyrelu'] + f[i + 1:]))
                edit('no-activation', k, ' '.join(f[:i] + f[i + 1:]))
            elif key == 'dropout_rate':
                edit('dropout', k, ' '.join(f[:i] + ['dropout_rate=0.6'] + f[i + 1:]))
                edit('no-dropout', k, ' '.join(f[:i] + f[i + 1:]))
        ins = [i for i, x in enumerate(f) if x.startswith('input=')]
        if len(ins) > 1:
            edit('fewer-inputs', k, ' '.join(f[:ins[-1]] + f[ins[-1] + 1:]))
            g = list(f)
            g[ins[0]], g[ins[1]] = g[ins[1]], g[ins[0]]
            edit('swapped-inputs', k, ' '.join(g))
        if f[0] == 'layer' and 'type=tanh' in line:
            edit('added-activation', k, line + ' activation=relu')
    # a layer more, a layer less, renamed layers
    last = desc[-1].split()
    src = next(x for x in last if x.startswith('input='))[6:]
    out['more-layers'] = desc[:-1] + ['layer type=tanh name=extra_layer input=%s size=4' % src, desc[-1].replace('input=' + src, 'input=extra_layer')]
    out['renamed'] = desc[:-1] + [desc[-1].replace('name=output_layer', 'name=other_output')]
    prev = desc[-2].split()
    psrc = [x for x in prev if x.startswith('input=')]
    pname = next(x for x in prev if x.startswith('name='))[5:]
    if prev[0] == 'layer' and len(psrc) == 1 and not any('input=' + pname in x for x in desc[:-1]):
        out['less-layers'] = desc[:-2] + [desc[-1].replace('input=' + pname, psrc[0])]
    return out


# ---------------------------------------------------------------- run

class Run:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.root = os.path.join(ctx.scratch, 'disk')
        os.mkdir(self.root)
        self.n = 0
        p = self.path
        m = plan['model']
        t = plan['train']
        cmds.put(p('train.txt'), lines(plan['text']))
        cmds.put(p('dev.txt'), lines(plan['dev']))
        cmds.put(p('arch'), lines(ARCHS[plan['arch']]))
        classes = m.get('classes') or [i % 3 for i in range(len(m['words']))]
        cmds.put(p('vocab'), lines('%s %d' % x for x in zip(m['words'], classes)) if t['vocab'] == 'classes' else lines(m['words']))
        cmds.put(p('text.txt'), lines(plan['dev'] + plan['text'][:3]))
        lat = cmds.gen_lattice(__import__('random').Random(plan['seed']), m, n=5)
        cmds.put(p('lat.slf'), cmds.slf(dict(lat, utt='u')))
        self.results = {}
        r = self.command('train', p('model.h5'), epochs=2)
        if r.status:
            raise Violation('train-failed', 'training ended with status %s' % r.status)
        self.good = cmds.get(p('model.h5'))
        with h5py.File(p('model.h5'), 'r') as f:
            self.trained = 'trainer' in f
            self.objects = []

            def visit(name, obj):
                self.objects.append(name)
            f.visititems(visit)
            self.objects.sort()

    def path(self, name):
        return os.path.join(self.root, name)

    def command(self, cmd, model, epochs=3, arch=None, opt=None, rules=(), reads=False):
        plan, p = self.plan, self.path
        t = plan['train']
        self.n += 1
        self.ctx.steps += 1
        self.out = p('out%d' % self.n)
        log = os.path.join(self.ctx.scratch, 'log%d' % self.n)
        if cmd == 'train':
            argv = ['train', model, '--training-set', p('train.txt'), '--architecture', arch or p('arch'), '--random-seed', str(plan['seed']),
                    '--optimization-method', opt or t['opt'], '--max-epochs', str(epochs), '--patience', '-1', '--stopping-criterion', 'epoch-count',
                    '--batch-size', '2', '--sequence-length', '10', '--validation-frequency', '1', '--log-file', log]
            if t['vocab'] != 'none':
                argv += ['--vocabulary', p('vocab'), '--vocabulary-format', t['vocab']]
            if t['validation']:
                argv += ['--validation-file', p('dev.txt')]
        elif cmd == 'score':
            argv = ['score', model, p('text.txt'), '--output', 'utterance-scores', '--output-file', self.out, '--log-file', log, '--shortlist']
        elif cmd == 'decode':
            argv = ['decode', model, '--lattices', p('lat.slf'), '--output', 'full', '--n-best', '5', '--output-file', self.out, '--log-file', log]
        else:
            argv = ['sample', model, '--random-seed', str(plan['seed']), '--num-sentences', '4', '--sentence-length', '8', '--output-file', self.out]
        return cmds.run('theanolm', argv, self.root, log=False, rules=rules, reads=reads)

    def outcome(self, cmd, model, r):
        if cmd == 'train':
            return content(model)
        return cmds.get(self.out)

    def intact(self, cmd):
        """The result of the command with the complete file."""
        if cmd not in self.results:
            model = self.path('intact-%s-model.h5' % cmd)
            cmds.put_raw(model, self.good)
            r = self.command(cmd, model)
            if r.status:
                raise Violation('intact-refused', '%s ended with status %s on a model file that training had written' % (cmd, r.status))
            self.results[cmd] = self.outcome(cmd, model, r)
        return self.results[cmd]

    def damage(self, t, model):
        """Creates the file for a test.  Returns a description and the options."""
        n = t['n']
        if t['kind'] == 'truncate':
            size = 1 + n % (len(self.good) - 1)
            if n % 3 == 0:
                size = len(self.good) - 1 - n % min(400, len(self.good) - 2)
            cmds.put_raw(model, self.good[:size])
            return 'truncated to %d of %d bytes' % (size, len(self.good)), {}
        cmds.put_raw(model, self.good)
        if t['kind'] == 'remove':
            with h5py.File(model, 'r+') as f:
                cands = [x for x in self.objects if x.split('/')[-1] not in OPTIONAL]
                for g in ('trainer', 'iterator', 'architecture'):
                    if g in f:
                        cands += [g + '@' + a for a in f[g].attrs if a not in OPTIONAL]
                for g in ('architecture/inputs', 'architecture/layers'):
                    for k in f[g]:
                        cands += ['%s/%s@%s' % (g, k, a) for a in ('type', 'name') if a in f[g][k].attrs]
                # top groups and training positions more often than single arrays
                cands.sort()
                weight = [x for x in cands if x.count('/') == 0] * 3 + [x for x in cands if x.startswith(('trainer', 'iterator', 'optimizer'))] + cands
                what = weight[n % len(weight)]
                if '@' in what:
                    g, a = what.split('@')
                    del f[g].attrs[a]
                else:
                    del f[what]
            return 'without ' + what, {}
        if t['kind'] == 'arch':
            others = other_archs(ARCHS[self.plan['arch']])
            name = sorted(others)[n % len(others)]
            path = self.path('arch%d' % self.n)
            cmds.put(path, lines(others[name]))
            return 'with another architecture (%s)' % name, {'arch': path}
        if t['kind'] == 'opt':
            # methods that need something that the file does not contain
            has = STATE[self.plan['train']['opt']]
            others = [x for x in sorted(STATE) if set(STATE[x]) - set(has)]
            if not others:
                return 'with another optimizer', {'opt': None}
            opt = others[n % len(others)]
            return 'of another optimizer (%s, now %s)' % (self.plan['train']['opt'], opt), {'opt': opt}
        if t['kind'] == 'shorten':
            with h5py.File(model, 'r+') as f:
                cands = [x for x in ('words', 'classes', 'probs', 'unigram_probs') if x in f['vocabulary']]
                what = 'vocabulary/' + cands[n % len(cands)]
                old = f[what]
                value, dtype = old[()][:-1], old.dtype
                if what == 'vocabulary/words':
                    dtype = h5py.special_dtype(vlen=str)
                del f[what]
                f.create_dataset(what, data=value, dtype=dtype)
            return 'without the last element of ' + what, {}
        kind = [disk.K_ERRNO, disk.K_ERRNO | disk.STICKY, disk.K_EOF, disk.K_ERRNO][n % 4]
        return 'whose reading fails', {'rules': [(disk.C_READ, (n >> 8) % 12, kind, errno.EIO, os.path.basename(model))], 'reads': True}

    def test(self, k, t):
        cmd = t['cmd']
        want = self.intact(cmd)
        model = self.path('test%d-model.h5' % k)
        what, options = self.damage(t, model)
        if t['kind'] == 'opt' and options['opt'] is None:
            return False
        before = cmds.get(model)
        r = self.command(cmd, model, **options)
        refused = r.status != 0
        self.ctx.event(k, cmd, what, r.status)
        self.ctx.fault(t['kind'])
        if refused:
            self.ctx.probe('refused')
            if cmds.get(model) != before:
                raise Violation('file-changed', '%s refused a model file %s, but changed it' % (cmd, what))
            return True
        self.ctx.probe('accepted:' + t['kind'])
        got = self.outcome(cmd, model, r)
        if t['kind'] in ('arch', 'opt'):
            raise Violation('accepted-' + t['kind'], 'train went on from a model file %s' % what)
        if cmd == 'train':
            # what is not restored may also be missing or written again later
            got, ref = dict(got), dict(want)
            for x in list(ref):
                if x not in got and t['kind'] == 'remove':
                    del ref[x]
        else:
            ref = want
        if got != ref:
            raise Violation('accepted-' + t['kind'], '%s used a model file %s; the result differs from that of the complete file: %s' % (cmd, what, difference(ref, got)))
        return False


def run(plan, ctx):
    sim = Run(plan, ctx)
    ctx.event(plan['arch'], plan['train'], len(sim.objects), sim.trained)
    refused = 0
    for k, t in enumerate(plan['tests']):
        if not sim.trained:
            # nothing was saved: no validation improved
            ctx.probe('nothing-saved')
            break
        refused += bool(sim.test(k, t))
    ctx.probe('arch:' + plan['arch'])
    ctx.nontrivial = refused > 0
