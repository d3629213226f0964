"""Same seed and inputs give the same model and the same output."""
import json
import os
import random
import subprocess
import sys

from sim import cmds, fresh, realnet
from sim import disk                                    # noqa: F401
from sim.core import Violation, HarnessError
from sim.realnet import h5py, numpy

RUNS = {'quick': 56, 'thorough': 3000}
FROZEN = ('model', 'train', 'text', 'arch')
REAL = ['theanolm train, score, decode and sample and wctool as whole processes, in new interpreters and in forked ones']
STUB = ['clock: simulated (different rates, steps and jumps back in the repetitions)']
ASSUMPTIONS = ['the same machine, number of threads and numeric libraries in the repetitions', 'the pure Python linker of Theano, floatX=float64']
RULE = ('Plans: command with its options, data and seed, and a list of repetitions with perturbed surroundings (hash seed of a new interpreter, clock '
        'rate and jumps, directory and file names, environment, locale, logging options, random states left by something else, another command run '
        'before in the same process, files left behind) from VERIF_SEED. Every output of every repetition is compared with the first. '
        'Non-trivial: a repetition in a new interpreter with another hash seed took part. Distinct: by the hash of the event log.')
RUN_TIMEOUT = 400
SIMTIME = 'one step is one process'

DROPOUT = ['input type=word name=word_input', 'layer type=projection name=p input=word_input size=4', 'layer type=dropout name=d input=p dropout_rate=0.4',
           'layer type=gru name=h input=d size=4', 'layer type=dropout name=d2 input=h dropout_rate=0.2', 'layer type=softmax name=output_layer input=d2']
ARCHS = dict({k: v for k, v in realnet.ARCHS.items()}, dropout=DROPOUT)


def prepare():
    cmds.prepare()


def gen(rng, index, tier):
    cmd = ['train', 'sample', 'train', 'score', 'train', 'decode', 'train', 'wctool'][index % 8]
    m = cmds.gen_model(rng, archs=['mlp', 'lstm', 'gru', 'class', 'deep', 'multi', 'drop'], nwords=rng.choice([6, 14]))
    plan = {'cmd': cmd, 'model': m, 'seed': rng.randrange(1 << 31), 'variants': []}
    if cmd == 'train':
        plan['text'] = [cmds.gen_text(rng, m, rng.choice([6, 15]), empty=0.05) for _ in range(rng.choice([1, 2, 3]))]
        arch = rng.choice(['mlp', 'lstm', 'gru', 'multi', 'deep', 'dropout', 'dropout'])
        t = {'arch': arch, 'vocab': rng.choice(['words', 'classes', 'none', 'none', 'num-classes']), 'opt': rng.choice(realnet.OPTIMIZERS),
             'validation': rng.random() < 0.6, 'epochs': rng.choice([1, 2]), 'cost': 'cross-entropy', 'extra': []}
        if arch != 'multi' and rng.random() < 0.4:
            t['cost'] = rng.choice(['nce', 'blackout'])
            t['extra'] += ['--num-noise-samples', '2', '--noise-distribution', rng.choice(['uniform', 'log-uniform', 'unigram'])]
            sharing = rng.choice([None, 'seq', 'batch'])
            if sharing:
                t['extra'] += ['--noise-sharing', sharing]
        if rng.random() < 0.3:
            t['extra'] += ['--sampling'] + [str(rng.choice([0.3, 0.7, 1.0])) for _ in plan['text']]
        if rng.random() < 0.3:
            t['extra'] += ['--weights'] + [str(rng.choice([0.5, 2.0])) for _ in plan['text']]
        t['extra'] += ['--patience', str(rng.choice([0, 1, 4])), '--validation-frequency', str(rng.choice([1, 3])),
                       '--batch-size', str(rng.choice([1, 2, 4])), '--sequence-length', str(rng.choice([6, 20])),
                       '--max-annealing-count', '1']
        plan['train'] = t
        plan['dev'] = cmds.gen_text(rng, m, 5, empty=0)
    elif cmd == 'sample':
        plan['options'] = ['--num-sentences', str(rng.choice([3, 20])), '--sentence-length', str(rng.choice([5, 30])), '--random-seed', str(plan['seed'])]
    elif cmd == 'score':
        plan['text'] = cmds.gen_text(rng, m, rng.choice([5, 40]))
        plan['text'].append(m['words'][0])
        plan['options'] = ['--output', rng.choice(['perplexity', 'word-scores', 'utterance-scores'])] + rng.choice([[], ['--shortlist']])
    elif cmd == 'decode':
        plan['lats'] = [cmds.gen_lattice(rng, m, n=rng.choice([5, 8])) for _ in range(rng.choice([1, 4]))]
        plan['options'] = ['--output', rng.choice(['ref', 'full', 'slf', 'kaldi']), '--n-best', str(rng.choice([1, 20]))]
        plan['options'] += rng.choice([[], ['--recombination-order', '1'], ['--max-tokens-per-node', '2'], ['--beam', '5']])
        if rng.random() < 0.6:
            # many equally good paths
            plan['options'] += ['--nnlm-weight', '0.0']
            for lat in plan['lats']:
                for link in lat['links']:
                    link[3:] = [float(-rng.randrange(1, 3)), -1.0]
    else:
        plan['text'] = cmds.gen_text(rng, m, rng.choice([10, 30]), empty=0)
        plan['options'] = ['--num-classes', str(rng.choice([2, 3])), '--output-format', rng.choice(['classes', 'srilm-classes']),
                           '--method', rng.choice(['bigram-numpy', 'bigram-numpy', 'bigram-theano'])]
    n = rng.choice([2, 3])
    for k in range(n):
        plan['variants'].append({
            'fresh': k == 0 or rng.random() < 0.2, 'hash': rng.choice([1, 2, 77, 4294967295, rng.randrange(1 << 32)]),
            'clock': rng.choice([[], [0.0], [1000.0], [5.0, -30.0], [0.001, 86400.0]]), 'dir': rng.random() < 0.6, 'names': rng.random() < 0.6,
            'env': rng.random() < 0.5, 'locale': rng.choice(['C', 'C.UTF-8', 'POSIX']), 'log': rng.choice(['file', 'debug', 'stdout', 'warn', 'often']),
            'npseed': rng.randrange(1 << 31), 'prelude': rng.random() < 0.4, 'leftover': rng.random() < 0.3})
    return plan


def valid_plan(plan):
    texts = plan.get('text') or []
    if texts and isinstance(texts[0], list):
        return bool(plan['variants']) and all(any(x.strip() for x in t) for t in texts)
    if 'text' in plan and not any(x.strip() for x in texts):
        return False
    return bool(plan['variants']) and ('lats' not in plan or bool(plan['lats']))


def lines(xs):
    return ''.join(x + '\n' for x in xs)


def layout(plan, ctx, k, v):
    """Directory and file names of a repetition."""
    root = os.path.join(ctx.scratch, 'disk', 'rep%d' % k)
    where = root
    if v and v['dir']:
        where = os.path.join(root, 'some', 'other directory')
    os.makedirs(where)
    pre = 'zz-renamed-%d-' % k if v and v['names'] else ''
    return where, lambda name: os.path.join(where, pre + name)


def logging_options(plan, v, where):
    log = v['log'] if v else 'file'
    path = os.path.join(where, 'x.log')
    if plan['cmd'] == 'sample':
        return []
    if log == 'stdout':
        return ['--log-level', 'debug'] if plan['cmd'] == 'train' else []
    o = ['--log-file', path]
    if log == 'debug':
        o += ['--log-level', 'debug']
    elif log == 'warn':
        o += ['--log-level', 'warn']
    if plan['cmd'] == 'train':
        o += ['--log-interval', '1' if log in ('often', 'debug') else '1000']
    return o


def command(plan, ctx, k, v):
    where, name = layout(plan, ctx, k, v)
    m = plan['model']
    cmd = plan['cmd']
    model, out = name('model.h5'), name('output')
    program = 'theanolm'
    if cmd == 'train':
        t = plan['train']
        paths = []
        for i, text in enumerate(plan['text']):
            paths.append(name('train%d.txt' % i))
            cmds.put(paths[-1], lines(text))
        arch = name('arch')
        cmds.put(arch, lines(ARCHS[t['arch']]))
        argv = ['train', model, '--training-set'] + paths + ['--architecture', arch, '--random-seed', str(plan['seed']),
                '--optimization-method', t['opt'], '--cost', t['cost'], '--max-epochs', str(t['epochs'])] + t['extra']
        if t['vocab'] in ('words', 'classes'):
            voc = name('vocab')
            classes = m.get('classes') or [i % 3 for i in range(len(m['words']))]
            cmds.put(voc, lines('%s %d' % x for x in zip(m['words'], classes)) if t['vocab'] == 'classes' else lines(m['words']))
            argv += ['--vocabulary', voc, '--vocabulary-format', t['vocab']]
        elif t['vocab'] == 'num-classes':
            argv += ['--num-classes', '4']
        if t['validation']:
            dev = name('dev.txt')
            cmds.put(dev, lines(plan['dev']))
            argv += ['--validation-file', dev]
        outputs = [model]
    elif cmd == 'wctool':
        program = 'wctool'
        src = name('train.txt')
        cmds.put(src, lines(plan['text']))
        argv = ['--training-set', src, '--output-file', out] + plan['options']
        outputs = [out]
    else:
        cmds.write_model(m, model)
        argv = [cmd, model]
        if cmd == 'score':
            src = name('text.txt')
            cmds.put(src, lines(plan['text']))
            argv += [src]
        elif cmd == 'decode':
            ids = cmds.kaldi_words(m)
            words = name('words.txt')
            cmds.put(words, ''.join('%s %d\n' % x for x in ids.items()))
            paths = []
            for i, lat in enumerate(plan['lats']):
                paths.append(name('lat%d' % i))
                cmds.put(paths[-1], cmds.slf(dict(lat, utt='u%d' % i)))
            argv += ['--kaldi-vocabulary', words, '--lattices'] + paths
        argv += ['--output-file', out] + plan['options']
        outputs = [out]
    argv += logging_options(plan, v, where)
    c = {'program': program, 'argv': argv, 'npseed': 1}
    if v:
        c.update(npseed=v['npseed'], pyseed=v['npseed'], clock=v['clock'])
        if v['dir']:
            # relative names
            c['cwd'] = where
            c['argv'] = [os.path.relpath(x, where) if x.startswith(where + '/') else x for x in argv]
        if v['env']:
            c['env'] = {'COLUMNS': '20', 'TZ': 'Asia/Tokyo', 'HOME': '/nonexistent', 'USER': 'someone', 'VSIM_SOMETHING': 'x' * 500}
        if v['prelude']:
            other = os.path.join(where, 'prelude.h5')
            cmds.write_model(dict(m, seed=5), other)
            c['prelude'] = ['theanolm', ['sample', other, '--random-seed', '9', '--num-sentences', '2', '--sentence-length', '4',
                                         '--output-file', os.path.join(where, 'prelude.out')]]
            if m['arch'] == 'multi':
                src = os.path.join(where, 'prelude.txt')
                cmds.put(src, 'w1 w2 w3\n')
                c['prelude'] = ['theanolm', ['score', other, src, '--log-file', os.path.join(where, 'p.log'), '--output-file', os.path.join(where, 'prelude.out')]]
        if v['leftover'] and cmd != 'train':
            cmds.put(out, 'an old file\n' * 50)
    return c, outputs


def content(path):
    """What a file holds, comparable."""
    if not path.endswith('model.h5'):
        return cmds.get(path)
    if not os.path.exists(path):
        return None
    res = {}
    with h5py.File(path, 'r') as f:
        def visit(name, obj):
            for k, x in obj.attrs.items():
                res[name + '@' + k] = repr(numpy.asarray(x).tolist())
            if isinstance(obj, h5py.Dataset):
                x = obj[()]
                res[name] = x.tobytes() if isinstance(x, numpy.ndarray) and x.dtype.kind != 'O' else repr(numpy.asarray(x).tolist())
                res[name + '#'] = str((obj.dtype, obj.shape))
            else:
                res[name] = 'group'
        visit('', f)
        f.visititems(visit)
    return res


def difference(a, b):
    if a is None or b is None:
        return 'one of the files is missing'
    if isinstance(a, dict):
        names = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
        return 'different: %s' % ', '.join(names[:8])
    x, y = a.split(b'\n'), b.split(b'\n')
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q:
            return 'line %d: %r and %r' % (i + 1, p[:120], q[:120])
    return '%d and %d lines' % (len(x), len(y))


def run(plan, ctx):
    os.mkdir(os.path.join(ctx.scratch, 'disk'))
    first = None
    for k, v in enumerate([None] + plan['variants']):
        c, outputs = command(plan, ctx, k, v)
        spec = {'root': os.path.join(ctx.scratch, 'disk'), 'commands': [c]}
        ctx.steps += 1
        if v and v['fresh']:
            path = os.path.join(ctx.scratch, 'spec%d.json' % k)
            with open(path, 'w') as f:
                json.dump(spec, f)
            env = dict(os.environ, PYTHONHASHSEED=str(v['hash'] % (1 << 32)), LC_ALL=v['locale'], LANG=v['locale'])
            p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sim.fresh', path], env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            if not os.path.exists(path + '.done'):
                raise HarnessError('a new interpreter failed: %s' % p.stderr.decode()[-500:])
            status = json.load(open(path + '.done'))[0]
            ctx.fault('hash-seed')
            ctx.nontrivial = True
        else:
            status = fresh.run_all(spec)[0]
        if v:
            for key in ('dir', 'names', 'env', 'prelude', 'leftover'):
                if v[key]:
                    ctx.fault('changed-' + key)
            ctx.fault('log-' + v['log'])
            if v['clock']:
                ctx.fault('clock')
        got = [status] + [content(p) for p in outputs]
        ctx.event(k, status, [str(sorted(x.items()) if isinstance(x, dict) else x)[:2000] for x in got[1:]])
        if first is None:
            first = got
            ctx.probe('%s:status-%d' % (plan['cmd'], status))
        elif got != first:
            what = 'exit status %s and %s' % (first[0], got[0]) if got[0] != first[0] else difference(first[1], got[1])
            raise Violation('%s-differs' % plan['cmd'], 'repeating the same %s command gave something else (%s): %s' %
                            (plan['cmd'], ', '.join('%s=%s' % x for x in sorted(v.items()) if x[1]), what))
    ctx.probe('cmd:' + plan['cmd'])
