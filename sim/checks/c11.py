"""A command that could not write its output never reports success."""
import errno
import os

from sim import cmds
from sim import disk
from sim.core import Violation

RUNS = {'quick': 170, 'thorough': 12000}
FROZEN = ('model', 'errno', 'cmd', 'options', 'links', 'n', 'times', 'utt')
REAL = ['theanolm score, decode and sample and wctool as whole processes, from argument parsing to the finalization of the interpreter',
        'output through real files, gzip streams and standard output']
STUB = ['system calls on the output file: performed on a scratch directory, split, interrupted or failed as the plan says', 'clock: simulated']
ASSUMPTIONS = ['a failing write or close on the output is an error of the operating system; a process killed by a signal is not a reported success']
RULE = ('Plans: command, output format, model, input and write faults (failing, full disk after a short write, interrupted, '
        'short and split writes, failing close) from VERIF_SEED. The command is run once without faults and once per fault; '
        'exit status 0 is only allowed with the complete output. Distinct: by the hash of the event log.')
RUN_TIMEOUT = 200
SIMTIME = 'one step is one system call on the simulated disk'

ERR = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EDQUOT': errno.EDQUOT, 'EFBIG': errno.EFBIG}


def prepare():
    cmds.prepare()


def gen(rng, index, tier):
    cmd = ['score', 'decode', 'sample', 'wctool'][index % 4]
    m = cmds.gen_model(rng, archs=['mlp', 'gru'])
    plan = {'cmd': cmd, 'model': m, 'out': rng.choice(['file', 'file', 'gz', 'stdout']), 'faults': []}
    big = rng.random() < 0.5
    if cmd == 'score':
        plan['options'] = ['--output', rng.choice(['perplexity', 'word-scores', 'word-scores', 'utterance-scores'])]
        plan['text'] = cmds.gen_text(rng, m, 150 if big else 6, oov=True)
        if not any(x for x in plan['text']):
            plan['text'].append(m['words'][0])
    elif cmd == 'decode':
        plan['options'] = ['--output', rng.choice(['ref', 'trn', 'full', 'slf', 'kaldi']),
                           '--n-best', str(rng.choice([1, 3, 1000]))]
        plan['lattices'] = [cmds.gen_lattice(rng, m, n=8 if big else 4) for _ in range(rng.choice([1, 3, 6]))]
        if big and rng.random() < 0.6:
            # enough paths to fill the buffers
            n = rng.choice([6, 7])
            links = [[i, i + 1, w, -1.0 - k, -2.0] for i in range(n - 1) for k, w in enumerate(rng.sample(m['words'], 3))]
            plan['lattices'].append(dict(plan['lattices'][0], n=n, links=links, times=None))
            plan['options'][3] = '1000'
        for i, lat in enumerate(plan['lattices']):
            lat['utt'] = 'u%d' % i
    elif cmd == 'sample':
        plan['options'] = ['--random-seed', str(rng.randrange(1000)), '--num-sentences', str(200 if big else 5),
                           '--sentence-length', str(rng.choice([10, 60]))]
    else:
        plan['out'] = rng.choice(['file', 'file', 'stdout'])
        plan['text'] = cmds.gen_text(rng, m, 30 if big else 6, empty=0, oov=True)
        plan['options'] = ['--method', rng.choice(['bigram-numpy', 'bigram-numpy', 'bigram-theano']),
                           '--num-classes', str(rng.choice([2, 3])),
                           '--output-format', rng.choice(['classes', 'srilm-classes']),
                           '--output-frequency', str(rng.choice([1, 2, 5]))]
        if big:
            # enough words to fill the buffers in the middle of a snapshot
            plan['words'] = 260
    for _ in range(4):
        kind = rng.choice(['error', 'error', 'full', 'full', 'eintr', 'short', 'split', 'close'])
        f = {'kind': kind, 'nth': rng.choice([0, 0, 1, 2, 3, rng.randrange(40)]), 'last': rng.random() < 0.4}
        if kind in ('error', 'full', 'close'):
            f['errno'] = rng.choice(sorted(ERR))
            f['sticky'] = rng.random() < 0.6
        if kind in ('short', 'full', 'split'):
            f['bytes'] = rng.choice([1, 7, 100, 1000])
        plan['faults'].append(f)
    return plan


def valid_plan(plan):
    if 'text' in plan and not any(x.strip() for x in plan['text']):
        return False
    if 'lattices' in plan and not plan['lattices']:
        return False
    if 'lattices' in plan and not all(lat['n'] >= 2 and len(lat['links']) for lat in plan['lattices']):
        return False
    return bool(plan['faults'])


def shrink(plan):
    for i in range(len(plan['faults'])):
        p = dict(plan)
        p['faults'] = [plan['faults'][i]]
        if p != plan:
            yield p


def build(plan, root):
    m = plan['model']
    cmd = plan['cmd']
    model = os.path.join(root, 'model.h5')
    if cmd != 'wctool':
        cmds.write_model(m, model)
    argv = []
    if cmd == 'score':
        path = os.path.join(root, 'input.txt')
        cmds.put(path, '\n'.join(plan['text']) + '\n')
        argv = ['score', model, path] + plan['options']
    elif cmd == 'decode':
        ids = cmds.kaldi_words(m)
        words = os.path.join(root, 'words.txt')
        cmds.put(words, ''.join('%s %d\n' % x for x in ids.items()))
        paths = []
        for i, lat in enumerate(plan['lattices']):
            p = os.path.join(root, 'lat%d.slf' % i)
            cmds.put(p, cmds.slf(lat))
            paths.append(p)
        argv = ['decode', model, '--kaldi-vocabulary', words, '--lattices'] + paths + plan['options']
    elif cmd == 'sample':
        argv = ['sample', model] + plan['options']
    else:
        path = os.path.join(root, 'train.txt')
        text = list(plan['text'])
        for i in range(plan.get('words', 0)):
            text.append('x%d x%d %s' % (i, (i * 7 + 3) % plan['words'], text[0]))
        cmds.put(path, '\n'.join(text) + '\n')
        argv = ['--training-set', path] + plan['options']
    if cmd != 'sample':
        argv += ['--log-file', os.path.join(os.path.dirname(root), 'log.txt')]
    return argv


def run(plan, ctx):
    root = os.path.join(ctx.scratch, 'disk')
    os.mkdir(root)
    argv = build(plan, root)
    program = 'wctool' if plan['cmd'] == 'wctool' else 'theanolm'
    out = os.path.join(root, 'OUT' + ('.gz' if plan['out'] == 'gz' else '.txt'))
    stdout = out if plan['out'] == 'stdout' else None
    if plan['out'] != 'stdout':
        argv = argv + ['--output-file', out]

    ref = cmds.run(program, argv, root, stdout=stdout)
    want = cmds.get_text(out)
    ctx.event('reference', plan['cmd'], plan['out'], ref.status, ref.writes, want is not None and len(want))
    ctx.steps += len(ref.log)
    if ref.status != 0:
        raise Violation('fails-without-fault', '%s exits with status %d although nothing failed' % (argv, ref.status))
    if not want:
        raise Violation('incomplete:none', '%s exits with status 0 but its output is %r although nothing failed' % (argv, want))
    n_writes = max(1, ref.count(disk.WRITE, 'OUT'))
    ctx.probe('writes', n_writes)
    ctx.probe('cmd:%s:%s' % (plan['cmd'], plan['out']))
    for f in plan['faults']:
        if os.path.exists(out):
            os.unlink(out)
        kind = f['kind']
        nth = n_writes if f['last'] else 1 + f['nth'] % n_writes
        rules, split = [], (0, 0)
        if kind == 'error':
            rules = [(disk.C_WRITE, nth, disk.K_ERRNO | (disk.STICKY if f['sticky'] else 0), ERR[f['errno']], 'OUT')]
        elif kind == 'full':
            # the write that fills the disk is short, the next ones fail
            rules = [(disk.C_WRITE, nth, disk.K_SHORT, f['bytes'], 'OUT'),
                     (disk.C_WRITE, nth + 1, disk.K_ERRNO | disk.STICKY, ERR['ENOSPC'], 'OUT')]
        elif kind == 'close':
            if plan['out'] == 'stdout':
                continue
            rules = [(disk.C_CLOSE, 1, disk.K_ERRNO, ERR[f['errno']], 'OUT')]
        elif kind == 'eintr':
            rules = [(disk.C_WRITE, nth, disk.K_EINTR, 0, 'OUT')]
        elif kind == 'short':
            rules = [(disk.C_WRITE, nth, disk.K_SHORT, f['bytes'], 'OUT')]
        elif kind == 'split':
            split = (0, max(f['bytes'], len(want) // 40 + 1))
        res = cmds.run(program, argv, root, stdout=stdout, rules=rules, split=split)
        got = cmds.get_text(out)
        ctx.steps += len(res.log)
        ctx.event(kind, nth, f.get('errno'), res.status, res.fired, got == want)
        if kind == 'split' or res.fired:
            ctx.fault(kind + (':sticky' if f.get('sticky') else ''))
        # a full disk rule: only the failing calls count as errors
        errors = [r for r in res.log if r[0] == disk.FAULT and r[2] < len(rules)
                  and rules[r[2]][2] & 255 == disk.K_ERRNO]
        where = '%s %s, output to %s, %s at write %d of %d' % (program, ' '.join(argv), plan['out'], f, nth, n_writes)
        if errors and res.status == 0 and (got != want or kind == 'close'):
            raise Violation('success-after-error:' + kind,
                            '%s: exit status 0, but %s (%s)' % (where, describe(got, want), errors_text(kind)))
        if res.status == 0 and got != want:
            raise Violation('incomplete:' + kind, '%s: exit status 0, but %s' % (where, describe(got, want)))
        if not errors and res.status != 0:
            raise Violation('fails-on-partial-write:' + kind, '%s: exit status %d' % (where, res.status))
    ctx.nontrivial = bool(ctx.faults)


def describe(got, want):
    if got is None:
        return 'the output is missing or cannot be decompressed'
    if got == want:
        return 'the operating system reported an error for the output'
    return 'the output has %d of %d bytes' % (len(got), len(want))


def errors_text(kind):
    return 'close() failed' if kind == 'close' else 'write() failed'
