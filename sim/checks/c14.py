"""Interrupted reads change nothing and failing reads are reported."""
import errno
import os

from sim import cmds, realnet
from sim import disk
from sim.core import Violation

RUNS = {'quick': 230, 'thorough': 14000}
FROZEN = ('model', 'errno', 'cmd', 'options', 'links', 'n', 'times', 'utt', 'fmt')
REAL = ['theanolm score, decode, sample and train and wctool as whole processes, from argument parsing to the finalization of the interpreter',
        'all input files: text, .gz, lattices, lattice lists, vocabularies, architecture, model file (real HDF5), standard input']
STUB = ['system calls on the input files: performed on a scratch directory, split, interrupted or failed as the plan says', 'clock: simulated']
ASSUMPTIONS = ['reads of memory-mapped training data cannot be faulted through system calls; the text is also read through read() when words are counted',
               'a truncated uncompressed text file cannot be told from a shorter one; only compressed inputs are truncated']
RULE = ('Plans: command, inputs and read faults (split, short and interrupted reads; EIO on open or on the n-th read of an input, once or from then on; '
        'truncated or damaged .gz) from VERIF_SEED. The command is run once without faults and once per fault. '
        'Distinct: by the hash of the event log.')
RUN_TIMEOUT = 300
SIMTIME = 'one step is one system call on the simulated disk'
COMMANDS = ['score', 'decode', 'wctool', 'score', 'decode', 'sample', 'wctool', 'train']


def prepare():
    cmds.prepare()


def gen(rng, index, tier):
    cmd = COMMANDS[index % len(COMMANDS)]
    m = cmds.gen_model(rng, archs=['mlp'] if cmd == 'train' else ['mlp', 'gru'])
    plan = {'cmd': cmd, 'model': m, 'faults': []}
    big = rng.random() < 0.4
    plan['gz'] = rng.random() < 0.5
    plan['crlf'] = rng.random() < 0.1
    if cmd == 'score':
        plan['options'] = ['--output', rng.choice(['perplexity', 'word-scores', 'utterance-scores'])]
        plan['text'] = cmds.gen_text(rng, m, rng.choice([40, 120]) if big else 6)
        plan['stdin'] = rng.random() < 0.25
        if plan['stdin']:
            plan['gz'] = False
        if big:
            plan['repeat'] = rng.choice([1, 20])
            plan['options'] = ['--output', 'perplexity']
    elif cmd == 'decode':
        plan['fmt'] = rng.choice(['slf', 'kaldi'])
        plan['options'] = ['--output', rng.choice(['ref', 'full', 'slf']), '--n-best', str(rng.choice([1, 5]))]
        plan['lattices'] = [cmds.gen_lattice(rng, m, n=rng.choice([4, 8])) for _ in range(rng.choice([1, 3, 5]))]
        for i, lat in enumerate(plan['lattices']):
            lat['utt'] = 'u%d' % i
        plan['list'] = rng.choice(['args', 'args', 'list', 'list', 'stdin'])
        if plan['list'] == 'stdin':
            plan['lattices'] = plan['lattices'][:1]
            plan['gz'] = False
    elif cmd == 'sample':
        plan['options'] = ['--random-seed', str(rng.randrange(1000)), '--num-sentences', '5']
    elif cmd == 'wctool':
        plan['text'] = cmds.gen_text(rng, m, 60 if big else 6, empty=0)
        plan['options'] = ['--method', 'bigram-numpy', '--num-classes', str(rng.choice([2, 3])), '--output-format', 'classes']
        plan['vocabulary'] = rng.random() < 0.5
    else:
        plan['text'] = cmds.gen_text(rng, m, 6, empty=0.1, lengths=(2, 3, 5))
        plan['vocabulary'] = rng.random() < 0.6
        plan['gz'] = False
        plan['options'] = ['--max-epochs', '1', '--min-epochs', '1', '--batch-size', '4', '--sequence-length', '8', '--stopping-criterion', 'epoch-count']
        plan['validation'] = False
        plan['resume'] = rng.random() < 0.5
    if 'text' in plan and not any(x.strip() for x in plan['text']):
        plan['text'].append(m['words'][0])
    for _ in range(3 if cmd == 'train' else 6):
        kind = rng.choice(['error', 'error', 'error', 'eintr', 'short', 'split', 'open', 'gzcut', 'gzbad'])
        f = {'kind': kind, 'target': rng.randrange(100), 'nth': rng.choice([0, 0, 0, 1, 2, 3, rng.randrange(30)]), 'last': rng.random() < 0.25}
        if kind in ('error', 'open'):
            f['errno'] = rng.choice(['EIO', 'EIO', 'ESTALE'])
            f['sticky'] = rng.random() < 0.5
        if kind in ('short', 'split'):
            f['bytes'] = rng.choice([1, 3, 17, 100, 1000])
        if kind in ('gzcut', 'gzbad'):
            f['at'] = rng.randrange(1000)
        plan['faults'].append(f)
    return plan


def valid_plan(plan):
    if 'text' in plan and not any(x.strip() for x in plan['text']):
        return False
    if 'lattices' in plan and not (plan['lattices'] and all(lat['n'] >= 2 and lat['links'] for lat in plan['lattices'])):
        return False
    return bool(plan['faults'])


def shrink(plan):
    for i in range(len(plan['faults'])):
        p = dict(plan)
        p['faults'] = [plan['faults'][i]]
        if p != plan:
            yield p


def build(plan, root):
    """Writes the input files; returns (argv, stdin, names of the inputs)."""
    m = plan['model']
    cmd = plan['cmd']
    gz = '.gz' if plan['gz'] else ''
    inputs = []
    stdin = None

    def put(name, text):
        path = os.path.join(root, name)
        cmds.put(path, text.replace('\n', '\r\n') if plan['crlf'] and cmd != 'decode' else text)
        inputs.append(name)
        return path

    model = os.path.join(root, 'model.h5')
    if cmd in ('score', 'decode', 'sample'):
        cmds.write_model(m, model)
        inputs.append('model.h5')
    text = '\n'.join(plan.get('text', [])) + '\n'
    if cmd == 'score':
        path = put('input.txt' + gz, text * plan.get('repeat', 1))
        argv = ['score', model, '-' if plan['stdin'] else path]
        stdin = path if plan['stdin'] else None
    elif cmd == 'decode':
        argv = ['decode', model]
        ids = cmds.kaldi_words(m)
        if plan['fmt'] == 'kaldi':
            words = put('words.txt', ''.join('%s %d\n' % x for x in ids.items()))
            argv += ['--kaldi-vocabulary', words, '--lattice-format', 'kaldi']
            paths = [put('lats.txt' + gz, ''.join(cmds.kaldi(lat, ids) for lat in plan['lattices']))]
        else:
            paths = [put('lat%d.slf%s' % (i, gz), cmds.slf(lat)) for i, lat in enumerate(plan['lattices'])]
        if plan['list'] == 'args':
            argv += ['--lattices'] + paths
        elif plan['list'] == 'list':
            argv += ['--lattice-list', put('list.txt' + gz, ''.join(p + '\n' for p in paths))]
        else:
            stdin = paths[0]
    elif cmd == 'sample':
        argv = ['sample', model]
    elif cmd == 'wctool':
        argv = ['--training-set', put('train0.txt' + gz, text), put('train1.txt', text)]
        if plan['vocabulary']:
            argv += ['--vocabulary', put('vocab.txt' + gz, ''.join('%s %d\n' % (w, i % 3) for i, w in enumerate(m['words']))),
                     '--vocabulary-format', 'classes']
    else:
        arch = put('net.arch', '\n'.join(realnet.ARCHS['mlp']) + '\n')
        argv = ['train', model, '--training-set', put('train0.txt', text), put('train1.txt', text), '--architecture', arch,
                '--optimization-method', 'sgd', '--learning-rate', '0.5', '--random-seed', '3']
        if plan['vocabulary']:
            argv += ['--vocabulary', put('vocab.txt', ''.join(w + '\n' for w in m['words'])), '--vocabulary-format', 'words']
    argv += plan['options']
    if cmd != 'sample':
        argv += ['--log-file', os.path.join(os.path.dirname(root), 'log.txt')]
    return argv, stdin, inputs


def model_content(path):
    """Everything in a model file, as comparable values."""
    h5py = cmds.h5py
    out = []
    try:
        with h5py.File(path, 'r') as f:
            def visit(name, obj):
                out.append((name, sorted((k, str(v)) for k, v in obj.attrs.items())))
                if isinstance(obj, h5py.Dataset):
                    v = obj[()]
                    out.append((name, v.tolist() if hasattr(v, 'tolist') else v))
            f.visititems(visit)
            out.append(sorted((k, str(v)) for k, v in f.attrs.items()))
    except OSError as e:
        return 'unreadable: %s' % e
    return out


def run(plan, ctx):
    root = os.path.join(ctx.scratch, 'disk')
    os.mkdir(root)
    argv, stdin, inputs = build(plan, root)
    cmd = plan['cmd']
    program = 'wctool' if cmd == 'wctool' else 'theanolm'
    out = os.path.join(root, 'OUT.txt')
    model = os.path.join(root, 'model.h5')
    if cmd != 'train':
        argv = argv + ['--output-file', out]
        stdout = None
    else:
        stdout = os.path.join(ctx.scratch, 'stdout')
    start = None
    if cmd == 'train' and plan['resume']:
        r = cmds.run(program, argv, root, stdout=stdout)
        if r.status:
            raise Violation('fails-without-fault', '%s exits with status %d although nothing failed' % (argv, r.status))
        start = cmds.get(model)
        argv = argv + ['--max-epochs', '2']
        inputs = [x for x in inputs if x != 'vocab.txt'] + ['model.h5']

    def reset():
        if cmd == 'train':
            for name in os.listdir(root):
                if name.startswith('model.h5'):
                    os.unlink(os.path.join(root, name))
            if start is not None:
                cmds.put(model, start)
        elif os.path.exists(out):
            os.unlink(out)

    def result():
        if cmd == 'train':
            return model_content(model) if os.path.exists(model) else None
        return cmds.get(out)

    reset()
    ref = cmds.run(program, argv, root, stdout=stdout, stdin=stdin, reads=True)
    want = result()
    counts = {name: ref.count(disk.READ, name) for name in inputs}
    ctx.event('reference', cmd, ref.status, sorted(counts.items()), len(want) if want else None)
    ctx.steps += len(ref.log)
    ctx.probe('cmd:' + cmd)
    if ref.status != 0 or not want:
        raise Violation('fails-without-fault', '%s exits with status %d although nothing failed' % (argv, ref.status))
    readable = [x for x in inputs if counts[x]]
    for f in plan['faults']:
        reset()
        kind = f['kind']
        pool = [x for x in inputs if x.endswith('.gz')] if kind in ('gzcut', 'gzbad') else readable
        if not pool:
            continue
        name = pool[f['target'] % len(pool)]
        if kind == 'open' and stdin and stdin.endswith(name):
            continue                # opened by the shell
        n = counts[name]
        nth = n if f['last'] else 1 + f['nth'] % max(1, n)
        rules, split, keep = [], (0, 0), None
        if kind == 'error':
            rules = [(disk.C_READ, nth, disk.K_ERRNO | (disk.STICKY if f['sticky'] else 0), getattr(errno, f['errno']), name)]
        elif kind == 'open':
            rules = [(disk.C_OPEN, 1, disk.K_ERRNO | (disk.STICKY if f['sticky'] else 0), getattr(errno, f['errno']), name)]
        elif kind == 'eintr':
            rules = [(disk.C_READ, nth, disk.K_EINTR, 0, name)]
        elif kind == 'short':
            rules = [(disk.C_READ, nth, disk.K_SHORT, f['bytes'], name)]
        elif kind == 'split':
            size = sum(r[3] for r in ref.log if r[0] == disk.READ and name in r[4])
            split = (max(f['bytes'], size // 3000 + 1), 0)
        else:
            path = os.path.join(root, name)
            keep = cmds.get(path)
            if kind == 'gzcut':
                # at least the header, at most all but the last byte
                cut = 1 + f['at'] * (len(keep) - 2) // 1000 if not f['last'] else len(keep) - 1 - f['nth'] % 8
                cmds.put_raw(path, keep[:max(1, cut)])
            else:
                # one bit of the checksum or the length at the end
                pos = len(keep) - 1 - f['nth'] % 8
                cmds.put_raw(path, keep[:pos] + bytes([keep[pos] ^ (1 << (f['at'] % 8))]) + keep[pos + 1:])
        res = cmds.run(program, argv, root, stdout=stdout, stdin=stdin, rules=rules, split=split)
        got = result()
        if keep is not None:
            cmds.put_raw(os.path.join(root, name), keep)
        ctx.steps += len(res.log)
        same = got == want
        ctx.event(kind, name, nth, res.status, res.fired, same)
        where = '%s %s, %s of %s (read %d of %d)' % (program, ' '.join(argv), f, name, nth, n)
        if kind in ('eintr', 'short', 'split'):
            if kind == 'split' or res.fired:
                ctx.fault(kind)
            if res.status != 0:
                raise Violation('fails-on-partial-read:' + kind, '%s: exit status %d' % (where, res.status))
            if not same:
                raise Violation('changed-by-partial-read:' + kind, '%s: the result is different' % where)
        else:
            if kind in ('error', 'open') and not res.fired:
                continue
            ctx.fault(kind + (':sticky' if f.get('sticky') else ''))
            if res.status == 0 and (not same or not name.endswith('.h5') or f.get('sticky')):
                raise Violation('success-after-read-error:' + kind, '%s: exit status 0, the output is %s' % (
                    where, 'the same' if same else 'different'))
    ctx.nontrivial = bool(ctx.faults)
