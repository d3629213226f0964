"""Whole commands (theanolm score, decode, sample, train; wctool) as simulated
processes on the simulated disk.

A command runs the real program in a forked process from argument parsing to
the finalization of the interpreter (where Python flushes what is still in its
buffers).  Files below the "disk" directory of the run are under the control of
the simulator: it counts, splits, interrupts and fails the calls on them.
"""

import ctypes
import gzip
import importlib.machinery
import importlib.util
import io
import logging
import os
import signal
import sys

from sim import core, disk, realnet
from sim.core import HarnessError, REPO
from sim.clock import CLOCK
from sim.realnet import numpy, h5py, theano
from theanolm.vocabulary import Vocabulary


# ------------------------------------------------------------------ processes

def load_program(name):
    path = os.path.join(REPO, 'bin', name)
    loader = importlib.machinery.SourceFileLoader('vsim_' + name, path)
    spec = importlib.util.spec_from_loader(loader.name, loader)
    module = importlib.util.module_from_spec(spec)
    loader.exec_module(module)
    return module


def prepare():
    """Imports what the commands need, before anything is simulated."""
    import scipy.sparse             # noqa: F401
    load_program('theanolm')
    load_program('wctool')
    # numpy.distutils turns the root logger into one that prints to the standard
    # output; the logging of this installation, not of the code under test.
    if type(logging.root).__module__.startswith('numpy'):
        logging.root.__class__ = logging.RootLogger


def _exec_main(program, argv):
    sys.argv = [program] + list(argv)
    module = load_program(program)
    if program == 'wctool':
        # what the script does when it is run
        sys.excepthook = module.exception_handler
        try:
            module.main()
        except KeyboardInterrupt:
            print('Interrupted from keyboard.')
    else:
        module.main()


def _status(e):
    if e.code is None:
        return 0
    if isinstance(e.code, int):
        return e.code & 0xff
    return 1


class Result:
    """What is left of a process: its exit status, the log of its system calls
    and the disk."""

    def __init__(self, status, log_path):
        self.status = status        # exit status, negative: killed by a signal
        self.log = disk.parse(log_path) if log_path else []
        self.fired = sum(1 for r in self.log if r[0] == disk.FAULT)
        self.faulted = sorted(set(r[4] for r in self.log if r[0] == disk.FAULT))
        self.writes = sum(1 for r in self.log if r[0] == disk.WRITE)
        self.reads = sum(1 for r in self.log if r[0] == disk.READ)

    def count(self, op, sub=''):
        return sum(1 for r in self.log if r[0] == op and sub in r[4])


_n = [0]

def run(program, argv, root, stdout=None, stdin=None, rules=(), split=(0, 0), reads=False,
        log=True, seed=1, before=None, clock=(), env=None, cwd=None, timeout=None):
    """Runs a command in a process of its own.  ``root`` is the directory of the
    simulated disk; ``stdout``/``stdin`` are files on it.  Returns a Result."""
    _n[0] += 1
    log_path = os.path.join(os.path.dirname(root.rstrip('/')), 'ops%d_%d.log' % (os.getpid(), _n[0])) if log else None
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            _child(program, argv, root, stdout, stdin, rules, split, reads, log_path, seed, before, clock, env, cwd)
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        code = -os.WTERMSIG(status)
    else:
        code = os.WEXITSTATUS(status)
    if code == 99:
        raise HarnessError('the harness failed in a command process')
    result = Result(code, log_path)
    if log_path and os.path.exists(log_path):
        os.unlink(log_path)
    return result


def _child(program, argv, root, stdout, stdin, rules, split, reads, log_path, seed, before, clock, env, cwd):
    signal.signal(signal.SIGINT, signal.default_int_handler)
    for h in list(logging.root.handlers):
        logging.root.removeHandler(h)
    numpy.random.seed(seed)
    CLOCK.reset(clock)
    if env:
        os.environ.update(env)
    if cwd:
        os.chdir(cwd)
    d = disk.Disk(root.rstrip('/') + '/', log_path, reads=reads)
    for r in rules:
        d.rule(*r)
    d.split(*split)
    null = '/dev/null'
    fd = os.open(stdin or null, os.O_RDONLY)
    os.dup2(fd, 0); os.close(fd)
    fd = os.open(stdout or null, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
    os.dup2(fd, 1); os.close(fd)
    # the standard streams, as the interpreter creates them
    sys.stdin = sys.__stdin__ = io.TextIOWrapper(io.open(0, 'rb', closefd=False), encoding='utf-8')
    sys.stdout = sys.__stdout__ = io.TextIOWrapper(io.open(1, 'wb', closefd=False), encoding='utf-8', newline='\n')
    if before:
        before()
    try:
        _exec_main(program, argv)
        status = 0
    except SystemExit as e:
        status = _status(e)
    except BaseException:           # pylint: disable=broad-except
        # what the interpreter does with an exception that is not caught
        try:
            sys.excepthook(*sys.exc_info())
            status = 1
        except SystemExit as e:
            status = _status(e)
        except BaseException:       # pylint: disable=broad-except
            status = 1
    # Finalization: destructors, atexit, flushing of the standard streams.
    ctypes.pythonapi.Py_Exit(ctypes.c_int(status))


# ------------------------------------------------------------------ fixtures

ODD = ['ä', 'naïve', '日本', 'a-b', 'x.y', '3.14', '&', 'ﬁ', 'İ', 'é']


def gen_model(rng, archs=None, classes=None, oos=None, nwords=None):
    n = nwords or rng.choice([4, 8, 14])
    words = ['w%d' % i for i in range(n)]
    for i in range(n):
        if rng.random() < 0.15:
            w = rng.choice(ODD)
            if w not in words:
                words[i] = w
    noos = rng.choice([0, 2, 4]) if oos is None else oos
    kind = rng.choice(['words', 'classes']) if classes is None else ('classes' if classes else 'words')
    m = {'words': words, 'oos': ['oos%d' % i for i in range(noos)], 'kind': kind,
         'arch': rng.choice(archs or ['mlp', 'lstm', 'gru', 'class', 'multi', 'deep']),
         'seed': rng.randrange(1 << 30), 'noise': rng.choice([0.3, 1.0, 2.0]),
         'unigram': rng.random() < 0.85}
    if kind == 'classes':
        k = rng.choice([2, 3, max(2, n // 2)])
        m['classes'] = [rng.randrange(k) for _ in words]
    m['counts'] = [rng.choice([1, 2, 5, 20]) for _ in words + m['oos']]
    return m


def make_vocabulary(m):
    if m['kind'] == 'classes':
        text = ''.join('%s %d\n' % (w, c) for w, c in zip(m['words'], m['classes']))
    else:
        text = ''.join(w + '\n' for w in m['words'])
    v = Vocabulary.from_file(io.StringIO(text), m['kind'], oos_words=m['oos'])
    if m['unigram'] or m['oos']:
        counts = dict(zip(m['words'] + m['oos'], m['counts']))
        counts.update({'<s>': 7, '</s>': 7, '<unk>': 2})
        v.compute_probs(counts, update_class_probs=True)
    return v


def write_model(m, path, arch=None):
    """Writes a model file with random parameters, through the real code."""
    v = make_vocabulary(m)
    net = realnet.build_network(arch or m['arch'], v, seed=m['seed'] % (1 << 31))
    with h5py.File(path, 'w') as f:
        v.get_state(f)
        net.get_state(f)
        perturb(f, m['seed'], m['noise'])
    return v


def perturb(f, seed, noise):
    """Random parameters with enough spread that every one matters."""
    rs = numpy.random.RandomState(seed % (1 << 31))
    names = []
    f.visititems(lambda name, obj: names.append(name) if isinstance(obj, h5py.Dataset) and name.startswith('layers/') else None)
    for name in sorted(names):
        ds = f[name]
        if ds.dtype.kind == 'f':
            ds[...] = ds[...] + rs.normal(0, noise, ds.shape)


def gen_text(rng, m, n, lengths=(1, 2, 3, 5, 9, 14), oov=True, empty=0.1):
    lines = []
    for _ in range(n):
        if rng.random() < empty:
            lines.append('')
            continue
        ws = []
        for _ in range(rng.choice(lengths)):
            r = rng.random()
            if oov and r < 0.1:
                ws.append('oov%d' % rng.randrange(3))
            elif m['oos'] and r < 0.25:
                ws.append(rng.choice(m['oos']))
            else:
                ws.append(rng.choice(m['words']))
        lines.append(' '.join(ws))
    return lines


def gen_lattice(rng, m, n=None, oov=True, null=0.15, utt=True, times=None, single=True):
    """A word lattice as a plain structure: nodes 0..n-1, links (from, to, word
    or None, acoustic, language)."""
    n = n or rng.choice([3, 4, 6, 8, 10])
    links = []

    def word():
        r = rng.random()
        if r < null:
            return None
        if oov and r < null + 0.08:
            return 'oov%d' % rng.randrange(3)
        if m['oos'] and r < null + 0.2:
            return rng.choice(m['oos'])
        return rng.choice(m['words'])

    def add(a, b):
        w = word()
        if any(x[0] == a and x[2] == w for x in links):
            w = next((c for c in m['words'] if not any(x[0] == a and x[2] == c for x in links)), None)
            if w is None:
                return
        links.append([a, b, w, round(-rng.random() * 30, 3), round(-rng.random() * 6, 3)])

    for i in range(1, n):
        add(rng.randrange(max(0, i - 3), i), i)
    for i in range(n - 1):
        if not any(x[0] == i for x in links):
            add(i, rng.randrange(i + 1, n))
    for _ in range(rng.randrange(0, n)):
        a = rng.randrange(0, n - 1)
        add(a, rng.randrange(a + 1, min(n, a + 4)))
    # every node reachable, one final node
    reach = {0}
    for _ in range(n):
        for a, b, *_x in links:
            if a in reach:
                reach.add(b)
    order = sorted(reach)
    remap = {old: new for new, old in enumerate(order)}
    links = [[remap[a], remap[b], w, ac, lm] for a, b, w, ac, lm in links if a in reach]
    n = len(order)
    for i in range(n - 1):
        if not any(x[0] == i for x in links):
            links.append([i, n - 1, None if not any(x[0] == i for x in links) else m['words'][0], -1.0, -1.0])
    lat = {'utt': ('utt-%d' % rng.randrange(1000)) if utt else None, 'n': n, 'links': links,
           'lmscale': rng.choice([None, None, 2.5, 0.7]), 'wip': rng.choice([None, None, -0.5]),
           'times': None}
    if (rng.random() < 0.4) if times is None else times:
        lat['times'] = [round(0.1 * i, 2) for i in range(n)]
    return lat


def slf(lat):
    out = ['VERSION=1.0']
    if lat['utt'] is not None:
        out.append('UTTERANCE=%s' % lat['utt'])
    if lat['lmscale'] is not None:
        out.append('lmscale=%s' % lat['lmscale'])
    if lat['wip'] is not None:
        out.append('wdpenalty=%s' % lat['wip'])
    out.append('N=%d L=%d' % (lat['n'], len(lat['links'])))
    for i in range(lat['n']):
        out.append('I=%d' % i + (' t=%s' % lat['times'][i] if lat['times'] else ''))
    for j, (a, b, w, ac, lm) in enumerate(lat['links']):
        out.append('J=%d S=%d E=%d W=%s a=%s l=%s' % (j, a, b, w if w is not None else '!NULL', ac, lm))
    return '\n'.join(out) + '\n'


def kaldi(lat, word_to_id):
    """The lattice as a Kaldi CompactLattice; the last node is final."""
    out = [lat['utt']]
    for i in range(lat['n']):
        for a, b, w, ac, lm in lat['links']:
            if a == i:
                out.append('%d %d %d %s,%s,1_2' % (a, b, word_to_id[w if w is not None else '<eps>'], -lm, -ac))
    out.append('%d 0,0,' % (lat['n'] - 1))
    return '\n'.join(out) + '\n\n'


def kaldi_words(m, extra=('oov0', 'oov1', 'oov2', '<s>', '</s>', '<unk>')):
    words = ['<eps>'] + list(dict.fromkeys(list(m['words']) + list(m['oos']) + list(extra)))
    return {w: i for i, w in enumerate(words)}


def put(path, text, enc='utf-8'):
    data = text if isinstance(text, bytes) else text.encode(enc)
    if path.endswith('.gz'):
        buf = io.BytesIO()
        with gzip.GzipFile('', 'wb', 6, buf, 0) as f:
            f.write(data)
        data = buf.getvalue()
    with open(path, 'wb') as f:
        f.write(data)


def put_raw(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def get(path, missing=None):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return missing


def get_text(path):
    """Content of an output file, decompressed; None if missing or broken."""
    data = get(path)
    if data is None:
        return None
    if path.endswith('.gz'):
        try:
            return gzip.decompress(data)
        except (OSError, EOFError, __import__('zlib').error):
            return None
    return data
