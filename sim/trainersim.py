"""Simulation of the training process.

The real Trainer, batch iterators, stoppers, vocabulary and HDF5 model file run
under a simulator that owns: the validation costs, the random seed, the clock,
the kill/interrupt points and what survives on disk.  Every event is compared
with a small reference model (``Ref``), written from the documented behaviour.

Each disagreement has an *aspect*; a property's check decides on the aspects
that belong to the property.
"""

import copy
import hashlib
import io
import os
import pickle
import sys
import traceback

from sim.core import Violation, Abort, HarnessError, Ctx, REPO, repo_frames
from sim.clock import CLOCK, install

install()
import numpy                                            # noqa: E402
import h5py                                             # noqa: E402
import theano                                           # noqa: E402,F401
from theanolm.backend import TextFileType               # noqa: E402
from theanolm.backend.parameters import Parameters      # noqa: E402
from theanolm.training.trainer import Trainer           # noqa: E402
from theanolm.parsing import LinearBatchIterator        # noqa: E402
from theanolm.vocabulary import Vocabulary              # noqa: E402
import logging                                          # noqa: E402


class SimKill(BaseException):
    """The simulated process dies here."""


class EndOfRun(BaseException):
    """Enough has been explored."""


class Mismatch(Exception):
    def __init__(self, aspect, detail):
        super().__init__(aspect, detail)
        self.aspect = aspect
        self.detail = detail


# ------------------------------------------------------------------ corpus model

def tokens(line):
    words = line.split()
    if not words:
        return []
    if words[0] != '<s>':
        words.insert(0, '<s>')
    if words[-1] != '</s>':
        words.append('</s>')
    return words


def pieces(line, limit):
    words = tokens(line)
    if not words:
        return []
    if limit is None:
        return [words] if len(words) >= 2 else []
    result = [words[i:i + limit] for i in range(0, len(words), limit)]
    return [x for x in result if len(x) >= 2]


class Corpus:
    """What the data looks like according to the documentation."""

    def __init__(self, plan):
        self.limit = plan['L']
        self.lines = []             # (file, line text)
        for fi, lines in enumerate(plan['files']):
            for line in lines:
                self.lines.append((fi, line))
        self.pieces = []            # per line: list of pieces
        for fi, line in self.lines:
            self.pieces.append([(fi, tuple(p)) for p in pieces(line, self.limit)])
        self.total = sum(len(p) for p in self.pieces)
        # index from first piece to the lines that start with it
        self.first = {}
        for i, p in enumerate(self.pieces):
            if p:
                self.first.setdefault(p[0], []).append(i)


class Pass:
    """One pass over the data: the order of pieces as observed so far."""

    def __init__(self, pid):
        self.pid = pid
        self.order = []             # observed pieces
        self.line_order = []        # observed sentences, in order
        self.remaining_keys = {}    # sentence -> how often it is still due
        self.used = {}              # with sampling: sentence -> how often used
        self.open_lines = []        # rest of the sentence being read


# ------------------------------------------------------------------ reference

def median(x):
    s = sorted(x)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


STATS = {'median': median, 'mean': lambda x: sum(x) / len(x), 'max': max, 'min': min}


class Ref:
    """Reference model of a training history over several incarnations."""

    def __init__(self, plan):
        self.plan = plan
        self.corpus = Corpus(plan)
        self.sampling = bool(plan.get('sampling'))
        B = plan['B']
        self.U = (self.corpus.total + B - 1) // B
        self.n = plan.get('nsamples') or 7
        self.f = plan['f']
        self.points = set()
        for k in range(1, self.f + 1):
            self.points.add(-(-k * self.U // self.f))
        self.passes = {}
        self.base_remaining = {}
        self.next_pid = 0
        self.chain = {}             # fingerprint before update -> (piece list, fp after, lr)
        self.disk = None            # snapshot expected on disk (or None)
        self.vcount = 0             # validations done so far in the whole run
        self.scount = 0             # stray samples
        self.updates = 0
        self.kills = 0
        self.restored = False
        self.log = []

    def stat(self, x):
        return STATS[self.plan.get('stat') or 'median'](x)

    # -- life cycle

    def new_pass(self):
        p = Pass(self.next_pid)
        p.remaining_keys = dict(self.base_remaining)
        self.passes[p.pid] = p
        self.next_pid += 1
        return p.pid

    def start(self, snapshot, lr):
        """A new process starts from the given disk state."""
        self.samples = []
        self.center = None
        self.expect_score = None
        self.pending_save = None
        self.finished = False
        self.rolled_back = False
        crit = self.plan['criterion']
        self.crit = crit
        self.annealing_left = self.plan['max_ann']
        self.no_improved = True
        self.no_cost = None
        if snapshot is None:
            self.epoch, self.update, self.lr = 1, 0, lr
            self.history = []
            self.cand_cost = None
            self.pid, self.pos = self.new_pass(), 0
            self.fp = None
            self.restored = False
        else:
            self.load(snapshot)
            self.lr = snapshot['lr']
            self.restored = True
        self.resync = True
        self.epoch_gate()

    def load(self, s):
        self.epoch, self.update = s['epoch'], s['update']
        self.history = list(s['history'])
        self.cand_cost = self.history[-1] if self.history else None
        self.pid, self.pos = s['pid'], s['pos']
        self.fp = s['fp']

    def snapshot(self):
        return {'epoch': self.epoch, 'update': self.update, 'history': list(self.history),
                'pid': self.pid, 'pos': self.pos, 'fp': self.fp, 'lr': self.lr,
                'at': self.updates}

    # -- stopping criterion

    def may_start_minibatch(self):
        if self.crit == 'epoch-count':
            return True
        if self.epoch <= self.plan['min_e']:
            return True
        if self.crit == 'annealing-count':
            return self.annealing_left >= 0
        if self.no_improved:
            return True
        if self.cand_cost is not None and (self.no_cost is None or self.cand_cost < self.no_cost):
            self.no_improved = True
            return True
        return False

    def epoch_gate(self):
        if self.epoch > self.plan['max_e'] or not self.may_start_minibatch():
            self.finished = True

    def ceased(self):
        self.annealing_left -= 1
        if self.cand_cost is None:
            self.no_improved = False
        elif self.no_cost is None:
            self.no_improved = True
            self.no_cost = self.cand_cost
        else:
            self.no_improved = self.cand_cost < self.no_cost
            self.no_cost = self.cand_cost

    # -- events

    def at_pass_end(self):
        return (not self.sampling) and self.pos >= self.corpus.total

    def end_epoch(self):
        """The data ran out: account for it and decide about the next epoch."""
        self.epoch += 1
        self.update = 0
        self.pid, self.pos = self.new_pass(), 0
        if not self.plan['validation']:
            self.pending_save = self.snapshot()
        self.epoch_gate()

    def before_update(self):
        """Advance the model to the point where an update is due."""
        guard = 0
        while not self.finished and self.at_pass_end():
            self.end_epoch()
            guard += 1
            if guard > 1000:
                raise HarnessError('empty corpus')

    def window(self, u):
        """None if no sample is due after update u, else (index, point)."""
        for point in self.points:
            if point - self.n + 1 <= u <= point:
                return u - (point - self.n + 1), point
        return None

    def after_update(self):
        """Called once the update is done; decides whether a sample is due."""
        self.expect_score = self.window(self.update) if self.plan['validation'] else None
        if self.expect_score is None:
            self.gate()

    def gate(self):
        if not self.finished and not self.may_start_minibatch():
            # training breaks out of the epoch: nothing may follow
            self.finished = True

    def target_cost(self, spec):
        if self.cand_cost is None:
            return spec.get('first', 100.0)
        if spec['rel'] == 'exact' and self.cand_cost == 1000.0:
            # exactly at the limit, however the comparison is written
            return 999.0
        factor = {'exact': 0.9995, 'big': 0.8, 'clear': 0.99, 'slight': 0.9985, 'within': 0.9995, 'equal': 1.0,
                  'worse': 1.05, 'much': 2.5, 'abit': 1.0002, 'barely': 0.99895, 'nearly': 0.99905}[spec['rel']]
        return self.cand_cost * factor

    def score(self):
        """A validation sample is taken.  Returns its perplexity."""
        index, point = self.expect_score
        costs = self.plan['costs']
        spec = costs[self.vcount % len(costs)] if costs else {'rel': 'worse', 'shape': [1.0]}
        shape = [spec['shape'][i % len(spec['shape'])] for i in range(self.n)]
        target = self.target_cost(spec)
        value = target * shape[len(self.samples) % self.n] / self.stat(shape)
        if len(self.samples) != index:
            # These samples will be thrown away: make them tempting.
            value = target * (0.5 if (self.scount % 2) else 1.7)
            self.scount += 1
        self.samples.append(value)
        if index >= self.n // 2 and self.center is None:
            self.center = self.snapshot()
        return value

    def after_score(self):
        """The outcome of a validation point, if this was one."""
        index, point = self.expect_score
        self.expect_score = None
        if self.update == point:
            if len(self.samples) >= self.n:
                cost = self.stat(self.samples[-self.n:])
                self.vcount += 1
                self.history = self.history + [cost]
                if self.cand_cost is None or cost < 0.999 * self.cand_cost:
                    self.cand_cost = cost
                    snap = dict(self.center)
                    snap['history'] = list(self.history)
                    self.pending_save = snap
                    self.cand_index = len(self.history) - 1
                    self.log.append('improved')
                else:
                    self.log.append('no')
                if self.plan['patience'] >= 0 and \
                   len(self.history) - 1 - self.candidate_index() > self.plan['patience']:
                    self.lr = self.lr / 2
                    self.load(self.saved())
                    self.rolled_back = True
                    self.ceased()
                    self.log.append('anneal')
            else:
                self.log.append('skip')
            self.samples = []
            self.center = None
        self.gate()

    def saved(self):
        return self.pending_save if self.pending_save is not None else self.disk

    def candidate_index(self):
        s = self.saved()
        return len(s['history']) - 1

    def state(self):
        return (self.epoch, self.update)


# ------------------------------------------------------------------ subject stubs

def h2floats(seed, name, n):
    out = []
    i = 0
    while len(out) < n:
        d = hashlib.sha256(('%s|%s|%d' % (seed, name, i)).encode()).digest()
        for k in range(0, 32, 8):
            out.append(int.from_bytes(d[k:k + 6], 'big') / float(1 << 48))
        i += 1
    return numpy.asarray(out[:n], dtype='float64')


NET_PARAMS = {'layers/proj/W': (3, 2), 'layers/hid/b': (5,), 'layers/out/scale': ()}
OPT_PARAMS = {'optimizer/velocity/layers/proj/W': (3, 2), 'optimizer/timestep': ()}


class StubSystem:
    """Network and optimizer whose whole state is a hash of the update history."""

    real = False

    def __init__(self, plan, incarnation):
        self.net = Parameters()
        self.opt = Parameters()
        for path, shape in NET_PARAMS.items():
            self.net.add(path, h2floats('init%d' % incarnation, path, max(1, int(numpy.prod(shape)))).reshape(shape))
        for path, shape in OPT_PARAMS.items():
            self.opt.add(path, h2floats('init%d' % incarnation, path, max(1, int(numpy.prod(shape)))).reshape(shape))
        self.network = _StubNetwork(self)
        self.optimizer = _StubOptimizer(self, plan['lr'])

    def values(self):
        result = {}
        for path in NET_PARAMS:
            result[path] = numpy.array(self.net[path].get_value())
        for path in OPT_PARAMS:
            result[path] = numpy.array(self.opt[path].get_value())
        return result

    def step(self, digest):
        before = fingerprint(self.values())
        seed = hashlib.sha256(('%s|%s|%r' % (before, digest, float(self.optimizer.learning_rate))).encode()).hexdigest()
        for params, shapes in ((self.net, NET_PARAMS), (self.opt, OPT_PARAMS)):
            for path, shape in shapes.items():
                params[path].set_value(h2floats(seed, path, max(1, int(numpy.prod(shape)))).reshape(shape))


class _StubNetwork:
    def __init__(self, system):
        self._system = system

    def get_state(self, state):
        self._system.net.get_state(state)

    def set_state(self, state):
        self._system.net.set_state(state)


class _StubOptimizer:
    def __init__(self, system, lr):
        self._system = system
        self.learning_rate = lr
        self.hook = None

    def get_state(self, state):
        state.require_group('optimizer').attrs['learning_rate'] = self.learning_rate
        self._system.opt.get_state(state)

    def set_state(self, state):
        self.learning_rate = state['optimizer'].attrs['learning_rate']
        self._system.opt.set_state(state)

    def update_minibatch(self, word_ids, class_ids, file_ids, mask):
        self.hook(word_ids, class_ids, file_ids, mask)


def fingerprint(values):
    sha = hashlib.sha256()
    for path in sorted(values):
        v = numpy.asarray(values[path])
        sha.update(path.encode())
        sha.update(str(v.shape).encode())
        sha.update(numpy.ascontiguousarray(v).astype('float64').tobytes())
    return sha.hexdigest()[:20]


def read_model(data):
    """Independent reader of a model file image."""
    f = h5py.File(io.BytesIO(data), 'r')
    try:
        out = {'values': {}}
        if 'trainer' not in f:
            return None
        t = f['trainer']
        out['epoch'] = int(t.attrs['epoch_number'])
        out['update'] = int(t.attrs['update_number'])
        out['history'] = [float(x) for x in t['cost_history'][...]] if 'cost_history' in t else None
        out['lr'] = float(f['optimizer'].attrs['learning_rate'])

        def visit(name, obj):
            if isinstance(obj, h5py.Dataset) and (name.startswith('layers/') or name.startswith('optimizer/')):
                out['values'][name] = obj[...]
        f.visititems(visit)
        return out
    finally:
        f.close()


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, min(abs(a), abs(b)))


def same_history(a, b):
    return a is not None and b is not None and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))


# ------------------------------------------------------------------ line tracer

class LineBomb:
    """Raises an exception when the n-th line of the code under test is reached."""

    def __init__(self, count, exc, before=None):
        self.left = count
        self.exc = exc
        self.before = before
        self.fired = False
        self.where = None

    def arm(self):
        frame = sys._getframe(1)
        while frame is not None:
            if frame.f_code.co_filename.startswith(REPO):
                frame.f_trace = self.trace
            frame = frame.f_back
        sys.settrace(self.trace)

    def disarm(self):
        sys.settrace(None)
        frame = sys._getframe(1)
        while frame is not None:
            frame.f_trace = None
            frame = frame.f_back

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(REPO):
            return None
        if event == 'line' and not self.fired:
            self.left -= 1
            if self.left <= 0:
                self.fired = True
                self.where = '%s:%d' % (os.path.relpath(frame.f_code.co_filename, REPO), frame.f_lineno)
                sys.settrace(None)
                if self.before:
                    self.before()
                raise self.exc
        return self.trace


# ------------------------------------------------------------------ the simulator

class TrainSim:
    def __init__(self, plan, ctx, make_system=None, aspects=None):
        self.plan = plan
        self.ctx = ctx
        self.ref = Ref(plan)
        self.aspects = aspects
        self.make_system = make_system or (lambda plan, inc: StubSystem(plan, inc))
        self.events = 0             # seam events in this incarnation
        self.model_path = None
        self.disk_bytes = None
        self.incarnation = 0
        self.bomb = None
        self.kill_bytes = None
        self.forked = make_system is not None

    # -- set-up of files

    def write_inputs(self):
        d = self.ctx.scratch
        self.train_paths = []
        for i, lines in enumerate(self.plan['files']):
            path = os.path.join(d, 'train%d.txt' % i)
            text = '\n'.join(lines)
            if self.plan.get('final_newline', True):
                text += '\n'
            with open(path, 'wb') as f:
                f.write(text.encode('utf-8'))
            self.train_paths.append(path)
        self.dev_path = os.path.join(d, 'dev.txt')
        with open(self.dev_path, 'w', encoding='utf-8') as f:
            # a word that has a probability: one of the training data
            short = self.plan['vocab']['shortlist']
            seen = {w for fl in self.plan['files'] for x in fl for w in x.split()}
            f.write('%s b\n' % ([w for w in short if w in seen] or short)[0])
        self.vocab = make_vocabulary(self.plan)
        self.w2i = dict(self.vocab.word_to_id)
        self.unk = self.w2i['<unk>']
        self.classes = numpy.asarray(self.vocab.word_id_to_class_id)
        shortlist = self.vocab.num_shortlist_words()
        self.expected_id = {}
        for w, i in self.w2i.items():
            self.expected_id[w] = i if i < shortlist else self.unk

    def piece_ids(self, piece):
        return tuple(self.expected_id.get(w, self.unk) for w in piece[1])

    def piece_key(self, piece):
        """What identifies a piece in a mini-batch: file and word IDs."""
        return (piece[0], self.piece_ids(piece))

    # -- disk

    def disk(self):
        with open(self.model_path, 'rb') as f:
            return f.read()

    def check_disk(self, where):
        """The model file must hold the reference's saved state."""
        data = self.disk()
        ref = self.ref
        if ref.pending_save is not None:
            ref.disk = ref.pending_save
            ref.pending_save = None
            self.ctx.probe('save')
        if data == self.disk_bytes and ref.disk is self.disk_snap:
            return
        self.disk_bytes = data
        self.disk_snap = ref.disk
        self.compare_disk(data, ref.disk, where)

    def compare_disk(self, data, snap, where):
        try:
            got = read_model(data) if data else None
        except Exception as e:      # pylint: disable=broad-except
            if snap is None:
                return False        # nothing has been saved yet
            if os.environ.get('VSIM_DUMP'):
                open(os.environ['VSIM_DUMP'], 'wb').write(data)
            raise Mismatch('file:unreadable', 'model file cannot be read (%s): %s' % (where, e))
        if snap is None:
            if got is not None:
                raise Mismatch('file:early', 'a state was written to the model file although no state '
                               'had been selected (%s)' % where)
            return True
        if got is None:
            raise Mismatch('file:missing', 'the model file has no training state although one was selected (%s)' % where)
        want = snap['values']
        for path in sorted(want):
            if path not in got['values']:
                raise Mismatch('file:params', 'parameter %s is missing from the model file (%s)' % (path, where))
            g = got['values'][path]
            if g.shape != want[path].shape or not numpy.array_equal(g, want[path]):
                raise Mismatch('file:params', 'parameter %s in the model file is not the one of the selected '
                               'state, update %d of epoch %d (%s)' % (path, snap['update'], snap['epoch'], where))
        for key in ('epoch', 'update'):
            if got[key] != snap[key]:
                raise Mismatch('file:position', '%s number in the model file is %d, expected %d (%s)'
                               % (key, got[key], snap[key], where))
        if not close(got['lr'], snap['lr']):
            raise Mismatch('file:lr', 'learning rate in the model file is %r, expected %r (%s)' % (got['lr'], snap['lr'], where))
        if not same_history(got['history'], snap['history']):
            raise Mismatch('file:history', 'cost history in the model file is %r, expected %r (%s)'
                           % (got['history'], snap['history'], where))
        return True

    # -- faults

    def seam(self, name):
        """A point where the simulator may strike."""
        self.events += 1
        for fault in self.plan['faults']:
            if fault['inc'] != self.incarnation or fault['at'] != self.events:
                continue
            if self.ref.finished:
                continue
            kind = fault['kind']
            if kind == 'kill' and fault.get('lines'):
                self.bomb = LineBomb(fault['lines'], SimKill(), self.at_kill)
                self.bomb_kind = 'kill-line'
                self.bomb.arm()
            elif kind == 'kill':
                self.ctx.fault('kill@' + name)
                self.at_kill()
                raise SimKill()
            elif kind == 'interrupt' and not fault.get('lines'):
                self.ctx.fault('interrupt@' + name)
                raise KeyboardInterrupt()
            elif kind == 'interrupt':
                self.bomb = LineBomb(fault['lines'], KeyboardInterrupt(), None)
                self.bomb_kind = 'interrupt-line'
                self.bomb.arm()
            elif kind == 'error':
                self.ctx.fault('error@' + name)
                raise SimError('simulated failure')

    def at_kill(self):
        self.kill_bytes = self.disk()

    # -- events from the code under test

    def on_update(self, word_ids, class_ids, file_ids, mask):
        self.quiet_trace()
        ref, ctx = self.ref, self.ctx
        self.settle('before update')
        if ref.finished:
            raise Mismatch('stop:late', 'an update was performed after training should have stopped (%s)' % self.describe())
        ref.before_update()
        epoch, update = self.trainer.epoch_number, self.trainer.update_number
        if ref.sampling and epoch == ref.epoch + 1 and update == 1 and ref.pos > 0:
            self.end_sampled_pass()
        if ref.pending_save is not None:
            self.settle_values()
        self.check_disk('before update')
        if ref.finished:
            raise Mismatch('stop:late', 'an update was performed after training should have stopped (%s)' % self.describe())
        fp_before = fingerprint(self.system.values())
        lr = float(self.system.optimizer.learning_rate)
        where = 'epoch %d, update %d' % (epoch, update)
        restored = ref.resync and ref.restored
        tag = 'resume' if restored else ('rollback' if ref.rolled_back else 'train')
        if ref.resync and not ref.restored:
            ref.fp = fp_before
        if not close(lr, ref.lr):
            raise Mismatch(tag + ':lr', 'learning rate is %r, expected %r (%s)' % (lr, ref.lr, where))
        if fp_before != ref.fp:
            raise Mismatch(tag + ':params', 'parameters before the update are not those of the expected state (%s)' % where)
        if (epoch, update) != (ref.epoch, ref.update + 1):
            raise Mismatch(tag + ':position', 'update %d of epoch %d was performed, expected update %d of epoch %d'
                           % (update, epoch, ref.update + 1, ref.epoch))
        if ref.plan['validation']:
            self.check_counts(tag)
        batch = self.decode_batch(word_ids, class_ids, file_ids, mask)
        self.account(batch, tag)
        ref.resync = False
        ref.rolled_back = False
        ref.update += 1
        ref.updates += 1
        ctx.steps += 1
        digest = hashlib.sha256(repr(batch).encode()).hexdigest()[:12]
        ctx.event('update', epoch, update, digest, lr)
        self.rearm()
        self.seam('update')
        self.quiet_trace()
        self.system.step((word_ids, class_ids, file_ids, mask) if self.system.real else digest)
        ref.fp = fingerprint(self.system.values())
        prev = ref.chain.get((fp_before, lr, digest))
        entry = ref.fp
        if prev is not None and prev != entry:
            raise Mismatch(tag + ':chain', 'the same state and mini-batch gave a different result than '
                           'before the restart or rollback (%s)' % where)
        ref.chain[(fp_before, lr, digest)] = entry
        ref.after_update()
        if ref.center is None and ref.plan['validation'] and ref.expect_score:
            self.maybe_center = self.system.values()
        self.values_now = self.system.values()
        if ref.updates >= self.plan['max_updates']:
            raise EndOfRun()
        self.rearm()

    def check_counts(self, tag):
        """Validation history as reported by the trainer."""
        ref, t = self.ref, self.trainer
        cost = t.candidate_cost()
        if (cost is None) != (ref.cand_cost is None) or (cost is not None and not close(float(cost), ref.cand_cost)):
            raise Mismatch(tag + ':history', 'cost of the best state is %r, expected %r (%s)' % (cost, ref.cand_cost, self.describe()))
        if t.num_validations() != len(ref.history):
            raise Mismatch(tag + ':history', '%d validations in the history, expected %d' % (t.num_validations(), len(ref.history)))
        if ref.history and ref.saved() is not None:
            since = len(ref.history) - 1 - ref.candidate_index()
            if t.validations_since_candidate() != since:
                raise Mismatch(tag + ':history', '%d validations since the best state, expected %d'
                               % (t.validations_since_candidate(), since))

    def settle(self, where):
        """Everything that the previous event entails must have happened."""
        if self.ref.expect_score is not None:
            raise Mismatch('schedule:missing', 'no validation sample was taken after update %d of epoch %d (%d updates per epoch, '
                           'frequency %d)' % (self.ref.update, self.ref.epoch, self.ref.U, self.ref.f))

    def settle_values(self):
        """Attach parameter values to a save that the reference announced."""
        snap = self.ref.pending_save
        if snap is not None and 'values' not in snap:
            snap['values'] = self.values_now

    def on_score(self, it):
        self.quiet_trace()
        ref, ctx = self.ref, self.ctx
        self.check_disk('at validation')
        if ref.expect_score is None:
            raise Mismatch('schedule:extra', 'a validation sample was taken after update %d of epoch %d, which is '
                           'not due (%d updates per epoch, frequency %d)' % (ref.update, ref.epoch, ref.U, ref.f))
        if it is not self.validation_iter:
            raise Mismatch('schedule:data', 'validation was not performed on the validation data')
        self.rearm()
        self.seam('score')
        self.quiet_trace()
        if fingerprint(self.system.values()) != ref.fp:
            raise Mismatch('schedule:params', 'validation sample not taken on the parameters of the last update')
        had_center = ref.center is not None
        value = ref.score()
        if ref.center is not None and not had_center:
            ref.center['values'] = self.values_now
        ctx.event('score', ref.epoch, ref.update, round(value, 6))
        before = len(ref.log)
        ref.after_score()
        for x in ref.log[before:]:
            ctx.probe('validation:' + x)
            ctx.event('outcome', x)
        if 'anneal' in ref.log[before:]:
            ctx.probe('anneal')
            if ref.disk is not None and ref.disk['at'] < ref.updates - ref.U:
                ctx.probe('anneal-over-epoch')
            if ref.at_pass_end():
                ctx.probe('anneal-to-pass-end')
        self.rearm()
        return value

    # -- batches

    def decode_batch(self, word_ids, class_ids, file_ids, mask):
        word_ids, file_ids, mask = (numpy.asarray(x) for x in (word_ids, file_ids, mask))
        class_ids = numpy.asarray(class_ids)
        if not (word_ids.shape == file_ids.shape == mask.shape == class_ids.shape) or word_ids.ndim != 2:
            raise Mismatch('data:shape', 'mini-batch matrices have shapes %s %s %s %s'
                           % (word_ids.shape, class_ids.shape, file_ids.shape, mask.shape))
        if not numpy.array_equal(self.classes[word_ids], class_ids):
            raise Mismatch('data:classes', 'class IDs of a mini-batch do not match its word IDs')
        batch = []
        for s in range(word_ids.shape[1]):
            m = [int(x) for x in mask[:, s]]
            length = sum(1 for x in m if x)
            if m != [1] * length + [0] * (len(m) - length):
                raise Mismatch('data:mask', 'invalid mask %r' % m)
            fids = set(int(x) for x in file_ids[:length, s])
            if len(fids) != 1:
                raise Mismatch('data:file', 'a sequence has file IDs %r' % sorted(fids))
            batch.append((fids.pop(), tuple(int(x) for x in word_ids[:length, s])))
        return batch

    def account(self, batch, tag):
        """Matches the sequences of a mini-batch with the current pass."""
        ref = self.ref
        p = ref.passes[ref.pid]
        B = self.plan['B']
        if len(batch) > B or (len(batch) < B and not ref.sampling and ref.pos + len(batch) != ref.corpus.total):
            raise Mismatch('data:batch-size', '%d sequences in a mini-batch of size %d in the middle of an epoch' % (len(batch), B))
        for key in batch:
            if ref.pos < len(p.order):
                if p.order[ref.pos] != key:
                    raise Mismatch(tag + ':data' if tag != 'train' else 'replay:data',
                                   'sequence %d of the pass is %r, was %r before the interruption (%s)'
                                   % (ref.pos, key, p.order[ref.pos], self.describe()))
                ref.pos += 1
                continue
            self.extend(p, key, tag)
            p.order.append(key)
            ref.pos += 1

    def extend(self, p, key, tag):
        where = tag if tag != 'train' else 'epoch'
        if p.open_lines:
            nxt = [r for r in p.open_lines if r and r[0] == key]
            if nxt:
                p.open_lines = [r[1:] for r in nxt]
                p.open_lines = p.open_lines if any(p.open_lines) else []
                self.finish_line(p)
                return
            if all(p.open_lines):
                raise Mismatch(where + ':data', 'a long sentence was not continued: got %r, expected one of %r'
                               % (key, [r[0] for r in p.open_lines]))
            p.open_lines = []
        lines = self.lines_by_first.get(key)
        if not lines:
            raise Mismatch(where + ':data', 'sequence %r does not start any training sentence of that file' % (key,))
        if not self.ref.sampling:
            avail = [ln for ln in lines if p.remaining_keys[ln] > 0]
            if not avail:
                raise Mismatch(where + ':twice', 'sentence starting with %r was used more often in one epoch than it occurs' % (key,))
            if len(set(avail)) == 1:
                p.remaining_keys[avail[0]] -= 1
                p.open_lines = [avail[0][1:]] if avail[0][1:] else []
            else:
                # Lines that share their first piece: generator avoids this.
                raise Abort('ambiguous data')
        else:
            ln = lines[0]
            p.used[ln] = p.used.get(ln, 0) + 1
            p.open_lines = [ln[1:]] if ln[1:] else []
        p.line_order.append(lines[0])

    def finish_line(self, p):
        pass

    def end_sampled_pass(self):
        """With sampling, the end of an epoch is observed, not predicted."""
        ref = self.ref
        p = ref.passes[ref.pid]
        self.check_sampled(p)
        ref.end_epoch()
        if ref.pending_save is not None:
            self.settle_values()
        self.check_disk('after epoch')

    def check_sampled(self, p):
        frac = self.plan['sampling']
        for fi, lines in enumerate(self.plan['files']):
            fr = frac[fi] if fi < len(frac) else 1.0
            want = round(fr * len(lines))
            got = sum(c for ln, c in p.used.items() if ln[0][0] == fi)
            if got != want:
                raise Mismatch('epoch:sampling', '%d sentences of file %d used in an epoch, expected %d' % (got, fi, want))
            if fr <= 1.0:
                for ln, c in p.used.items():
                    if ln[0][0] == fi and c > 1:
                        raise Mismatch('epoch:twice', 'a sentence was sampled twice')

    # -- orders of completed passes

    def check_orders(self):
        ref = self.ref
        full = [p for p in ref.passes.values() if len(p.order) >= ref.corpus.total and not ref.sampling]
        linear = [tuple(k for k in self.all_line_keys if k)]
        for p in full:
            left = {k: v for k, v in p.remaining_keys.items() if v}
            if left:
                raise Mismatch('epoch:missing', 'sentences left out of an epoch: %r' % list(left)[:3])
        orders = [tuple(p.line_order) for p in full]
        if len(set(linear[0])) >= 12:
            for o in orders:
                if o == linear[0]:
                    raise Mismatch('order:unshuffled', 'an epoch was trained in the order of the files')
                files = [k[0][0] for k in o]
                counts = [files.count(f) for f in set(files)]
                if len(counts) > 1 and min(counts) >= 8:
                    changes = sum(1 for a, b in zip(files, files[1:]) if a != b)
                    if changes == len(counts) - 1:
                        raise Mismatch('order:unmixed', 'the training files were not mixed')
                    self.ctx.probe('files-mixed')
                for f in set(files):
                    sub = [k for k in o if k[0][0] == f]
                    lin = [k for k in linear[0] if k[0][0] == f]
                    if len(set(lin)) >= 12 and sub == lin:
                        raise Mismatch('order:unshuffled', 'the sentences of a file were trained in file order')
            if len(orders) > 1:
                self.ctx.probe('fresh-order', len(orders) - 1)
                if len(set(orders)) != len(orders):
                    raise Mismatch('order:repeated', 'two epochs used the same order of sentences')

    def describe(self):
        r = self.ref
        return ('incarnation %d, epoch %d, update %d, %d updates in total; %d updates per epoch; validations: %s'
                % (self.incarnation, r.epoch, r.update, r.updates, r.U, ' '.join(r.log[-12:])))

    # -- tracing helpers (line level kills only count lines of the code under test)

    def quiet_trace(self):
        if self.bomb is not None and not self.bomb.fired:
            sys.settrace(None)

    def rearm(self):
        if self.bomb is not None and not self.bomb.fired:
            self.bomb.arm()

    # -- one incarnation

    def incarnate(self):
        """One process life.  Returns how it ended."""
        plan, ref = self.plan, self.ref
        self.events = 0
        self.bomb = None
        self.kill_bytes = None
        numpy.random.seed((plan['seed'] + self.incarnation) % (1 << 31))
        CLOCK.reset(plan.get('clock', ()))
        self.system = self.make_system(plan, self.incarnation)
        opt = self.system.optimizer
        opt.learning_rate = plan['lr']
        files = [TextFileType('r')(p) for p in self.train_paths]
        options = {'batch_size': plan['B'], 'sequence_length': plan['L'],
                   'validation_frequency': plan['f'], 'patience': plan['patience'],
                   'stopping_criterion': plan['criterion'], 'max_epochs': plan['max_e'],
                   'min_epochs': plan['min_e'], 'max_annealing_count': plan['max_ann']}
        state = h5py.File(self.model_path, 'a', driver='core')
        ended = None
        try:
            try:
                self.trainer = Trainer(options, self.vocab, files, plan.get('sampling', []))
                self.trainer.set_logging(plan.get('log', 0))
                self.system.hook(self.on_update)
                self.trainer.initialize(self.system.network, state, opt)
                if plan['validation']:
                    dev = TextFileType('r')(self.dev_path)
                    self.validation_iter = LinearBatchIterator(dev, self.vocab, batch_size=2)
                    kw = {}
                    if plan.get('nsamples'):
                        kw['samples_per_validation'] = plan['nsamples']
                    if plan.get('stat'):
                        kw['statistics_function'] = STATS[plan['stat']]
                    self.trainer.set_validation(self.validation_iter, _Scorer(self), **kw)
                self.first_event()
                self.rearm()
                self.seam('start')
                self.trainer.train()
                self.quiet_trace()
                ended = 'finished'
            finally:
                sys.settrace(None)
                if self.bomb is not None and self.bomb.fired:
                    self.ctx.fault(self.bomb_kind)
                    self.ctx.event('line', self.bomb_kind, self.bomb.left)
        except SimKill:
            ended = 'kill'
        except KeyboardInterrupt:
            ended = 'interrupt'
        except SimError:
            ended = 'error'
        except EndOfRun:
            ended = 'cap'
        if ended == 'finished':
            self.on_finished()
        # What a ``with h5py.File(...)`` block does on the way out; after a kill,
        # the bytes that were on disk at that moment are what survives.
        state.close()
        self.close_stray()
        for f in files:
            f.close()
        return ended

    TRANSFER = ('ref', 'kill_bytes', 'values_now', 'events')

    def incarnate_forked(self):
        """One process life in a process of its own: nothing survives but what
        the reference model and the disk know."""
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                parent_ctx = self.ctx
                self.ctx = child = Ctx(parent_ctx.scratch)
                child.record = []
                try:
                    result = ('ended', self.incarnate())
                except Mismatch as m:
                    result = ('mismatch', m.aspect, str(m.detail))
                except Abort as e:
                    result = ('abort', str(e))
                except HarnessError as e:
                    result = ('harness', str(e))
                except BaseException as e:      # pylint: disable=broad-except
                    frames = repo_frames(e.__traceback__)
                    text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]
                    result = ('violation' if frames else 'harness', type(e).__name__, text)
                self.ctx = None
                data = pickle.dumps((result, [getattr(self, k, None) for k in self.TRANSFER],
                                     child.record, dict(child.faults), dict(child.probes), child.steps))
                with os.fdopen(wfd, 'wb') as f:
                    f.write(data)
            except BaseException:               # pylint: disable=broad-except
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise HarnessError('incarnation process died')
        result, attrs, record, faults, probes, steps = pickle.loads(data)
        for k, v in zip(self.TRANSFER, attrs):
            if k == 'ref':
                self.ref.__dict__.update(v.__dict__)
            else:
                setattr(self, k, v)
        for e in record:
            self.ctx.event(*e)
        for k, v in faults.items():
            self.ctx.fault(k, v)
        for k, v in probes.items():
            self.ctx.probe(k, v)
        self.ctx.steps += steps
        if result[0] == 'ended':
            return result[1]
        if result[0] == 'mismatch':
            raise Mismatch(result[1], result[2])
        if result[0] == 'abort':
            raise Abort(result[1])
        if result[0] == 'violation':
            raise Violation('unexpected-exception:' + result[1], result[2])
        raise HarnessError(' '.join(result[1:]))

    def close_stray(self):
        import gc
        self.trainer = None
        gc.collect()
        for obj in h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE):
            try:
                h5py.File(obj).close()
            except Exception:       # pylint: disable=broad-except
                pass

    def first_event(self):
        """State right after initialization, before training."""
        ref = self.ref
        if ref.restored:
            if fingerprint(self.system.values()) != ref.fp:
                raise Mismatch('resume:params', 'parameters after restart differ from the saved ones')
        self.values_now = self.system.values()

    def on_finished(self):
        ref = self.ref
        self.settle('at the end')
        if ref.sampling:
            if not ref.finished:
                self.end_sampled_pass()
        else:
            ref.before_update()
        if ref.pending_save is not None:
            self.settle_values()
        self.check_disk('after training')
        if not ref.finished:
            raise Mismatch('stop:early', 'training stopped although it should go on (%s)' % self.describe())
        self.ctx.probe('finished:' + self.plan['criterion'])
        self.ctx.event('finished', ref.epoch, ref.update)

    # -- the whole run

    def run(self):
        plan, ref = self.plan, self.ref
        self.write_inputs()
        self.all_line_keys = []
        self.lines_by_first = {}
        for p in ref.corpus.pieces:
            key = tuple(self.piece_key(x) for x in p)
            self.all_line_keys.append(key)
            if key:
                ref.base_remaining[key] = ref.base_remaining.get(key, 0) + 1
                lst = self.lines_by_first.setdefault(key[0], [])
                if key not in lst:
                    lst.append(key)
        self.disk_snap = None
        self.model_path = os.path.join(self.ctx.scratch, 'model0.h5')
        self.disk_bytes = None
        snapshot = None
        ended = None
        while True:
            ref.start(snapshot, plan['lr'])
            self.disk_bytes = None
            self.disk_snap = None
            ended = self.incarnate_forked() if self.forked else self.incarnate()
            self.ctx.event('end', self.incarnation, ended)
            if ended in ('finished', 'cap'):
                if ended == 'finished' and plan.get('rerun_finished') and self.incarnation < 6:
                    self.ctx.fault('restart-after-finish')
                    plan['rerun_finished'] -= 1
                    data = self.disk()
                else:
                    break
            elif ended == 'kill':
                data = self.kill_bytes
            else:
                data = self.disk()
            if ended in ('interrupt', 'error', 'kill'):
                ref.kills += 1
            if not plan['validation'] and not ref.finished and ref.pending_save is None and \
               not ref.sampling and ref.at_pass_end():
                ref.end_epoch()     # may have been killed while saving after the epoch
            if ref.pending_save is not None and ended != 'finished':
                # Killed while the state was being saved: either is allowed.
                self.settle_values()
                self.ctx.probe('killed-while-saving')
                old, new = ref.disk, ref.pending_save
                ref.pending_save = None
                try:
                    self.compare_disk(data, new, 'after %s while saving' % ended)
                    ref.disk = new
                    self.ctx.probe('killed-while-saving:new')
                except Mismatch:
                    try:
                        if not self.compare_disk(data, old, 'after %s while saving' % ended):
                            data = b''
                    except Mismatch as m:
                        raise Mismatch('torn:' + ended, 'after a %s while a state was being saved, the model file is '
                                       'neither the old nor the new state: %s' % (ended, m.detail))
                    self.ctx.probe('killed-while-saving:old')
            elif not self.compare_disk(data, ref.disk, 'after ' + ended) and ref.disk is None:
                data = b''
            snapshot = ref.disk
            self.incarnation += 1
            self.model_path = os.path.join(self.ctx.scratch, 'model%d.h5' % self.incarnation)
            if not data:
                # Nothing was ever saved: the user starts over.
                self.ctx.probe('restart-from-scratch')
            else:
                with open(self.model_path, 'wb') as f:
                    f.write(data)
            if snapshot is not None:
                self.ctx.probe('resume')
                if snapshot['pos'] % max(1, ref.corpus.total):
                    self.ctx.probe('resume-mid-epoch')
            if self.incarnation > 12:
                break
        self.check_orders()
        self.ctx.probe('incarnations', self.incarnation + 1)
        return ended


class SimError(Exception):
    pass


class _Scorer:
    def __init__(self, sim):
        self._sim = sim

    def compute_perplexity(self, it):
        return self._sim.on_score(it)


def _stub_hook(self, fn):
    self.optimizer.hook = fn
StubSystem.hook = _stub_hook


def make_vocabulary(plan):
    v = plan['vocab']
    words = v['shortlist']
    if v['kind'] == 'classes':
        text = ''.join('%s %d\n' % (w, c) for w, c in zip(words, v['classes']))
    else:
        text = ''.join('%s\n' % w for w in words)
    counts = {}
    for lines in plan['files']:
        for line in lines:
            for w in tokens(line):
                counts[w] = counts.get(w, 0) + 1
    vocab = Vocabulary.from_file(io.StringIO(text), v['kind'], oos_words=list(counts) if v.get('oos') else None)
    vocab.compute_probs(counts, update_class_probs=v['kind'] == 'classes')
    return vocab


def match(aspect, patterns):
    return any(aspect == a or (a.endswith('*') and aspect.startswith(a[:-1])) for a in patterns)


def run_aspects(plan, ctx, aspects, restarted=(), annealed=()):
    """Runs a simulation and raises Violation for the given aspects only.
    ``restarted``/``annealed``: aspects that count only after a restart/annealing."""
    if plan.get('command'):
        from sim import commandsim
        return commandsim.run(plan, ctx, aspects, restarted, annealed)
    plan = copy.deepcopy(plan)
    make_system = None
    if plan.get('real'):
        make_system = real_system(plan)
    sim = TrainSim(plan, ctx, make_system)
    try:
        sim.run()
    except Mismatch as m:
        if match(m.aspect, aspects) or \
           (sim.incarnation > 0 and match(m.aspect, restarted)) or \
           ('anneal' in sim.ref.log and match(m.aspect, annealed)):
            raise Violation(m.aspect, m.detail)
        raise Abort(m.aspect + ': ' + str(m.detail)[:200])
    return sim


def real_system(plan):
    """Compiles a real network and optimizer; the incarnations are forked from
    this process, so each starts with the freshly initialized ones."""
    from sim import realnet
    vocab = make_vocabulary(plan)
    theano.config.compute_test_value = 'off'
    network = realnet.build_network(plan['real']['arch'], vocab, seed=plan['seed'] % 1000)
    optimizer = realnet.build_optimizer(plan['real']['opt'], network, lr=plan['lr'], nfiles=len(plan['files']))
    return lambda _plan, _inc: realnet.RealSystem(network, optimizer)
