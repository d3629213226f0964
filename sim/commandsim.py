"""Training simulation of the complete ``theanolm train`` command on a
simulated disk.  Everything from argument parsing to the system calls on the
model file is the real code; validation costs, clock and faults are simulated."""

import importlib.machinery
import importlib.util
import os
import sys

from sim import core, disk
from sim.core import Violation, Abort, HarnessError, REPO
from sim.trainersim import (TrainSim, Mismatch, SimKill, SimError, EndOfRun, CLOCK, read_model,
                            fingerprint, numpy, h5py, theano)
from sim import realnet
from theanolm.training.trainer import Trainer
from theanolm.scoring import TextScorer


def load_main():
    path = os.path.join(REPO, 'bin', 'theanolm')
    loader = importlib.machinery.SourceFileLoader('theanolm_main', path)
    spec = importlib.util.spec_from_loader('theanolm_main', loader)
    module = importlib.util.module_from_spec(spec)
    loader.exec_module(module)
    return module


def run_command(argv):
    """Runs a theanolm command in this process.  Returns its exit status, the
    way the interpreter would compute it."""
    main = load_main()
    old_argv, old_hook = sys.argv, sys.excepthook
    sys.argv = ['theanolm'] + list(argv)
    try:
        main.main()
        return 0
    except SystemExit as e:
        if e.code is None:
            return 0
        return e.code if isinstance(e.code, int) else 1
    finally:
        sys.argv, sys.excepthook = old_argv, old_hook


class CommandSim(TrainSim):
    TRANSFER = TrainSim.TRANSFER + ('marks', 'status', 'fired', 'nops')

    def __init__(self, plan, ctx):
        super().__init__(plan, ctx)
        self.forked = True
        self.marks = []
        self.status = None
        self.fired = 0
        self.nops = 0

    # -- disk

    def disk(self):
        try:
            with open(self.model_path, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return b''

    def check_disk(self, where):
        # With a split save the next call may come early: the marks bound which
        # states a crash image may show.
        super().check_disk(where)
        self.marks.append(self.ref.disk)
        self.sd.mark(len(self.marks) - 1)

    # -- command line

    def argv(self):
        p = self.plan
        a = ['train', self.model_path, '--training-set'] + self.train_paths
        a += ['--architecture', self.arch_path, '--vocabulary', self.vocab_path,
              '--vocabulary-format', p['vocab']['kind'],
              '--batch-size', str(p['B']), '--sequence-length', str(p['L'] or 1000),
              '--optimization-method', p['real']['opt'], '--learning-rate', repr(p['lr']),
              '--random-seed', str((p['seed'] + self.incarnation) % (1 << 31)),
              '--max-epochs', str(p['max_e']), '--min-epochs', str(p['min_e']),
              '--stopping-criterion', p['criterion'], '--max-annealing-count', str(p['max_ann']),
              '--validation-frequency', str(p['f']), '--patience', str(p['patience']),
              '--log-file', os.path.join(self.ctx.scratch, 'log.txt'), '--log-interval', str(p['log'] or 1000)]
        if p.get('sampling'):
            a += ['--sampling'] + [repr(x) for x in p['sampling']]
        if p['validation']:
            a += ['--validation-file', self.dev_path]
        return a

    def write_inputs(self):
        super().write_inputs()
        d = self.ctx.scratch
        self.arch_path = os.path.join(d, 'arch.txt')
        with open(self.arch_path, 'w') as f:
            f.write('\n'.join(realnet.ARCHS[self.plan['real']['arch']]) + '\n')
        self.vocab_path = os.path.join(d, 'vocab.txt')
        v = self.plan['vocab']
        with open(self.vocab_path, 'w', encoding='utf-8') as f:
            for i, w in enumerate(v['shortlist']):
                f.write('%s %d\n' % (w, v['classes'][i]) if v['kind'] == 'classes' else w + '\n')

    # -- one life

    def incarnate(self):
        plan, ctx = self.plan, self.ctx
        self.events = 0
        self.bomb = None
        self.kill_bytes = None
        self.marks = []
        self.status = None
        numpy.random.seed(12345)
        CLOCK.reset(plan.get('clock', ()))
        self.sd = disk.Disk(os.path.dirname(self.model_path) + '/', self.log_path)
        self.error_rules = False
        for f in plan['disk']:
            if f['inc'] != self.incarnation:
                continue
            if f['kind'] == 'error':
                self.sd.rule({'write': disk.C_WRITE, 'open': disk.C_OPEN, 'meta': disk.C_META}[f['cls']],
                             f['nth'], disk.K_ERRNO, f['errno'])
                self.error_rules = True
            elif f['kind'] == 'short':
                self.sd.rule(disk.C_WRITE, f['nth'], disk.K_SHORT, max(1, f['bytes']))
            elif f['kind'] == 'eintr':
                self.sd.rule(disk.C_WRITE, f['nth'], disk.K_EINTR)
            elif f['kind'] == 'split':
                self.sd.split(0, max(64, f['bytes']))
        sim = self
        real_init, real_initialize, real_train = Trainer.__init__, Trainer.initialize, Trainer.train
        real_validation, real_score = Trainer.set_validation, TextScorer.compute_perplexity
        self.in_train = False

        def init(trainer, *a, **k):
            sim.trainer = trainer
            real_init(trainer, *a, **k)

        def initialize(trainer, network, state, optimizer, *a, **k):
            sim.system = realnet.RealSystem(network, optimizer)
            sim.system.hook(sim.on_update)
            real_initialize(trainer, network, state, optimizer, *a, **k)
            sim.first_event()

        def set_validation(trainer, validation_iter, *a, **k):
            sim.validation_iter = validation_iter
            return real_validation(trainer, validation_iter, *a, **k)

        def train(trainer):
            sim.in_train = True
            sim.rearm()
            sim.seam('start')
            real_train(trainer)
            sim.in_train = False
            sim.quiet_trace()
            sim.on_finished()

        def compute_perplexity(scorer, it, *a, **k):
            if sim.in_train:
                return sim.on_score(it)
            return real_score(scorer, it, *a, **k)

        Trainer.__init__, Trainer.initialize, Trainer.train = init, initialize, train
        Trainer.set_validation, TextScorer.compute_perplexity = set_validation, compute_perplexity
        ended = None
        try:
            try:
                self.status = run_command(self.argv())
                ended = 'finished' if self.status == 0 else 'error'
                if self.bomb is not None and self.bomb.fired:
                    ended = 'interrupt'
            finally:
                sys.settrace(None)
                self.fired = self.sd.fired()
                self.sd.stop()
                if self.bomb is not None and self.bomb.fired:
                    ctx.fault(self.bomb_kind)
                    ctx.event('line', self.bomb_kind, self.bomb.left)
        except SimKill:
            ended = 'kill'
        except SimError:
            ended = 'error'
        except EndOfRun:
            ended = 'cap'
        except (Mismatch, Violation, Abort, HarnessError):
            raise
        except Exception as e:      # pylint: disable=broad-except
            # The interpreter would report it and exit with status 2.
            self.status = 2
            ended = 'exception'
            ctx.event('exception', type(e).__name__)
            if not (self.error_rules and self.fired):
                raise
        if self.error_rules and self.fired:
            ctx.fault('disk-error')
            if ended == 'finished':
                raise Mismatch('save:ignored', 'a system call on the model file failed, but training reported success')
            ended = 'error'
        return ended

    def on_update(self, *batch):
        if self.error_rules and self.sd.fired():
            raise Mismatch('save:ignored', 'training went on after a system call on the model file had failed (%s)' % self.describe())
        super().on_update(*batch)

    # -- all crash points of a life

    def verify_images(self, start_image):
        """Every state of the disk that a kill could have left behind."""
        ctx, plan = self.ctx, self.plan
        rng = core.rng_for('images', plan['seed'], self.incarnation)
        recs = disk.parse(self.log_path)
        image = disk.Image(start_image)
        # allowed[i]: which states may be found between marks i-1 and i
        marks = [self.initial_disk] + self.marks + [self.ref.disk]
        at = 0
        cache = {}
        points = []                 # (snapshot, files) a kill may leave
        counted = 0

        def verify(img, part):
            nonlocal counted
            counted += 1
            data = img.files.get(self.model_path)
            old, new = marks[at], marks[min(at + 1, len(marks) - 1)]
            if self.pending is not None and at >= len(marks) - 2:
                new = self.pending
            key = (None if data is None else core.hashlib.sha256(data).digest(), id(old), id(new))
            if key not in cache:
                cache[key] = self.match_image(data, old, new, part)
            return cache[key]

        every = plan.get('images', True)
        if every:
            points.append((verify(image, False), image.copy()))
        for rec in recs:
            if rec[0] == disk.MARK:
                at = rec[2] + 1
                # at a mark the disk must show the state of that mark
                self.match_exact(image, self.marks[rec[2]], cache)
                continue
            if rec[0] not in (disk.OPEN, disk.WRITE, disk.TRUNC, disk.RENAME, disk.UNLINK):
                continue
            if every and rec[0] == disk.WRITE and len(rec[6]) > 1:
                n = len(rec[6])
                for part in sorted({1, n // 2, n - 1, rng.randrange(1, n)}):
                    img = image.copy()
                    img.apply(rec, part)
                    snap = verify(img, True)
                    if rng.random() < 0.2:
                        points.append((snap, img))
            image.apply(rec)
            if every:
                snap = verify(image, False)
                points.append((snap, image.copy()))
        if not every:
            points.append((verify(image, False), image))
            return points
        ctx.fault('kill-image', counted)
        ctx.probe('disk-ops', len(recs))
        return points

    def match_exact(self, image, snap, cache):
        pass        # check_disk has compared the file itself at this moment

    def match_image(self, data, old, new, part):
        where = 'after a kill %s' % ('inside a write' if part else 'between writes')
        sig = 'kill:inside-write' if part else 'kill:between-writes'
        errors = []
        for snap in ((old, new) if new is not old else (old,)):
            try:
                if data is None or data == b'':
                    if snap is None:
                        if data == b'':
                            raise Mismatch(sig, 'the model file is empty before the first save')
                        return None
                    raise Mismatch(sig, 'the model file is missing')
                if snap is None:
                    try:
                        got = read_model(data)
                    except Exception as e:      # pylint: disable=broad-except
                        raise Mismatch(sig, 'the model file cannot be read before the first save: %s' % e)
                    if got is not None:
                        raise Mismatch(sig, 'a training state in the model file before the first save')
                    return None
                self.compare_disk(data, snap, where)
                return snap
            except Mismatch as m:
                errors.append(m.detail)
        raise Mismatch(sig, '%s the model file is neither the last saved state nor the one being saved: %s'
                       % (where, '; '.join(str(e) for e in errors)))

    # -- the whole run

    def run(self):
        plan, ref, ctx = self.plan, self.ref, self.ctx
        self.write_inputs()
        self.all_line_keys = []
        self.lines_by_first = {}
        for p in ref.corpus.pieces:
            key = tuple(self.piece_key(x) for x in p)
            self.all_line_keys.append(key)
            if key:
                ref.base_remaining[key] = ref.base_remaining.get(key, 0) + 1
                lst = self.lines_by_first.setdefault(key[0], [])
                if key not in lst:
                    lst.append(key)
        snapshot = None
        files = {}
        for self.incarnation in range(plan['lives']):
            mdir = os.path.join(ctx.scratch, 'life%d' % self.incarnation)
            os.mkdir(mdir)
            self.model_path = os.path.join(mdir, 'model.h5')
            self.log_path = os.path.join(ctx.scratch, 'oplog%d' % self.incarnation)
            files = {os.path.join(mdir, os.path.basename(k)): v for k, v in files.items()}
            for k, v in files.items():
                with open(k, 'wb') as f:
                    f.write(v)
            ref.start(snapshot, plan['lr'])
            ref.disk = snapshot
            self.initial_disk = snapshot
            self.disk_bytes = self.disk_snap = None
            if snapshot is not None:
                ctx.probe('resume')
            ended = self.incarnate_forked()
            # transferred marks are copies: identity matters below
            ctx.event('end', self.incarnation, ended, self.status)
            ctx.probe('ended:' + ended)
            self.pending = None
            if ended in ('error', 'exception', 'interrupt', 'kill', 'cap'):
                if not plan['validation'] and not ref.finished and ref.pending_save is None and ref.at_pass_end():
                    ref.end_epoch()
                if ref.pending_save is not None:
                    self.settle_values()
                    self.pending = ref.pending_save
            points = self.verify_images(files)
            ref.pending_save = None
            if ended == 'finished' and self.incarnation and self.status == 0 and ref.finished:
                pass
            # where the kill strikes
            c = plan['crash'][self.incarnation % len(plan['crash'])]
            if c % 4:
                c = len(points) - 1 - c % (len(points) // 2 + 1)
            snapshot, image = points[c % len(points)]
            files = image.files
            ctx.event('crash', len(points), sorted((os.path.basename(k), len(v)) for k, v in files.items()))
            ctx.fault('restart')
        return ended


def run(plan, ctx, aspects, restarted=(), annealed=()):
    import copy
    plan = copy.deepcopy(plan)
    sim = CommandSim(plan, ctx)
    from sim.trainersim import match
    try:
        sim.run()
    except Mismatch as m:
        if match(m.aspect, aspects) or (sim.incarnation > 0 and match(m.aspect, restarted)) or \
           ('anneal' in sim.ref.log and match(m.aspect, annealed)):
            raise Violation(m.aspect, m.detail)
        raise Abort(m.aspect + ': ' + str(m.detail)[:200])
    return sim
