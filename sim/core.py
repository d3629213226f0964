"""Deterministic simulation core: plans, forked runs, minimisation, evidence.

A *plan* is a JSON object derived from (VERIF_SEED, property, index).  A *run*
is a pure function of the plan and of the code under test, executed in a process
of its own that is forked from a warmed worker.  Nothing in a run reads a real
clock or any randomness that is not derived from the plan.
"""

import hashlib
import json
import os
import random
import select
import signal
import sys
import time as _time
import traceback
from collections import Counter

REPO = os.path.realpath(os.environ.get('VSIM_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ['VSIM_SCRATCH']
_real_time = _time.monotonic


class Violation(Exception):
    """The property does not hold.  ``sig`` identifies the kind of violation."""

    def __init__(self, sig, detail=''):
        super().__init__('%s: %s' % (sig, detail))
        self.sig = sig
        self.detail = detail


class Abort(Exception):
    """The run cannot decide this property (e.g. a different property broke
    first); counted, but neither a pass nor a violation."""


class HarnessError(Exception):
    pass


class Ctx:
    """Per-run recorder."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.faults = Counter()
        self.probes = Counter()
        self.findings = []          # (sig, detail) that do not end the run
        self.steps = 0              # simulated steps (updates, calls, ops)
        self._sha = hashlib.sha256()
        self.tail = []
        self.nontrivial = None
        self.record = None

    def event(self, *args):
        if self.record is not None:
            self.record.append(args)
        text = repr(args)
        self._sha.update(text.encode('utf-8', 'backslashreplace'))
        self.tail.append(text if len(text) < 300 else text[:300] + '...')
        if len(self.tail) > 60:
            del self.tail[:20]

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def finding(self, sig, detail=''):
        if (sig, detail) not in self.findings:
            self.findings.append((sig, detail))

    def digest(self):
        return self._sha.hexdigest()[:24]


def rng_for(*parts):
    data = json.dumps(parts).encode()
    return random.Random(int.from_bytes(hashlib.sha256(data).digest()[:16], 'big'))


def repo_frames(tb):
    """Frames of a traceback that lie in the code under test."""
    result = []
    for fs in traceback.extract_tb(tb):
        if os.path.realpath(fs.filename).startswith(REPO + os.sep):
            result.append('%s:%s' % (os.path.relpath(os.path.realpath(fs.filename), REPO), fs.name))
    return result


def execute(mod, plan, scratch):
    """Runs a plan in the current process.  Returns the outcome dictionary."""
    ctx = Ctx(scratch)
    outcome = {'violation': None, 'abort': None, 'error': None}
    try:
        mod.run(plan, ctx)
    except Violation as v:
        outcome['violation'] = {'sig': v.sig, 'detail': str(v.detail)[:2000]}
    except Abort as a:
        outcome['abort'] = str(a)[:300]
    except HarnessError as e:
        outcome['error'] = 'HarnessError: %s' % e
    except BaseException as e:      # pylint: disable=broad-except
        tb = e.__traceback__
        frames = repo_frames(tb)
        text = ''.join(traceback.format_exception(type(e), e, tb))[-3000:]
        if frames:
            # The code under test failed where the plan allows no failure.
            outcome['violation'] = {
                'sig': 'unexpected-exception:%s' % type(e).__name__,
                'detail': '%s: %s (in %s)\n%s' % (type(e).__name__, e, frames[-1], text)}
        else:
            outcome['error'] = text
    outcome.update(faults=dict(ctx.faults), probes=dict(ctx.probes),
                   findings=[list(x) for x in ctx.findings], steps=ctx.steps,
                   digest=ctx.digest(), tail=ctx.tail[-40:],
                   nontrivial=(bool(ctx.faults) if ctx.nontrivial is None else bool(ctx.nontrivial)))
    return outcome


def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


_counter = [0]

def run_forked(mod, plan, timeout):
    """Forks a process for one plan, waits for it, returns the outcome."""
    _counter[0] += 1
    rdir = os.path.join(SCRATCH, 'r%d_%d' % (os.getpid(), _counter[0]))
    os.mkdir(rdir)
    rfd, wfd = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            os.setpgid(0, 0)
            os.chdir(rdir)
            devnull = os.open('/dev/null', os.O_RDWR)
            os.dup2(devnull, 0)
            if not os.environ.get('VSIM_VERBOSE'):
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            out = execute(mod, plan, rdir)
            _write_all(wfd, json.dumps(out).encode())
        except BaseException:       # pylint: disable=broad-except
            code = 3
            try:
                _write_all(wfd, json.dumps({'error': traceback.format_exc()[-3000:],
                    'violation': None, 'abort': None, 'faults': {}, 'probes': {}, 'findings': [],
                    'steps': 0, 'digest': '', 'tail': [], 'nontrivial': False}).encode())
            except BaseException:   # pylint: disable=broad-except
                pass
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    deadline = _real_time() + timeout
    timed_out = False
    while True:
        left = deadline - _real_time()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if not ready:
            timed_out = True
            break
        data = os.read(rfd, 1 << 16)
        if not data:
            break
        chunks.append(data)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    import shutil
    shutil.rmtree(rdir, ignore_errors=True)
    base = {'violation': None, 'abort': None, 'error': None, 'faults': {}, 'probes': {},
            'findings': [], 'steps': 0, 'digest': '', 'tail': [], 'nontrivial': False}
    if timed_out:
        if getattr(mod, 'TIMEOUT_IS_VIOLATION', True):
            base['violation'] = {'sig': 'no-progress', 'detail':
                'the run did not finish within %d s of wall time (a normal run takes a few seconds at most)' % timeout}
        else:
            base['error'] = 'run timed out'
        return base
    try:
        return json.loads(b''.join(chunks).decode())
    except ValueError:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE):
            base['violation'] = {'sig': 'crash-signal-%d' % os.WTERMSIG(status),
                                 'detail': 'the process died of signal %d' % os.WTERMSIG(status)}
        else:
            base['error'] = 'run process ended with status %d without an outcome' % status
        return base


# ---------------------------------------------------------------- minimising

def _paths(obj, prefix=()):
    if isinstance(obj, dict):
        for k in sorted(obj):
            yield from _paths(obj[k], prefix + (k,))
        yield prefix, obj
    elif isinstance(obj, list):
        yield prefix, obj
        for i, x in enumerate(obj):
            yield from _paths(x, prefix + (i,))
    else:
        yield prefix, obj


def _replace(obj, path, value):
    if not path:
        return value
    head, rest = path[0], path[1:]
    if isinstance(obj, dict):
        new = dict(obj)
        new[head] = _replace(obj[head], rest, value)
        return new
    new = list(obj)
    new[head] = _replace(obj[head], rest, value)
    return new


def shrink_candidates(plan, frozen):
    """Generic candidates, coarse first: delete list blocks, then reduce ints."""
    items = [(p, o) for p, o in _paths(plan) if p and not (set(p) & frozen)]
    lists = [(p, o) for p, o in items if isinstance(o, list) and o]
    lists.sort(key=lambda x: (x[0] and x[0][0] != 'faults', len(x[0])))
    for p, o in lists:
        n = len(o)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                cand = o[:start] + o[start + size:]
                if cand != o:
                    yield _replace(plan, p, cand)
            size //= 2
    for p, o in items:
        if isinstance(o, bool):
            if o:
                yield _replace(plan, p, False)
        elif isinstance(o, int) and o > 0:
            for v in (0, 1, o // 2, o - 1):
                if 0 <= v < o:
                    yield _replace(plan, p, v)


def minimise(mod, plan, sig, timeout, budget_s, max_tries=400):
    frozen = set(getattr(mod, 'FROZEN', ())) | {'seed'}
    validate = getattr(mod, 'valid_plan', lambda p: True)
    deadline = _real_time() + budget_s
    tries = 0
    progress = True
    seen = set()
    while progress and tries < max_tries and _real_time() < deadline:
        progress = False
        custom = getattr(mod, 'shrink', None)
        gens = ([custom(plan)] if custom else []) + [shrink_candidates(plan, frozen)]
        for gen in gens:
            for cand in gen:
                if tries >= max_tries or _real_time() > deadline:
                    break
                key = hashlib.sha256(json.dumps(cand, sort_keys=True).encode()).digest()
                if key in seen:
                    continue
                seen.add(key)
                try:
                    if not validate(cand):
                        continue
                except Exception:   # pylint: disable=broad-except
                    continue
                tries += 1
                out = run_forked(mod, cand, timeout)
                sigs = [out['violation']['sig']] if out['violation'] else []
                sigs += [f[0] for f in out['findings']]
                if sig in sigs and not out.get('error'):
                    plan = cand
                    progress = True
                    break
            if progress:
                break
    return plan, tries


# ---------------------------------------------------------------- known findings

def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e['signature']: e for e in data['known'] if e['property'] == prop}


# ---------------------------------------------------------------- main driver

def make_plan(mod, prop, seed, tier, index):
    rng = rng_for('plan', prop, seed, index)
    plan = mod.gen(rng, index, tier)
    return json.loads(json.dumps(plan))


def worker_loop(mod, indices, plans, wfd, timeout, stop_at):
    for i in indices:
        if _real_time() > stop_at:
            break
        plan = plans(i)
        t0 = _real_time()
        try:
            if hasattr(mod, 'warm'):
                mod.warm(plan)
        except BaseException:       # pylint: disable=broad-except
            e = sys.exc_info()
            frames = repo_frames(e[2])
            text = ''.join(traceback.format_exception(*e))[-3000:]
            out = {'violation': None, 'abort': None, 'error': None, 'faults': {}, 'probes': {},
                   'findings': [], 'steps': 0, 'digest': '', 'tail': [], 'nontrivial': False}
            if frames:
                out['violation'] = {'sig': 'unexpected-exception:%s' % e[0].__name__, 'detail': text}
            else:
                out['error'] = text
        else:
            out = run_forked(mod, plan, timeout)
        out['index'] = i
        out['wall'] = _real_time() - t0
        data = json.dumps(out).encode() + b'\n'
        _write_all(wfd, data)


def drive(mod, prop, seed, tier, runs, workers, wall_cap, timeout):
    """Runs plans 0..runs-1 over forked workers.  Yields outcomes."""
    fixed = getattr(mod, 'FIXED', None)
    fixed_plans = list(fixed(tier)) if fixed else []

    def plans(i):
        if i < 0:
            return fixed_plans[-i - 1]
        return make_plan(mod, prop, seed, tier, i)

    indices = [-k - 1 for k in range(len(fixed_plans))] + list(range(runs))
    keyf = getattr(mod, 'warm_key', None)
    if keyf:
        indices.sort(key=lambda i: (keyf(plans(i)), i))
        # Contiguous blocks, so that each worker warms few configurations.
        size = (len(indices) + workers - 1) // workers
        parts = [indices[w * size:(w + 1) * size] for w in range(workers)]
        # Inside its block, a worker visits warm keys in order (plans shuffled
        # deterministically only across blocks).
    else:
        # Workers take the next index when they are free.  A run does not depend
        # on the worker or on earlier runs, so this affects the wall time only.
        import multiprocessing
        taken = multiprocessing.Value('q', 0)

        def queue():
            while True:
                with taken.get_lock():
                    k = taken.value
                    taken.value += 1
                if k >= len(indices):
                    return
                yield indices[k]
        parts = [queue() for _ in range(min(workers, len(indices)))]
    stop_at = _real_time() + wall_cap
    pipes, pids = [], []
    for part in parts:
        if part == []:
            continue
        rfd, wfd = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                for fd in pipes:
                    os.close(fd)
                os.close(rfd)
                worker_loop(mod, part, plans, wfd, timeout, stop_at)
            except BaseException:   # pylint: disable=broad-except
                traceback.print_exc()
                code = 4
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        pipes.append(rfd)
        pids.append(pid)
    bufs = {fd: b'' for fd in pipes}
    open_fds = list(pipes)
    try:
        while open_fds:
            ready, _, _ = select.select(open_fds, [], [], 5)
            for fd in ready:
                data = os.read(fd, 1 << 16)
                if not data:
                    open_fds.remove(fd)
                    os.close(fd)
                    continue
                bufs[fd] += data
                while b'\n' in bufs[fd]:
                    line, bufs[fd] = bufs[fd].split(b'\n', 1)
                    out = json.loads(line.decode())
                    yield plans(out['index']), out
    finally:
        for fd in open_fds:
            os.close(fd)
        for pid in pids:
            try:
                if open_fds:
                    os.kill(pid, signal.SIGKILL)
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except (ProcessLookupError, PermissionError):
                        pass
            except ProcessLookupError:
                pass
        bad = 0
        for pid in pids:
            _, status = os.waitpid(pid, 0)
            if status != 0 and not open_fds:
                bad += 1
        if bad:
            raise HarnessError('%d worker(s) failed' % bad)


def write_replay(prop, name, plan, sig, detail, tail, extra):
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s-%s.json' % (prop, name))
    with open(path, 'w') as f:
        json.dump(dict({'property': prop, 'plan': plan, 'violation': {'sig': sig, 'detail': detail},
                        'trace_tail': tail}, **extra), f, indent=1, sort_keys=True)
        f.write('\n')
    return path
