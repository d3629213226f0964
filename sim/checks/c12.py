"""Lattice jobs together process every lattice exactly once."""
import errno
import os
import random
import re
import signal
from collections import Counter

from sim import cmds
from sim import disk
from sim.core import Violation
from sim.trainersim import LineBomb

RUNS = {'quick': 110, 'thorough': 8000}
FROZEN = ('model', 'options', 'links', 'n', 'times', 'utt', 'fmt', 'style')
REAL = ['theanolm decode as a whole process per job, from argument parsing to the finalization of the interpreter: LatticeBatch, parsers, decoder, output']
STUB = ['system calls on the output files: performed on a scratch directory, failed when the plan says so', 'clock: simulated']
ASSUMPTIONS = ['the jobs get the same model, options and lattice list, and a killed job is run again with the same command line']
RULE = ('Plans: model, lattices (files, archives, lists), decoding options, number of jobs, the order in which the jobs run, and faults (a job killed at a '
        'random line of the code, a job whose output fails, both run again over what they left) from VERIF_SEED. Reference: the records that one job '
        'writes for all the lattices; some of the lattices are also decoded alone and in another order. Non-trivial: at least two jobs with lattices. '
        'Distinct: by the hash of the event log.')
RUN_TIMEOUT = 300
SIMTIME = 'one step is one process (job)'
ARCHS = ['mlp', 'lstm', 'gru', 'class', 'deep', 'multi', 'drop']


def prepare():
    cmds.prepare()


def gen(rng, index, tier):
    m = cmds.gen_model(rng, archs=ARCHS)
    m['noise'] = rng.choice([0.5, 1.5])
    fmt = 'kaldi' if index % 3 == 2 else 'slf'
    output = rng.choice(['ref', 'trn', 'full', 'full', 'slf', 'kaldi'])
    options = ['--output', output, '--n-best', str(rng.choice([1, 1, 3]))]
    options += rng.choice([[], [], ['--nnlm-weight', '0.5'], ['--nnlm-weight', '0.0']])
    options += rng.choice([[], [], ['--lm-scale', '3.0'], ['--wi-penalty', '-1.5']])
    options += rng.choice([[], [], ['--beam', '5'], ['--max-tokens-per-node', '2'], ['--recombination-order', '1']])
    options += rng.choice([[], ['--shortlist']])
    files = []
    k = 0
    named = rng.random() < 0.6 or fmt == 'kaldi'
    for _ in range(rng.choice([1, 2, 3, 5, 7, 11])):
        lats = []
        for _ in range(1 if fmt == 'slf' else rng.choice([1, 1, 2, 3])):
            lat = cmds.gen_lattice(rng, m, n=rng.choice([3, 4, 6]))
            lat['utt'] = 'utt%d' % k if named or rng.random() < 0.3 else None
            lats.append(lat)
            k += 1
        files.append({'lats': lats, 'gz': rng.random() < 0.1, 'style': rng.randrange(4)})
    njobs = rng.choice([1, 2, 2, 3, 3, 4, 5, len(files), len(files) + 1])
    order = list(range(njobs))
    rng.shuffle(order)
    plan = {'model': m, 'fmt': fmt, 'output': output, 'options': options, 'files': files, 'njobs': njobs, 'order': order,
            'list': rng.choice(['args', 'list', 'both']), 'faults': [], 'perm': rng.randrange(1 << 30),
            'repeat': rng.random() < 0.1}
    for _ in range(rng.choice([0, 1, 1, 2])):
        plan['faults'].append({'job': rng.randrange(njobs), 'kind': rng.choice(['kill', 'kill', 'error']),
                               'lines': rng.choice([50, 500, 3000, rng.randrange(1, 8000)]), 'nth': rng.choice([0, 0, 1])})
    return plan


def valid_plan(plan):
    for f in plan['files']:
        if not f['lats']:
            return False
        for lat in f['lats']:
            if lat['n'] < 2 or not lat['links']:
                return False
    return bool(plan['files']) and plan['njobs'] >= 1 and sorted(plan['order']) == list(range(plan['njobs']))


def shrink(plan):
    n = plan['njobs']
    for k in (2, n - 1):
        if 1 <= k < n:
            yield dict(plan, njobs=k, order=list(range(k)), faults=[f for f in plan['faults'] if f['job'] < k])


def records(text, output, group=True):
    """The output by lattice, as a multiset of (utterance, record)."""
    if output == 'slf':
        lines = [x for x in text.split('\n') if x and not x.startswith('#') and not x.startswith('VERSION')]
        out = []
        for x in lines:
            if re.match(r'(UTTERANCE|U)=', x):
                out.append([x])
            elif out:
                out[-1].append(x)
            else:
                out.append(['?', x])
        return Counter('\n'.join(x) for x in out)
    if output == 'kaldi':
        return Counter(x for x in re.split(r'\n\s*\n', text) if x.strip())
    # lines of the same utterance belong together
    out = []
    for x in text.split('\n'):
        if not x:
            continue
        m = re.search(r'\(([^()]*)\)$', x) if output == 'trn' else re.match(r'(\S+)', x)
        utt = m.group(1) if m else '?'
        if group and out and out[-1][0] == utt:
            out[-1][1].append(x)
        else:
            out.append((utt, [x]))
    return Counter('\n'.join(x) for _, x in out)


class Run:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.root = os.path.join(ctx.scratch, 'disk')
        os.mkdir(self.root)
        m = plan['model']
        self.model = os.path.join(self.root, 'model.h5')
        cmds.write_model(m, self.model)
        ids = cmds.kaldi_words(m)
        self.words = os.path.join(self.root, 'words.txt')
        cmds.put(self.words, ''.join('%s %d\n' % x for x in ids.items()))
        self.paths = []
        for i, f in enumerate(plan['files']):
            p = os.path.join(self.root, 'lat%d%s' % (i, '.gz' if f['gz'] else ''))
            if plan['fmt'] == 'slf':
                text = cmds.slf(f['lats'][0])
            else:
                text = ''.join(cmds.kaldi(lat, ids) for lat in f['lats'])
                if f['style'] == 1:
                    text = text.rstrip('\n') + '\n'
                elif f['style'] == 2:
                    text = '\n' + text.replace('\n\n', '\n\n\n')
            cmds.put(p, text)
            self.paths.append(p)
        if plan['repeat']:
            self.paths.append(self.paths[0])
        self.n = 0

    def argv(self, out, paths, njobs, job):
        plan = self.plan
        self.n += 1
        a = ['decode', self.model, '--lattice-format', plan['fmt'], '--kaldi-vocabulary', self.words,
             '--output-file', out, '--log-file', os.path.join(self.ctx.scratch, 'log%d' % self.n)] + plan['options']
        if njobs is not None:
            a += ['--num-jobs', str(njobs), '--job', str(job)]
        k = {'args': len(paths), 'list': 0, 'both': len(paths) // 2}[plan['list']]
        if paths[:k]:
            a += ['--lattices'] + paths[:k]
        if paths[k:]:
            lst = os.path.join(self.root, 'list%d.txt' % self.n)
            cmds.put(lst, ''.join(x + '\n' + ('\n' if i % 3 == 1 else '') for i, x in enumerate(paths[k:])))
            a += ['--lattice-list', lst]
        return a

    def decode(self, out, paths, njobs=None, job=None, **kw):
        self.ctx.steps += 1
        return cmds.run('theanolm', self.argv(out, paths, njobs, job), self.root, log=False, **kw)

    def complete(self, out, paths, njobs=None, job=None):
        r = self.decode(out, paths, njobs, job)
        if r.status:
            raise Violation('job-failed', 'decoding ended with status %s (job %s of %s, %d lattice files)' % (r.status, job, njobs, len(paths)))
        return records(cmds.get(out, b'').decode(), self.plan['output'], not self.plan['repeat'])


def describe(c):
    return ', '.join(repr(x[:80]) for x in list(c)[:3])


def run(plan, ctx):
    sim = Run(plan, ctx)
    whole = sim.complete(os.path.join(sim.root, 'whole.txt'), sim.paths)
    want = sum(len(f['lats']) for f in plan['files']) + (len(plan['files'][0]['lats']) if plan['repeat'] else 0)
    ctx.event('whole', want, sorted(whole.items()))
    if sum(whole.values()) != want and (not plan['repeat'] or sum(whole.values()) < want):
        raise Violation('one-job', '%d lattices, but one job wrote %d records' % (want, sum(whole.values())))
    together = Counter()
    busy = 0
    for job in plan['order']:
        out = os.path.join(sim.root, 'job%d.txt' % job)
        for f in plan['faults']:
            if f['job'] != job:
                continue
            if f['kind'] == 'kill':
                def bomb(lines=f['lines']):
                    LineBomb(lines, RuntimeError(), lambda: os.kill(os.getpid(), signal.SIGKILL)).arm()
                r = sim.decode(out, sim.paths, plan['njobs'], job, before=bomb)
                killed = r.status == -signal.SIGKILL
                if killed:
                    ctx.fault('killed-job')
            else:
                r = sim.decode(out, sim.paths, plan['njobs'], job, rules=[(disk.C_WRITE, f['nth'], disk.K_ERRNO | disk.STICKY, errno.ENOSPC, os.path.basename(out))])
                killed = r.status != 0
                if killed:
                    ctx.fault('failed-job')
            ctx.event('fault', job, f['kind'], r.status, len(cmds.get(out, b'')))
        got = sim.complete(out, sim.paths, plan['njobs'], job)
        ctx.event('job', job, sorted(got.items()))
        busy += bool(got)
        together += got
    if together != whole:
        lost, extra = whole - together, together - whole
        raise Violation('jobs-differ', 'one job writes %s which the %d jobs together do not; they write %s' %
                        (describe(lost) or 'nothing', plan['njobs'], describe(extra) or 'nothing else'))
    # another order, and alone
    if all(lat['utt'] is not None for f in plan['files'] for lat in f['lats']):
        rng = random.Random(plan['perm'])
        paths = list(sim.paths)
        rng.shuffle(paths)
        got = sim.complete(os.path.join(sim.root, 'shuffled.txt'), paths)
        if got != whole:
            raise Violation('order', 'in another order %s instead of %s' % (describe(got - whole), describe(whole - got)))
        alone = sim.complete(os.path.join(sim.root, 'alone.txt'), paths[:1])
        if alone - whole or not alone:
            raise Violation('alone', 'alone %s, which all lattices together do not give' % describe(alone - whole))
        ctx.probe('permuted')
    ctx.probe('output:' + plan['output'])
    ctx.probe('jobs:%d' % plan['njobs'])
    ctx.nontrivial = busy > 1
