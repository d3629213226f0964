"""Generator of training plans (see trainersim)."""


def words(rng, n):
    """Vocabulary with short, odd and non-ASCII words."""
    base = ['w%d' % i for i in range(n)]
    odd = ['x', 'y', 'ä', 'naïve', '日本', 'a-b', "o'clock", '3.14', '<foo>', '&', 'ﬁ', 'İ']
    for i, w in enumerate(odd):
        if i < n and rng.random() < 0.4:
            base[rng.randrange(n)] = w
    seen, out = set(), []
    for w in base:
        if w not in seen:
            seen.add(w)
            out.append(w)
    return out


def lines(rng, n, heads, tails, oos, opts):
    out = []
    for i in range(n):
        if out and rng.random() < opts['dup']:
            out.append(rng.choice([x for x in out if x.split()] or out))
            continue
        if rng.random() < opts['empty']:
            out.append(rng.choice(['', '', ' ', '\t ']))
            continue
        length = rng.choice(opts['lengths'])
        ws = [heads.pop()] if heads else [rng.choice(tails)]
        for _ in range(max(0, length - 1)):
            ws.append(rng.choice(oos) if oos and rng.random() < 0.15 else rng.choice(tails))
        if rng.random() < opts['tags']:
            if rng.random() < 0.5:
                ws.insert(0, '<s>')
            if rng.random() < 0.5:
                ws.append('</s>')
        out.append(rng.choice([' ', ' ', '  ']).join(ws))
    return out


def gen_data(rng, plan, nseq):
    """Training files with about nseq sentences."""
    nfiles = rng.choice([1, 1, 2, 3])
    opts = {'dup': rng.choice([0, 0, 0.1]), 'empty': rng.choice([0, 0, 0.1]),
            'tags': rng.choice([0, 0, 0.2]), 'lengths': rng.choice([[1, 2, 3], [2, 5, 9], [4, 12, 25], [1]])}
    vocab_size = nseq + 12
    ws = words(rng, vocab_size)
    tails = ws[:10]
    heads = ws[10:]
    rng.shuffle(heads)
    oos = ['oos%d' % i for i in range(rng.choice([0, 3]))]
    unseen = ['unseen%d' % i for i in range(rng.choice([0, 2]))]
    sizes = []
    left = nseq
    for i in range(nfiles):
        k = left if i == nfiles - 1 else max(1, rng.randrange(1, max(2, left - (nfiles - i - 1))))
        sizes.append(k)
        left = max(1, left - k)
    # every line starts with its own shortlist word
    plan['files'] = [lines(rng, k, heads, tails, oos, opts) for k in sizes]
    for fl in plan['files']:
        if not any(x.split() for x in fl):
            fl.append(ws[0])
    short = list(ws) + unseen
    rng.shuffle(short)
    kind = rng.choice(['words', 'words', 'classes'])
    plan['vocab'] = {'kind': kind, 'shortlist': short, 'oos': bool(oos) and rng.random() < 0.7}
    if kind == 'classes':
        n = rng.choice([2, 5, len(short)])
        plan['vocab']['classes'] = [rng.randrange(n) * 7 for _ in short]
    plan['L'] = rng.choice([None, None, 2, 3, 4, 5, 7, 10, 30])
    plan['final_newline'] = rng.random() < 0.8
    # awkward byte offsets: the last line of a file may be one word of one byte
    if rng.random() < 0.25:
        plan['final_newline'] = rng.random() < 0.2
        single = [w for w in short if len(w) == 1 and ord(w) < 128]
        for fl in plan['files']:
            if single and rng.random() < 0.7:
                fl[-1] = rng.choice(single)
    if rng.random() < 0.15:
        for fl in plan['files']:
            for i in range(len(fl)):
                if rng.random() < 0.3:
                    fl[i] = rng.choice([fl[i] + '\r', '\u00a0' + fl[i], fl[i].replace(' ', '\u2003')])


def total_pieces(plan):
    from sim.trainersim import pieces
    return sum(len(pieces(x, plan['L'])) for fl in plan['files'] for x in fl)


SHAPES = [
    [1.0, 1.3, 0.6, 1.1, 0.9, 1.7, 0.8],
    [1.0],
    [0.5, 1.0, 3.0, 1.1, 0.97, 0.99, 1.02],
    [2.0, 1.9, 1.5, 1.2, 1.0, 0.99, 0.98],
    [0.8, 0.85, 0.9, 1.0, 1.1, 1.2, 1.9],
    [9.0, 0.1, 1.0, 1.0, 5.0, 0.2, 1.05],
]

RELS = ['big', 'clear', 'slight', 'within', 'equal', 'worse', 'much', 'abit', 'barely', 'nearly']


def gen_costs(rng, n):
    if rng.random() < 0.08:
        return [{'rel': rng.choice(['exact', 'exact', 'worse', 'within']), 'shape': [1.0], 'first': 1000.0} for _ in range(n)]
    style = rng.choice(['mixed', 'improving', 'flat', 'late', 'edge', 'worse'])
    weights = {
        'mixed': [2, 2, 1, 1, 1, 3, 1, 1, 1, 1],
        'improving': [5, 5, 2, 1, 0, 1, 0, 0, 2, 0],
        'flat': [0, 1, 1, 3, 2, 3, 0, 2, 1, 1],
        'late': [1, 1, 1, 1, 1, 8, 2, 1, 1, 1],
        'edge': [0, 0, 2, 3, 1, 1, 0, 2, 4, 3],
        'worse': [0, 0, 0, 1, 1, 6, 3, 1, 0, 1],
    }[style]
    return [{'rel': rng.choices(RELS, weights)[0], 'shape': rng.choice(SHAPES),
             'first': rng.choice([100.0, 3.7, 12345.6])} for _ in range(n)]


def gen(rng, index, tier='quick', faults='many', validation=None, sampling=False, big=False,
        line_faults=False, max_updates=None):
    plan = {'seed': rng.randrange(1 << 30)}
    plan['validation'] = (rng.random() < 0.85) if validation is None else validation
    # long trainings on little data: counters and histories grow large
    long = not sampling and not big and max_updates is None and rng.random() < 0.05
    for _ in range(50):
        if long:
            gen_data(rng, plan, rng.choice([2, 3, 4, 6]))
            plan['B'] = rng.choice([1, 1, 2])
            U = -(-total_pieces(plan) // plan['B'])
            if U > 8:
                continue
            plan['nsamples'] = 1 if plan['validation'] else None
            plan['stat'] = None
            plan['f'] = rng.choice([1, U, U]) if plan['validation'] else 1
            break
        nseq = rng.choice([8, 12, 16, 24, 30, 45, 60] if not big else [60, 100, 200])
        gen_data(rng, plan, nseq)
        plan['B'] = rng.choice([1, 1, 2, 3, 4, 5, 8])
        total = total_pieces(plan)
        U = -(-total // plan['B'])
        if not plan['validation']:
            plan['f'] = rng.choice([1, 3, 8])
            plan['nsamples'] = None
            if 2 <= U <= 60:
                break
            continue
        plan['nsamples'] = rng.choice([None] * 8 + [1, 3, 5, 9])
        plan['stat'] = rng.choice([None] * 8 + ['mean', 'max', 'min'])
        n = plan['nsamples'] or 7
        if U < n or U > 130:
            continue
        plan['f'] = rng.randrange(1, min(8, U // n) + 1)
        break
    else:
        # Fallback that always satisfies the constraints.
        plan['files'] = [['w%d w1' % i for i in range(20)]]
        plan['vocab'] = {'kind': 'words', 'shortlist': ['w%d' % i for i in range(20)], 'oos': False}
        plan.update(L=None, B=2, f=1, nsamples=None, stat=None, final_newline=True)
    U = -(-total_pieces(plan) // plan['B'])
    plan['patience'] = rng.choice([-1, 0, 0, 0, 1, 1, 2, 4])
    plan['criterion'] = rng.choice(['epoch-count', 'no-improvement', 'no-improvement', 'annealing-count', 'annealing-count'])
    plan['max_e'] = rng.choice([1, 2, 3, 5, 8, 12])
    plan['min_e'] = rng.choice([0, 1, 1, 2, 3, 5])
    plan['max_ann'] = rng.choice([0, 0, 1, 2, 5])
    plan['lr'] = rng.choice([1.0, 0.1, 0.007, 64.0])
    plan['log'] = rng.choice([0, 1, 7])
    plan['costs'] = gen_costs(rng, rng.choice([3, 6, 10, 16]))
    plan['clock'] = rng.choice([[], [], [-5.0, 3.0], [1e6, -1e6, 0.0], [0.0]])
    plan['max_updates'] = max_updates or rng.choice([60, 120, 200, 300])
    plan['rerun_finished'] = rng.choice([0, 0, 1, 2])
    plan['faults'] = []
    if faults == 'many':
        n = rng.choice([0, 1, 1, 2, 3, 5])
        # events per incarnation: updates plus scores
        horizon = min(plan['max_updates'], U * plan['max_e'])
        for inc in range(n):
            at = rng.choice([rng.randrange(1, 12), rng.randrange(1, horizon * 2 + 2), rng.randrange(1, U + 10)])
            kind = rng.choice(['kill', 'kill', 'interrupt', 'error'])
            fault = {'inc': inc, 'at': at, 'kind': kind}
            if kind == 'kill' and line_faults and rng.random() < 0.6:
                fault['lines'] = rng.choice([1, 3, 10, 30, 60, 120, 200]) + rng.randrange(0, 30)
            plan['faults'].append(fault)
    if long:
        plan['max_e'] = rng.choice([130, 300, 300])
        plan['min_e'] = rng.choice([0, 129, 270])
        plan['max_ann'] = rng.choice([0, 5, 130, 260])
        plan['patience'] = rng.choice([-1, 0, 1, 130])
        plan['costs'] = gen_costs(rng, rng.choice([40, 150, 300]))
        plan['max_updates'] = rng.choice([300, 600])
        for f in plan['faults'][:1]:
            if rng.random() < 0.7:
                f['at'] = rng.randrange(260, 600)
    if sampling:
        # sampled epochs: the end of an epoch is observed; every line has pieces
        plan['validation'] = False
        plan['nsamples'] = plan['stat'] = None
        plan['files'] = [[x for x in fl if x.split()] for fl in plan['files']]
        plan['files'] = [list({tuple(x.split()): x for x in fl}.values()) for fl in plan['files']]
        plan['sampling'] = [rng.choice([0.3, 0.5, 0.77, 1.0, 1.6, 2.0]) for _ in plan['files']]
        if rng.random() < 0.3:
            plan['sampling'] = plan['sampling'][:-1] or plan['sampling']
        for i, fr in enumerate(plan['sampling']):
            if round(fr * len(plan['files'][i])) < 1:
                plan['sampling'][i] = 1.0
        if plan['L'] is not None and plan['L'] < 3:
            plan['L'] = 5
        plan['criterion'] = 'epoch-count'
        plan['faults'] = [f for f in plan['faults'] if not f.get('lines')]
    return plan


def gen_real(rng, index, tier='quick', **kw):
    """Plans for a real network and optimizer (smaller and fewer updates)."""
    from sim.realnet import ARCHS, OPTIMIZERS
    while True:
        plan = gen(rng, index, tier, max_updates=rng.choice([40, 60, 90]), **kw)
        if plan['L'] == 2:
            plan['L'] = 3
        if sum(len(fl) for fl in plan['files']) <= 30 and valid(plan):
            break
    plan['real'] = {'arch': rng.choice(sorted(a for a in ARCHS if a != 'drop')), 'opt': OPTIMIZERS[index % len(OPTIMIZERS)]}
    plan['lr'] = rng.choice([0.1, 0.01])
    return plan


def gen_command(rng, index, tier='quick', updates=(40, 90), **kw):
    """Plans for the complete train command, killed and started again at
    points of the work."""
    while True:
        plan = gen_real(rng, index, tier, **kw)
        plan['nsamples'] = plan['stat'] = None
        plan['vocab']['oos'] = True
        if valid(plan):
            break
    plan['real']['arch'] = 'mlp'
    plan['max_updates'] = rng.choice(updates)
    lives = rng.choice([1, 2, 3])
    plan['faults'] = [dict(f, at=1 + f['at'] % (2 * plan['max_updates'])) for f in plan['faults'] if f['inc'] < lives]
    plan.update(command=True, images=False, lives=lives, crash=[0], disk=[])
    return plan


def valid(plan):
    """Whether a (shrunk) plan is still inside the modelled domain."""
    if not plan['files'] or any(not any(x.split() for x in fl) for fl in plan['files']):
        return False
    if plan['B'] < 1 or (plan['L'] is not None and plan['L'] < 2) or plan['f'] < 1:
        return False
    if plan['max_updates'] < 1 or plan['lr'] <= 0:
        return False
    total = total_pieces(plan)
    if total < 1:
        return False
    n = plan['nsamples'] or 7
    if plan['nsamples'] is not None and plan['nsamples'] % 2 == 0:
        return False
    if plan['validation'] and (-(-total // plan['B'])) // plan['f'] < n:
        return False
    if plan['validation'] and (not plan['costs'] or any(not c['shape'] for c in plan['costs'])):
        return False
    if plan.get('sampling') is not None and plan.get('sampling') != [] and \
       any(not x.split() for fl in plan['files'] for x in fl):
        return False
    if any(f.get('lines') == 0 for f in plan['faults']):
        return False
    if plan['vocab']['kind'] == 'classes' and len(plan['vocab']['classes']) != len(plan['vocab']['shortlist']):
        return False
    # a vocabulary word must not occur twice; heads must stay in the shortlist
    if len(set(plan['vocab']['shortlist'])) != len(plan['vocab']['shortlist']):
        return False
    return True
