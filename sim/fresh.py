"""A new interpreter that runs commands: python -m sim.fresh SPEC.json

Used where the start of the interpreter matters (hash randomization, locale,
address space).  The commands run in forked processes of this interpreter."""

import json
import random
import sys


def run_all(spec):
    from sim import cmds
    statuses = []
    for c in spec['commands']:
        prelude = c.get('prelude')

        def before(c=c, prelude=prelude):
            random.seed(c.get('pyseed', 0))
            if prelude:
                try:
                    cmds._exec_main(prelude[0], prelude[1])
                except SystemExit:
                    pass
        r = cmds.run(c['program'], c['argv'], spec['root'], stdout=c.get('stdout'), log=False, seed=c.get('npseed', 1),
                     before=before, clock=c.get('clock', ()), env=c.get('env'), cwd=c.get('cwd'))
        statuses.append(r.status)
    return statuses


if __name__ == '__main__':
    from sim import cmds as _cmds
    _cmds.prepare()
    with open(sys.argv[1]) as f:
        _spec = json.load(f)
    _res = run_all(_spec)
    with open(sys.argv[1] + '.done', 'w') as f:
        json.dump(_res, f)
