#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE NEEDS WHAT < (old text, a line of =====, new text; further edits after a line of #####, optionally starting with '@FILE')
Writes /verif/seeded/ID/patch.diff and meta.json from text edits of /repo's HEAD."""
import json, os, shutil, subprocess, sys, tempfile
sid, prop, path, needs, what = sys.argv[1:6]
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix='mk.', dir='/tmp')
try:
    p1 = subprocess.Popen(['git', '-C', '/repo', 'archive', 'HEAD'], stdout=subprocess.PIPE)
    subprocess.check_call(['tar', '-x', '-C', w], stdin=p1.stdout)
    subprocess.check_call('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, cwd=w)
    for edit in sys.stdin.read().split('#####\n'):
        f = path
        if edit.startswith('@'):
            first, edit = edit.split('\n', 1)
            f = first[1:]
        old, new = [x.rstrip('\n') for x in edit.split('=====\n')]
        s = open(os.path.join(w, f)).read()
        assert s.count(old) == 1, (s.count(old), old)
        open(os.path.join(w, f), 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=w)
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
finally:
    shutil.rmtree(w)
