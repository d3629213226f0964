"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for path in sorted(glob.glob(here + '/seeded/*/meta.json')):
    meta = json.load(open(path))
    rows.append((meta['property'], os.path.basename(os.path.dirname(path)), meta['needs'].replace('|', '/')))
rows.sort()
text = '\n'.join('| %s | %s | %s |' % r for r in rows)
p = here + '/DESIGN.md'
d = open(p).read()
d = re.sub(r'<!-- table -->.*<!-- end -->', lambda m: '<!-- table -->\n| property = check that reports it | planted bug | needs |\n|---|---|---|\n' + text + '\n<!-- end -->', d, flags=re.S)
open(p, 'w').write(d)
