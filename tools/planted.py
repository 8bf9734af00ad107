"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- planted -->', '| change | property | caught by | needs |', '|--|--|--|--|']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s: %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['what_it_breaks'].replace('|', '/'), m['property'], m.get('caught_by', 'quick check of ' + m['property']), m['needs'].replace('|', '/')))
rows.append('<!-- /planted -->')
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
t = '\n'.join(rows)
s = s.replace('@PLANTED@', t) if '@PLANTED@' in s else re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
