"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and a results file of tools/seeded.py."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]) if len(sys.argv) > 1 else ():
    w = l.split()
    if w:
        res[w[0]] = l
p = V + '/DESIGN.md'
s = open(p).read()
i = s.index('<!-- table -->')
rows = ['<!-- table -->', '', '| planted bug | property | what it breaks | caught by |', '|----|----|----|----|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    n = f.split('/')[-2]
    by = ' '.join(sorted(set(re.findall(r'(C\d\d) CAUGHT', res.get(n, ''))))) or 'missed'
    rows.append('| %s | %s | %s | %s |' % (n, d['property'], d.get('what_it_breaks', '').replace('|', '/').strip(), by))
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n')
