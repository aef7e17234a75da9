"""mktable.py LOG: put the outcome of `plant.py check` into DESIGN.md."""
import json
import sys

rows = []
for l in open(sys.argv[1]):
    f = l.split(' | ')[0].split()
    if len(f) >= 2 and '/' in f[1]:
        m = json.load(open('/verif/seeded/%s/meta.json' % f[0]))
        hits = [x.split('/')[0] for x in f[1:] if x.endswith(':CAUGHT')]
        rows.append('| %s | %s | %s |' % (f[0], m['needs'].replace('|', '/').replace('\n', ' '), ', '.join(hits) or 'missed'))
s = open('/verif/DESIGN.md').read()
a, b = s.index('<!-- table -->'), s.index('<!-- end -->')
s = s[:a] + '<!-- table -->\n| bug | needs | caught by |\n|---|---|---|\n' + '\n'.join(sorted(rows)) + '\n' + s[b:]
open('/verif/DESIGN.md', 'w').write(s)
print(len(rows))
