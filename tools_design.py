"""Write the table of planted bugs into DESIGN.md."""
import glob
import json
import os
R = os.path.dirname(os.path.abspath(__file__))
rows = []
for f in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['property']} |")
p = os.path.join(R, 'DESIGN.md')
s = open(p).read()
a, b = '| bug | property | change | caught |\n|---|---|---|---|\n', '\nBesides these,'
i, j = s.index(a)+len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
