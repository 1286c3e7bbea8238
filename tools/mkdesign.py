#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md"""
import json, glob, os, re
r = ["| seed | property and check that catches it | what it breaks |", "|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    r.append("| %s | %s | %s |" % (os.path.basename(d), m['property'], m['what_it_breaks'].rstrip('.').replace('|', '/')))
s = open('/verif/DESIGN.md').read()
s = re.sub(r'\| seed \| property.*?\n\n', lambda _: '\n'.join(r) + '\n\n', s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
