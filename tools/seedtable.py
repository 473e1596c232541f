#!/usr/bin/env python3
"""Developer tool: write the table of planted bugs into DESIGN.md (between the markers)."""
import json, glob, os, re
rows = ['| bug | caught by | what it needs |', '|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s |' % (os.path.basename(d), m['property'], m['needs']))
p = '/verif/DESIGN.md'
s = open(p).read()
block = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('@SEEDS@', block) if '@SEEDS@' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: block, s, flags=re.S)
open(p, 'w').write(s)
