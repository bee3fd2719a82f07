#!/usr/bin/env python3
"""Development tool: regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json and SEEDNOTES."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d)); rows.append((m['property'], d, ' '.join(m['what_it_breaks'].split())))
missed = {l.split(None, 1)[0]: l.split(None, 1)[1].strip() for l in open(V + '/tools/seednotes.txt') if l.strip()}
out = ['| property | planted bug | what it breaks | caught by |', '|---|---|---|---|']
for p, d, w in sorted(rows): out.append('| %s | `%s` | %s | %s |' % (p, d, w.replace('|', '/'), p + (' (' + missed[d] + ')' if d in missed else '')))
s = open(V + '/DESIGN.md').read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n' + '\n'.join(out) + '\n<!-- /seeds -->', s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s); print(len(rows))
