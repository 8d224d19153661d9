#!/usr/bin/env python3
"""the table of planted bugs in DESIGN.md, from seeded/*/meta.json and seeded/results.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + '/seeded/results.json'))
out = ['| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m)); r = res.get(i, {})
    hit = d['property'] in r.get('caught_by', [])
    out.append('| %s | %s: %s | %s | %s |' % (i, d['property'], d['what_it_breaks'], d['needs'], ('%s%s' % (', '.join(r['caught_by']), ' (%s)' % r['by'] if r.get('by') else '')) if hit else 'missed'))
t = open(V + '/DESIGN.md').read()
t = re.sub(r'(<!-- seeded -->\n).*(<!-- end seeded -->)', lambda m: m.group(1) + '\n'.join(out) + '\n' + m.group(2), t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
print(sum('missed' in o for o in out), 'missed of', len(out) - 2)
