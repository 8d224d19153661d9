#!/usr/bin/env python3
"""put the per-property section into DESIGN.md (between the markers) from props.py"""
import os, re
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
out = []
for id in sorted(PROPS):
    p = PROPS[id]
    out.append('### %s — %s\n' % (id, p['title']))
    out.append('*Specified*: %s\n' % p['statement'])
    if p.get('how'): out.append('*Oracle*: %s\n' % p['how'])
    out.append('*Symbolic, within*: %s.\n' % p['bounds'])
    out.append('*Outside*: %s.\n' % p['outside'])
    out.append('*Beyond the tests*: %s\n' % p['why'])
    out.append('*Entries*: quick `%s`; thorough `%s`.\n' % (' '.join(p['quick']), ' '.join(p['thorough'])))
out.append('### Not applicable\n')
for p in NOT_APPLICABLE: out.append('- **%s %s**: %s.\n' % (p['id'], p['title'], p['reason']))
t = open(V + '/DESIGN.md').read()
t = re.sub(r'(<!-- properties -->\n).*(<!-- end -->)', lambda m: m.group(1) + '\n'.join(out) + m.group(2), t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
