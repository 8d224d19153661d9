#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
def line(id, p):
    return dict(id=id, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], state=p.get('state', []), mechanism=p['mech'], observe_at=p.get('observe', []),
                             hook_needed='octane::verif::serve: serve one connection over an in-memory stream' if id not in ('C19', 'C20', 'C21') else None))
with open(V + '/properties.jsonl', 'w') as f:
    for id in sorted(PROPS): f.write(json.dumps(line(id, PROPS[id])) + '\n')
    for p in NOT_APPLICABLE: f.write(json.dumps(line(p['id'], p)) + '\n')
m = dict(version=1, setup_cmd='python3 run.py --setup',
    hooks=dict(guard='cfg(octane_verif)', enable='RUSTFLAGS="--cfg octane_verif"', source_commits=['89d34c8']),
    checks=[], not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NOT_APPLICABLE],
    notes='Each check compiles /repo (with its dependencies and std) to LLVM IR, executes the harness entries of the property symbolically over it with Z3, and replays counterexamples and sampled paths on a native build. See DESIGN.md.')
import subprocess
m['hooks']['source_commits'] = [subprocess.run(['git', '-C', '/repo', 'rev-parse', '89d34c8'], capture_output=True, text=True).stdout.strip()]
for id in sorted(PROPS):
    p = PROPS[id]
    m['checks'].append(dict(property=id, quick_cmd='python3 run.py %s --tier quick' % id, thorough_cmd='python3 run.py %s --tier thorough' % id,
        evidence_file='evidence/%s.json' % id, technique='symbolic execution of the compiled LLVM IR of the real code, branch conditions and assertions decided by Z3', level=p['level'],
        level_note='Holds for every value of the symbolic inputs within the bounds: %s. Outside: %s. Trusted: rustc/LLVM up to the IR, the interpreter in /verif/engine (validated by native replay of sampled paths), Z3%s.' % (p['bounds'], p['outside'], ''.join('; ' + a for a in p['assumptions']))))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
