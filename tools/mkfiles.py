#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing the table)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROWS = []
NA = []


def R(pid, title, statement, over, qtext, why, files, mech, level, note, technique=None, na=None, **kw):
    p = {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    ROWS.append((p, level, note, technique or TECH, na))


TECH = ('abstract interpretation (shape / typestate / ownership domain with linear facts, widening to a fixpoint) of the LLVM IR '
        'of every public operation instantiated with opaque archetype types')
exec(open(os.path.join(H, 'tools', 'table.py')).read())
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p, *_ in ROWS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Every check is python3 /verif/check.py <property> <tier>; it compiles archetype drivers against /repo and analyses the '
              'resulting LLVM IR; nothing of /repo is executed. See DESIGN.md.'}
for p, level, note, tech, na in ROWS:
    if na:
        m['not_applicable'].append({'property': p['id'], 'reason': na})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 /verif/check.py %s quick' % p['id'],
                            'thorough_cmd': 'python3 /verif/check.py %s thorough' % p['id'], 'technique': tech, 'level': level,
                            'level_note': note})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
