#!/usr/bin/env python3
"""The properties and how they are decided; writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
PY = '/opt/vp/venv/bin/python'
NOTE = ('seeded search over simulated executions of the real code: no violation on the runs explored, nothing claimed about the rest; '
        'one seed is one exactly repeatable execution')


def p(id, title, statement, over, text, why, files, mech, note=None, technique=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, id
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech)))
    P[-1]['_note'] = note or NOTE
    P[-1]['_tech'] = technique or 'deterministic simulation with fault injection, seeded schedule search, reference-model oracle'


def na(id, title, statement, over, text, why, files, mech, reason):
    p(id, title, statement, over, text, why, files, mech)
    NA.append((P.pop(), reason))


exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for q in P + [n[0] for n in NA]:
        f.write(json.dumps({k: v for k, v in q.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
man = dict(version=1, setup_cmd='%s vsim/build.py' % PY, hooks=HOOKS,
           checks=[dict(property=q['id'], quick_cmd='%s check.py %s --tier quick' % (PY, q['id']),
                        thorough_cmd='%s check.py %s --tier thorough' % (PY, q['id']),
                        technique=q['_tech'], level='exploration', level_note=q['_note']) for q in P],
           not_applicable=[dict(property=q['id'], reason=r) for q, r in NA])
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'claimed', len(NA), 'not applicable')
