#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run after editing; both outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # claimed
N = []   # not applicable
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, state=state))
def na(id, title, statement, over, qtext, why, files, mech, reason):
    N.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason, state=None))
exec(open(os.path.join(V, 'tool', 'props_data.py')).read())
def line(p):
    a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
    if p.get('state'): a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
    assert len(p['title']) <= 80, p['id']
    return {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(P + N, key=lambda p: p['id']): f.write(json.dumps(line(p)) + '\n')
checks, nas = [], []
for p in sorted(P, key=lambda p: p['id']):
    if os.path.exists(os.path.join(V, 'checks', 'p_%s.py' % p['id'])):
        checks.append({'property': p['id'], 'quick_cmd': './check.sh ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'], 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    else: nas.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
for p in sorted(N, key=lambda p: p['id']): nas.append({'property': p['id'], 'reason': p['reason']})
json.dump({'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks, 'not_applicable': nas,
           'notes': 'Static analysis only: a Clang-based extractor lowers every translation unit of the built library (templates instantiated) to a typed program database; per-property rules decide on it. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'claimed,', len(checks), 'checks,', len(N), 'n/a')
