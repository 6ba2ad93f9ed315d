#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, na=na, state=state, observe=observe))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                         'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']], 'observe_at': list(p['observe']), 'hook_needed': None}}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')

checks, na = [], []
for p in P:
    if p['na'] or not os.path.exists(os.path.join(HERE, 'sa', 'checks', p['id'].lower() + '.py')):
        na.append({'property': p['id'], 'reason': p['na'] or 'no check has been built for it yet'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} quick', 'thorough_cmd': f'python3 check.py {p["id"]} thorough',
                   'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sa.interp"', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
