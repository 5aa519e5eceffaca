#!/usr/bin/env python3
"""Writes MANIFEST.json: the properties the harness implements are claimed."""
import json, re, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
src = ''.join(open(f).read() for f in glob.glob('harness/*.go'))
claimed = set(re.findall(r'id:\s+"(C\d\d)"', src))
notes = json.load(open('tools/manifest_notes.json'))
checks, na = [], []
for l in open('properties.jsonl'):
    p = json.loads(l)['id']
    if p in claimed:
        n = notes[p]
        checks.append({'property': p, 'quick_cmd': f'./run.sh {p} quick', 'thorough_cmd': f'./run.sh {p} thorough',
                       'evidence_file': f'evidence/{p}.json', 'technique': n['technique'],
                       'level': n.get('level', 'exploration'), 'level_note': n['note']})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './run.sh build', 'checks': checks, 'not_applicable': na}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed;', [x['property'] for x in na])
