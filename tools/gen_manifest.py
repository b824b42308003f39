#!/usr/bin/env python3
# Writes MANIFEST.json from the checks registered in gosym and the properties of properties.jsonl.
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.loads(subprocess.check_output([root + '/bin/gosym', 'list']))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
na = {}
f = root + '/tools/not_applicable.json'
if os.path.exists(f):
    na = json.load(open(f))
out = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
have = set()
for c in sorted(checks, key=lambda c: c['id']):
    have.add(c['id'])
    note = 'Holds for ' + c['bounds'] + '.'
    if c['outside']:
        note += ' Not covered: ' + c['outside'] + '.'
    note += ' Trusted: the SSA executor (each instance is compared with a native run), z3-new, gurvy field arithmetic.'
    if c['trusted']:
        note += ' ' + '; '.join(c['trusted']) + '.'
    out['checks'].append({
        'property': c['id'],
        'quick_cmd': './check.sh %s quick' % c['id'],
        'thorough_cmd': './check.sh %s thorough' % c['id'],
        'technique': c['technique'] or 'symbolic execution of the Go SSA, obligations decided by an SMT solver over the finite field',
        'level': c['level'],
        'level_note': note,
    })
for p in props:
    if p['id'] not in have:
        out['not_applicable'].append({'property': p['id'], 'reason': na.get(p['id'], 'no check yet')})
json.dump(out, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(root + '/MANIFEST.json', 'a').write('\n')
