#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed checks"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
import main
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {
 'C34': 'the numeric value of a conversion quantifies over the arithmetic of strtod/strtol and floating to integer conversion; no static argument in reach bounds it (the structural part, which text is converted and when, is decided under C10 and C27)',
}
checks = []
na = []
for p in props:
    i = p['id']
    if i in main.CLAIMS:
        tech, level, note = main.CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': 'bin/check ' + i, 'thorough_cmd': 'bin/check %s --thorough' % i,
                       'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'static analysis only; no hooks in /repo are needed'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
