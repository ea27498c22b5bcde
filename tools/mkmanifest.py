#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a harness, a reason for every other one."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl')) if l.strip()]
checks, rest = [], []
for p in props:
    i = p['id']
    f = os.path.join(ROOT, 'harness', i + '.cpp')
    if not os.path.exists(f):
        rest.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')})
        continue
    text = open(f).read()
    bounds = re.findall(r'^//@ (\w+): (.*)$', text, re.M)
    quick = '; '.join('%s: %s' % b for b in bounds if not b[0].startswith('t_'))
    thorough = '; '.join('%s: %s' % b for b in bounds if b[0].startswith('t_'))
    note = 'Exhaustive within bounds: ' + quick + ('. Thorough tier adds: ' + thorough if thorough else '') + '.'
    checks.append({
        'property': i,
        'quick_cmd': 'python3 /verif/tools/check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 /verif/tools/check.py %s --tier thorough' % i,
        'evidence_file': '/verif/evidence/%s.json' % i,
        'technique': 'symbolic execution of the LLVM IR of the real headers with z3 deciding every branch and assertion',
        'level': 'model_checking',
        'level_note': note,
    })
json.dump({
    'version': 1,
    'setup_cmd': 'python3 /verif/tools/check.py --setup',
    'checks': checks,
    'not_applicable': rest,
    'notes': 'Each check compiles its harness (harness/<ID>.cpp) together with the headers of /repo to LLVM IR, instruments the IR with shadow terms and explores all feasible paths; counterexamples and sampled path witnesses are replayed with a native g++ build before they count.',
}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(rest), 'not applicable')
