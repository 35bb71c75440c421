"""Regenerates MANIFEST.json from tools/jobs.py (run by hand after a change)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs as J
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in J.PROPS:
        s = J.PROPS[i]
        b = s['bounds']('quick') if callable(s['bounds']) else s['bounds']
        checks.append({
            'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': 'symbolic execution of the compiled code (LLVM IR) with SMT solving (z3), differential against an independent reference model; counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'Every path within the bounds is explored and every assertion decided for all values. Bounds: %s. Outside: %s. Trusts rustc/LLVM, the file-system and libc model, z3 (sampled answers re-decided by cvc5 and z3-new) and the executor (sampled paths replayed natively).' % (b, s['outside']),
        })
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': checks, 'not_applicable': na,
     'notes': 'The checks need no hook in /repo: everything is reached through the public API.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
