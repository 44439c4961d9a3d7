"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'govc'))
import props
NA = {
 'C24': 'needs a specification over all interleavings of goroutines (channels, WaitGroup, worker shutdown); the deductive verifier built here proves sequential contracts per function and has no permission or happens-before logic, and no Go verifier with one is installed',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS and not props.PROPS[i].get('disabled'):
        c = props.PROPS[i]
        checks.append({'property': i,
            'quick_cmd': 'python3-vt govc/check.py %s' % i,
            'thorough_cmd': 'python3-vt govc/check.py %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification: contracts on the real Go functions, obligations generated from their SSA and discharged by z3/cvc5',
            'level': 'proof',
            'level_note': c.get('note', 'All inputs and iterations, per function against contracts. Trusted: go/ssa front end, the VC generator govc, z3/cvc5; see the evidence file for models of external functions and assumptions.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, props.PROPS.get(i, {}).get('disabled') or 'no contract for it is in place yet')})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Contracts live in contracts/*.gvc; the verified text is the SSA exported from /repo on every run.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
