#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = ['C%02d' % i for i in range(1, 28)] + ['C30']
NA = {
    'C28': 'a property of the history of several exchanges: the reader goroutine a timed-out exchange leaves behind runs concurrently with later ones; a contract over one call cannot state it and the sequential memory model does not cover the abandoned goroutine (observed defect, see DESIGN.md)',
    'C29': 'liveness over the whole run of the server (fair scheduling, a responding unit): contracts here are partial-correctness statements per call',
}
PYNOTE = ('every obligation generated from the current source of the client is discharged for all arguments, replies and errors; '
          'assumed: the models of the Twirp, protobuf, asyncio and functools libraries, the VC generator and z3')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({
            'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
            'technique': 'contract-based deductive verification (VCs from the Python AST of the real code, z3)' if i == 'C27' else
                         'contract-based deductive verification (VCs from go/ssa of the real code, z3/cvc5)',
            'level': 'proof',
            'level_note': PYNOTE if i == 'C27' else 'every obligation generated from the current source is discharged for all inputs and iterations; assumed: the models of standard-library functions listed in the evidence, the VC generator and the solvers',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'gover/ and pyver/ are the verification-condition generators (Go, Python), contracts/ the contracts, replay/ the searches for failing inputs that run only after an obligation failed.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
