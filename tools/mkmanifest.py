#!/usr/bin/env python3
# Writes MANIFEST.json. CLAIMED lists the properties with a check.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NOTE = {
 'C01': 'Every obligation of the mutators of all 21 generated collection types is discharged for an arbitrary valid collection, key and value; loops by inductive summaries.',
 'C02': 'Every obligation of the constructors, lookups and ForEach of all 21 collection types is discharged for an arbitrary valid collection.',
 'C03': 'Every obligation of ToYAML, MarshalYAML, MarshalJSON and SerializeOrdered of all 21 collection types is discharged for an arbitrary valid collection; conversion of a single entry (xyml.ToYamlNode) and encoding/json are assumed contracts.',
}
REASON = {}
exec(open(here + '/tools/claims.py').read())
TRUST = ' Trusted: the verifier gover in this repository, go/ssa as the semantics of Go, z3; integers are mathematical except where narrowed; see the evidence file for the assumed contracts on dependencies.'
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTE:
        checks.append({'property': i, 'quick_cmd': './gover.sh check ' + i, 'thorough_cmd': THOROUGH % i,
          'technique': 'contract-based deductive verification (contracts on the real functions, obligations generated from the Go SSA and discharged by z3)',
          'level': 'proof', 'level_note': NOTE[i] + TRUST})
    else:
        na.append({'property': i, 'reason': REASON.get(i, 'contracts for this property are not finished yet; nothing is claimed for it')})
m = {'version': 1, 'setup_cmd': './gover.sh build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts are Go files of /verif/contracts overlaid on the packages of /repo at analysis time.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
