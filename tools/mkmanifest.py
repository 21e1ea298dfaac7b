import json, sys
sys.path.insert(0, '/verif')
from contracts import registry as reg
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in reg.PROPS:
        P = reg.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % i,
            evidence_file='evidence/%s.json' % i,
            technique='contract-based deductive verification of the real Python source (contracts, loop summaries, SMT back ends z3/cvc5)' + P.get('technique', ''),
            level=P.get('level', 'proof'), level_note=P.get('note') or 'Every obligation generated from the current source is discharged for all inputs; trusted: the symbolic executor, the SMT solvers and the mathematical lemmas listed in DESIGN.md.'))
    else:
        na.append(dict(property=i, reason=reg.NA.get(i, 'no contract within reach yet')))
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
