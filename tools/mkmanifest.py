"""writes MANIFEST.json from the properties and the contract files present"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if glob.glob(os.path.join(V, 'contracts', i.lower() + '*.cpp')):
        checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s --thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=NOTES.get(i, {}).get('technique', 'contracts on the real functions discharged by symbolic execution of the compiled LLVM IR with z3/cvc5 and a rational-function normaliser'),
                           level=NOTES.get(i, {}).get('level', 'proof'), level_note=NOTES.get(i, {}).get('note', NOTES['default'])))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get('na', 'no contract written yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
