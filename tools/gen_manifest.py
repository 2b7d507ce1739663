"""Writes /verif/MANIFEST.json from checks/*.meta.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
NA = json.load(open(f'{V}/tools/not_applicable.json')) if os.path.exists(f'{V}/tools/not_applicable.json') else {}
checks, na = [], []
for p in props:
  i = p['id']
  path = f'{V}/checks/{i.lower()}.meta.json'
  if os.path.exists(path):
    m = json.load(open(path))
    checks.append({
        'property': i,
        'quick_cmd': f'bash check.sh {i} quick', 'thorough_cmd': f'bash check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': m.get('technique', 'property-based testing (Hypothesis): generated inputs against a reference model'),
        'level': m['level'],
        'level_note': m.get('level_note', 'Holds on every generated case of the run; sampled, not exhaustive. Trusts: the reference model in /verif, numpy, jax on CPU.'),
    })
  else:
    na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks share vlib/ (runner, workers, evidence) and run with a vendored Hypothesis (vendor/). Replay a failure with: bash check.sh <ID> quick --replay <file>.'},
          open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
