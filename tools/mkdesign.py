"""Writes DESIGN.md from design_head.md, the check modules, oracles.py, known_findings.json and seeded/."""
import ast, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from oracles import O
out = [open(V + '/tools/design_head.md').read()]
props = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    props[p['id']] = p
out.append('## 2. Properties and how each is decided\n')
for f in sorted(glob.glob(V + '/vk/checks/c*.py')):
    pid = os.path.basename(f)[:-3].upper()
    if pid not in props:
        continue
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id in ('RULE', 'REQUIRED', 'ASSUMPTIONS'):
                d[n.targets[0].id] = ast.literal_eval(n.value)
            elif n.targets[0].id == 'GROUPS':
                d['GROUPS'] = ', '.join(f'{ast.literal_eval(e.elts[0])} {ast.unparse(e.elts[2])}/{ast.unparse(e.elts[3])}' for e in n.value.elts)
    oracle, why, left = O[pid]
    out.append(f'### {pid} {props[pid]["title"]}\n')
    out.append(f'* Oracle: {oracle}')
    out.append(f'* Workload: {d["RULE"]}.')
    out.append(f'* Reach beyond the tests: {why}.')
    out.append(f'* Cases (quick/thorough): {d["GROUPS"]}.')
    out.append('* Monitors that must have fired (minimum): ' + ', '.join(f'{k} {v}' for k, v in d['REQUIRED'].items()) + '.')
    if d.get('ASSUMPTIONS'):
        out.append('* Assumed: ' + '; '.join(d['ASSUMPTIONS']) + '.')
    if left:
        out.append(f'* Not claimed: {left}.')
    out.append('')
k = json.load(open(V + '/known_findings.json'))
out.append('## 3. Defects found\n')
out.append(f'{len(k["fixed"])} defects found by the checks were repaired by "fix:" commits in /repo (the existing tests pass with them); the list is in `known_findings.json` (`fixed`). By property: ' + ', '.join(f'{p} {sum(("property=" + p + " ") in x for x in k["fixed"])}' for p in sorted(props) if any(('property=' + p + ' ') in x for x in k['fixed'])) + '.\n')
out.append('Recorded, not repaired (known findings):\n')
for x in k['findings']:
    out.append(f'* {x["property"]} `{x["mechanism"]}`: {x["what"]}')
out.append('')
if os.path.exists(V + '/tools/design_findings.md'):
    out.append(open(V + '/tools/design_findings.md').read())
out.append('## 4. Planted bugs\n')
out.append('Each was written from the text of its property, confirmed to build, to pass the 96 stable tests, and to fail its own demonstration; "caught" is the outcome of the quick check of its property.\n')
out.append('| bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|')
res = {}
if os.path.exists(V + '/tools/seeded_results.json'):
    res = json.load(open(V + '/tools/seeded_results.json'))
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    c = lambda s: str(s).replace('|', '/').replace('\n', ' ')
    out.append(f'| {i} | {j["property"]} | {c(j["what_it_breaks"])} | {c(j["needs"])} | {res.get(i, "?")} |')
out.append('')
if os.path.exists(V + '/tools/design_tail.md'):
    out.append(open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
