'''Composes DESIGN.md: tools/design_head.md, one section per property (tools/props.py, the headers of the check
modules, tools/costs.json), the defects and the planted bugs.
usage: python3 tools/design.py [--costs]    --costs: update tools/costs.json from evidence/'''
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NOT_APPLICABLE   # noqa

COSTS = os.path.join(HERE, 'tools', 'costs.json')
costs = json.load(open(COSTS)) if os.path.exists(COSTS) else {}
if '--costs' in sys.argv:
    for path in sorted(glob.glob(os.path.join(HERE, 'evidence', 'C*.json'))):
        e = json.load(open(path))
        c = e['coverage']
        costs.setdefault(e['property'], {})[e['tier']] = [
            round(e['wall_s']), c['cases_enumerated'], c.get('states', c.get('distinct_nontrivial')), c.get('transitions', c.get('evaluations'))]
    json.dump(costs, open(COSTS, 'w'), indent=0, sort_keys=True)

out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read(), '\n## Properties\n']
for (pid, title, statement, over, text, why, files, mechanism, observe) in PROPS:
    out.append('\n### {} {}\n'.format(pid, title))
    if pid in NOT_APPLICABLE:
        out.append('\nNot applicable: {}\n'.format(NOT_APPLICABLE[pid]))
        continue
    tree = ast.parse(open(os.path.join(HERE, 'mc', 'checks', pid.lower() + '.py')).read())
    h = {n.targets[0].id: ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign)
         and getattr(n.targets[0], 'id', '') in ('TECHNIQUE', 'LEVEL_NOTE')}
    out.append('\n{}\n\n'.format(statement))
    out.append('* Decided by: {}.\n'.format(h['TECHNIQUE']))
    out.append('* Quantifier: {}\n'.format(text))
    doc = ' '.join(ast.get_docstring(tree).split())
    out.append('* Enumerated, and oracle: {}\n'.format(doc))
    out.append('* Bounds: {}\n'.format(h['LEVEL_NOTE']))
    out.append('* Why tests cannot: {}\n'.format(why))
    out.append('* Anchored in: {}.\n'.format(', '.join('`{}`'.format(f) for f in files.split())))
    for tier in ('quick', 'thorough'):
        if tier in costs.get(pid, {}):
            w, n, s, t = costs[pid][tier]
            out.append('* Cost, {}: about {} s on 8 cores, {} cases, {} states, {} transitions.\n'.format(tier, max(w, 1), n, s, t))

out.append('\n## Genuine defects found\n\nEach was shown on the real code, repaired by a `fix:` commit and is re-checked by the check named.\n\n')
out.append('| check | commit | what failed |\n|---|---|---|\n')
for line in open(os.path.join(HERE, 'known_findings.txt')):
    if line.startswith('fixed:'):
        _, prop, commit, what = line.split(None, 3)
        out.append('| {} | {} | {} |\n'.format(prop.split('=')[1], commit, what.strip().replace('|', '\\|')))
    elif line.startswith('KNOWN-FINDING'):
        out.append('| known | - | {} |\n'.format(line.strip().replace('|', '\\|')))

out.append('\n## Planted bugs\n\n| seeded | caught by | needs | breaks |\n|---|---|---|---|\n')
rows = []
for path in glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json')):
    m = json.load(open(path))
    rows.append((m['property'], os.path.basename(os.path.dirname(path)), m['needs'], m['what_it_breaks']))
for prop, sid, needs, breaks in sorted(rows):
    out.append('| {} | {} | {} | {} |\n'.format(sid, prop, *[' '.join(v.split()).replace('|', '\\|') for v in (needs, breaks)]))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(''.join(out))
print(sum(len(v) for v in out), 'characters')
