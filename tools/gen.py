'''Writes properties.jsonl and MANIFEST.json from tools/props.py and the check modules' headers.
usage: python3 tools/gen.py'''
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NOT_APPLICABLE, NOTES   # noqa


def header(prop):
    path = os.path.join(HERE, 'mc', 'checks', prop.lower() + '.py')
    if not os.path.exists(path):
        return None
    out = {'LEVEL': 'model_checking'}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in (
                'TECHNIQUE', 'LEVEL', 'LEVEL_NOTE'):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


checks = []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for (pid, title, statement, over, text, why, files, mechanism, observe) in PROPS:
        assert len(title) <= 80, (pid, len(title))
        h = header(pid)
        if h is None and pid not in NOT_APPLICABLE:
            print('no check yet:', pid)
            continue
        f.write(json.dumps({
            'id': pid, 'title': title, 'statement': statement,
            'quantifier': {'over': over.split(), 'text': text},
            'why_tests_cant': why,
            'anchors': {'files': files.split(),
                        'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                        'observe_at': observe, 'hook_needed': False}}) + '\n')
        if h is not None:
            checks.append({
                'property': pid,
                'quick_cmd': 'bash check.sh {} quick'.format(pid),
                'thorough_cmd': 'bash check.sh {} thorough'.format(pid),
                'evidence_file': 'evidence/{}.json'.format(pid),
                'technique': 'model checking: ' + h['TECHNIQUE'],
                'level': h['LEVEL'], 'level_note': h['LEVEL_NOTE']})

with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'true',
        'checks': checks,
        'not_applicable': [{'property': p, 'reason': r} for p, r in NOT_APPLICABLE.items()],
        'notes': NOTES}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
