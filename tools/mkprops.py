"""Writes properties.jsonl and MANIFEST.json from the table in props.py.
Only properties with a registered check are claimed."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import PROPS, NA
from sa.registry import CHECKS

lines, checks, na = [], [], []
for p in PROPS:
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['q']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [
            {'name': n, 'where': w} for n, w in p['mech']]}}))
    assert len(p['title']) <= 80, p['title']
    if p['id'] in NA:
        na.append({'property': p['id'], 'reason': NA[p['id']]})
    elif p['id'] in CHECKS:
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s' % p['id'],
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'technique': p['technique'], 'level': 'other',
            'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
open(os.path.join(ROOT, 'properties.jsonl'), 'w').write(
    '\n'.join(lines) + '\n')
json.dump({'version': 1,
           'setup_cmd': 'python3 -m compileall -q sa check.py || true',
           'checks': checks, 'not_applicable': na,
           'notes': 'All checks are static: they parse /repo (Python ast, '
                    'clang JSON AST) on every run and never import or '
                    'execute it.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(lines), 'properties', len(checks), 'checks', len(na), 'n/a')
