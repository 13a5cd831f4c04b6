"""Writes DESIGN.md from design_head.md, props.py, the last evidence files,
known_findings.json, design_tail.md and catch.json. Run after all checks."""
import glob
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import NA, PROPS  # noqa: E402

out = [open(os.path.join(here, 'design_head.md')).read().rstrip(), '']
out += ['## Properties', '',
        'Counts are of the quick tier on the tree this file was written for; '
        'a rule whose count falls below its minimum fails the check.', '']
catch = json.load(open(os.path.join(here, 'catch.json')))
findings = json.load(open(os.path.join(root, 'known_findings.json')))[
    'findings']
for p in PROPS:
    if p['id'] in NA:
        continue
    out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '']
    out.append('* **Decided by:** %s.' % p['technique'].rstrip('.'))
    ev = os.path.join(root, 'evidence', p['id'] + '.json')
    if os.path.exists(ev):
        e = json.load(open(ev))
        c = e['coverage']
        out.append('* **Obligations:** %d over %s; about %d s.' % (
            c['obligations'], ', '.join('%d × %s' % (v['count'], k)
                                        for k, v in c['analysed'].items()),
            round(e['wall_s'])))
        for r, v in sorted(c['rules'].items()):
            out.append('  * `%s` (%d): %s.' % (
                r, v['instances'], v['rule'].rstrip('.')))
    out.append('* **Why not by tests:** %s' % p['why'])
    out.append('* **Bounds and trust:** %s' % p['note'])
    out.append('* **Anchored in:** %s.' % '; '.join(
        '%s (`%s`)' % (a, b) for a, b in p['mech']))
    mine = [k for k in findings if k['property'] == p['id']]
    if mine:
        out.append('* **Defects this check found:**')
        for k in mine:
            w = k['what']
            if k['status'] == 'fixed':
                w = w.split(' ', 2)[2]
                out.append('  * fixed in `%s`: %s' % (
                    k['commit'], w.split(' ', 1)[-1]))
            else:
                out.append('  * known, not repaired: %s' % w)
    b = sorted(k for k, v in catch.items() if v['property'] == p['id'])
    if b:
        out.append('* **Planted bugs:** %s.' % ', '.join(
            '%s (%s)' % (k, 'caught' if catch[k]['caught'] else 'missed')
            for k in b))
    out.append('')
out += ['## Not applicable', '']
for p in PROPS:
    if p['id'] in NA:
        out += ['* **%s %s** – %s' % (p['id'], p['title'], NA[p['id']])]
out += ['', '## Planted bugs', '',
        'Each was written from the property and the code; `seeded/<id>/` has '
        'the patch and a demonstration. Where the first version of a check '
        'missed one, the check was extended by the whole class it belongs to.',
        '', '| bug | property | what it breaks | caught by |',
        '|---|---|---|---|']
for k in sorted(catch):
    m = json.load(open(os.path.join(root, 'seeded', k, 'meta.json')))
    out.append('| %s | %s | %s (needs: %s) | %s |' % (
        k, m['property'], m['what_it_breaks'], m['needs'],
        catch[k]['property'] if catch[k]['caught'] else 'missed'))
out += ['', open(os.path.join(here, 'design_tail.md')).read().rstrip(), '']
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
