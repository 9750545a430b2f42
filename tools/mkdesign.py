#!/usr/bin/env python3
"""Regenerates DESIGN.md from tools/design_*.md, tools/meta.py, the rules, seeded/ and known_findings.txt."""
import importlib, json, os, re, sys, textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, HERE + '/tools')
from meta import PROPS, NA
w = lambda s: '\n'.join(textwrap.wrap(s, 150))
o = [open(HERE + '/tools/design_head.md').read().rstrip(), '', '## Properties and how each is decided', '']
for p in PROPS:
    m = importlib.import_module('sa.rules.' + p['id'].lower())
    o += ['### %s – %s' % (p['id'], p['title']), '', w('*Technique*: %s (level: %s).' % (p['tech'], m.LEVEL)), '', w('*Rule*: ' + m.RULE), '']
    o += [w('*For all*: %s. *Beyond tests*: %s.' % (p['for_all'], p['why'])), '']
    a = getattr(m, 'ASSUMES', [])
    o += [w('*Assumes / limits*: ' + '; '.join([x.rstrip('.') for x in a] + [p['note']])), '']
o += ['## Not applicable', '', 'Properties a user relies on that this family cannot settle here:', '']
for p in NA: o += [w('* %s – %s: %s' % (p['id'], p['title'], p['reason']))]
o += ['', '## Planted bugs', '', 'Each lies in `seeded/<id>/` with a demonstration; the column names the check that reports it.', '', '| change | property | needs | reported by |', '|---|---|---|---|']
caught = json.load(open(HERE + '/tools/caught.json'))
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + '/seeded/%s/meta.json' % d))
    o.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], ', '.join(caught.get(d, [])) or 'none'))
o += ['', '## Genuine defects found and repaired', '', 'Each is one `fix:` commit in /repo (also in `known_findings.txt`). None is left as a known finding.', '']
for l in open(HERE + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m: o.append(w('* %s (%s): %s' % m.groups()))
o += ['', open(HERE + '/tools/design_tail.md').read()]
open(HERE + '/DESIGN.md', 'w').write('\n'.join(o).rstrip() + '\n')
