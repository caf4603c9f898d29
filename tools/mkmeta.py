#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines, checks = [], []
na = []
for p in PROPS + NOT_APPLICABLE:
    assert len(p['title']) <= 80, p['title']
    d = {k: p[k] for k in ('id', 'title', 'statement')}
    d['quantifier'] = {'over': p['over'], 'text': p['qtext']}
    d['why_tests_cant'] = p['why']
    d['anchors'] = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
    lines.append(json.dumps(d))
    if 'reason' in p:
        na.append({'property': p['id'], 'reason': p['reason']})
    else:
        c = {'property': p['id'],
             'quick_cmd': './check.sh %s' % p['id'],
             'thorough_cmd': './check.sh %s --thorough' % p['id'],
             'technique': p['technique'], 'level': 'other', 'level_note': p['note']}
        checks.append(c)
open(V + '/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

# DESIGN.md from the template
seeds = []
sd = V + '/seeded'
from props import CAUGHT
paths = {d: V + '/' + q + '/' + d for q in ('seeded', 'seeded_more') if os.path.isdir(V + '/' + q) for d in os.listdir(V + '/' + q)}
for d in sorted(paths):
    mp = paths[d] + '/meta.json'
    if os.path.exists(mp):
        m = json.load(open(mp))
        seeds.append('* `%s` (%s): %s. Needs: %s. %s' % (d, m['property'], m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'),
                     CAUGHT.get(d, 'Caught by %s.' % m['property'])))
pr = []
for p in PROPS:
    pr.append('### %s %s\n\n%s\n\n*Decided by:* %s. %s' % (p['id'], p['title'], p['statement'], p['technique'], p.get('design', '')))
    import importlib, re
    sys.path.insert(0, V)
    from athsa.checks import REGISTRY
    src = open(V + '/athsa/checks/' + REGISTRY[p['id']] + '.py').read()
    mod = importlib.import_module('athsa.checks.' + REGISTRY[p['id']])
    pr.append('*Rules:* ' + mod.RULE)
    pr.append('*Assumptions:* ' + '; '.join(getattr(mod, 'ASSUMPTIONS', [])))
for p in NOT_APPLICABLE:
    pr.append('### %s %s (not applicable)\n\n%s' % (p['id'], p['title'], p['reason']))
t = open(V + '/tools/DESIGN.tmpl').read()
t = t.replace('@@PROPS@@', '\n\n'.join(pr)).replace('@@SEEDS@@', '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(t)
