#!/usr/bin/env python3
"""seedinit.py ID PROPERTY: create demo files from tools/demolib; stdin: sections '%%% needs|breaks|demo|init|after|top|edit'"""
import sys, os, json, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]
d = V + '/seeded/' + sid
os.makedirs(d, exist_ok=True)
sec = {}
for b in sys.stdin.read().split('\n%%% ')[1:]:
    n, t = b.split('\n', 1)
    sec[n.strip()] = t
for f in ('lib.sh', 'athinput'):
    shutil.copy(V + '/tools/demolib/' + f, d)
c = open(V + '/tools/demolib/demo.c').read()
c = c.replace('/*DEMO_INIT*/', sec.get('init', '')).replace('/*DEMO_AFTER*/', sec.get('after', '')).replace('/*DEMO_TOP*/', sec.get('top', ''))
open(d + '/demo.c', 'w').write(c)
open(d + '/demo.sh', 'w').write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n' + sec['demo'].strip() + '\n')
json.dump({'property': prop, 'needs': sec['needs'].strip(), 'what_it_breaks': sec['breaks'].strip()}, open(d + '/meta.json', 'w'), indent=1)
if 'edit' in sec:
    subprocess.run([V + '/tools/seedmk.py', sid], input=sec['edit'], text=True, check=True)
