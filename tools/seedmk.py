#!/usr/bin/env python3
"""seedmk.py ID: (re)generate seeded/ID/patch.diff from edits in seeded/ID/edit.py-like stdin:  lines  FILE / <<<< old ==== new >>>>"""
import sys, os, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
txt = sys.stdin.read()
w = '/tmp/seedwt'
subprocess.run(['rm', '-rf', w]); os.makedirs(w)
subprocess.run('cd '+os.environ.get('REPO','/repo')+' && git archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm base' % (w, w), shell=True, check=True)
for blk in txt.split('@@@')[1:]:
    f, rest = blk.split('\n', 1)
    old, new = rest.split('\n====\n')
    new = new.split('\n<<<<')[0]
    f, _, nth = f.strip().partition('#')
    s = open(w + '/' + f).read()
    c = s.count(old)
    nth = int(nth or 1)
    if c == 0 or (c > 1 and '#' not in blk.split('\n', 1)[0]):
        sys.exit('match count %d in %s' % (c, f))
    i = -1
    for _ in range(nth):
        i = s.index(old, i + 1)
    s = s[:i] + new + s[i + len(old):]
    open(w + '/' + f, 'w').write(s)
d = V + '/seeded/' + sid
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout)
print(open(d + '/patch.diff').read()[-1500:])
