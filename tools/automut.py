#!/usr/bin/env python3
"""Mutation survey: automut.py CHECK FILE [COUNT] [REGEX]   (FILE relative to the repository)
Random small edits of FILE in scratch copies; lists those the check does not report."""
import sys, os, re, random, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
check, rel = sys.argv[1:3]
count = int(sys.argv[3]) if len(sys.argv) > 3 else 30
only = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
repo = os.environ.get('REF', '/repo')
src = open(os.path.join(repo, rel), encoding='latin1').read().split('\n')
OPS = [(r'(?<=[\w\])]) \+ (?=[\w(])', ' - '), (r'(?<=[\w\])]) - (?=[\w(])', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\bWl\.', 'Wr.'), (r'\bWr\.', 'Wl.'),
       (r'\bUl\.', 'Ur.'), (r'\bFr\.', 'Fl.'), (r'\bVy\b', 'Vz'), (r'\bBz\b', 'By'), (r'\bMAX\(', 'MIN('), (r'\bMIN\(', 'MAX('), (r' < ', ' > '), (r' >= ', ' <= '), (r'\b0\.5\*', '0.25*'),
       (r'\bi\+1\]', 'i]'), (r'\bi-1\]', 'i]'), (r'\bj-1\]', 'j]'), (r'\bj\+1\]', 'j]'), (r'\bk\+1\]', 'k]'), (r'\[i\]', '[i+1]'), (r'\[j\]', '[j-1]'), (r'<=', '<'), (r'== 0', '!= 0'), (r'&&', '||'), (r'dx1\b', 'dx2'),
       (r'\bdt\b', '0.5*dt'), (r'\*(?=\w)', '/'), (r'\b2\b', '3'), (r'\b1\b', '2'), (r'\b0\b', '1'), (r'x1\b', 'x2'), (r'x2\b', 'x3')]
cands = []
incomment = False
for n, l in enumerate(src):
    s = l.strip()
    if '/*' in s and '*/' not in s:
        incomment = True
    if incomment or s.startswith(('#', '*', '/*', '//')) or (only and not only.search(l)):
        if '*/' in s:
            incomment = False
        continue
    code = l.split('/*')[0].split('//')[0]
    for a, b in OPS:
        for m in re.finditer(a, code):
            cands.append((n, l[:m.start()] + b + l[m.end():]))
random.Random(int(os.environ.get('SEED', '7'))).shuffle(cands)
def one(job):
    k, (n, new) = job
    d = '/tmp/am%d_%d' % (os.getpid(), k)
    shutil.copytree(os.path.join(repo, 'src'), d + '/src', ignore=shutil.ignore_patterns('*.o'))
    try:
        t = list(src); t[n] = new
        open(os.path.join(d, rel), 'w', encoding='latin1').write('\n'.join(t))
        r = subprocess.run([os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/check.sh', check] + os.environ.get('ARGS', '').split(), env=dict(os.environ, ATHSA_REPO=d, ATHSA_STRICT='1', ATHSA_SERIAL='1', ATHSA_EVIDENCE=d), capture_output=True, text=True)
        o = r.stdout
        res = 'caught' if 'VIOLATION' in o else 'broken' if 'NOT-ANALYSED' in o or r.returncode not in (0, 1) else 'UNDEC' if 'ANALYSIS-ERROR' in o or r.returncode else 'SURVIVED'
        return res, n + 1, src[n].strip(), new.strip()
    finally:
        shutil.rmtree(d)
tot = {}
with ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
    for r in ex.map(one, enumerate(cands[:count])):
        tot[r[0]] = tot.get(r[0], 0) + 1
        if r[0] != 'caught':
            print('%s %d\n   - %s\n   + %s' % (r[0], r[1], r[2][:150], r[3][:150]))
print(tot, 'of', len(cands))
