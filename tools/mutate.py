#!/usr/bin/env python3
"""Development aid: mutate one source file in scratch copies, run checks, list the mutants nobody reports.

  mutate.py P09[,P10] cartographer/transform/rigid_transform.h [-l FROM-TO] [-n MAX] [-s SEED]
"""
import argparse, glob, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
ap = argparse.ArgumentParser()
ap.add_argument('pids'); ap.add_argument('file'); ap.add_argument('-l', default=''); ap.add_argument('-n', type=int, default=60)
ap.add_argument('-s', type=int, default=1); ap.add_argument('-w', type=int, default=7); ap.add_argument('-k', action='store_true')
a = ap.parse_args()
V = '/verif'; ROOT = '/tmp/mut'
RULES = [(r'(?<![<>=!\-])<(?![<=>/a-zA-Z:"])', '<='), (r'<=', '<'), (r'(?<![\->=])>=', '>'), (r'(?<=\s)> ', '>= '), (r'==', '!='), (r'!=', '=='),
         (r'&&', '||'), (r'\|\|', '&&'), (r'(?<=[\w)\]] )\+(?= )', '-'), (r'(?<=[\w)\]] )-(?= )', '+'), (r'(?<=[\w)\]] )\*(?= )', '/'), (r'(?<=[\w)\]] )/(?= )', '*'),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)),
         (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'\.x\(\)', '.y()'), (r'\.y\(\)', '.x()'), (r'\bstd::max\b', 'std::min'),
         (r'\bstd::min\b', 'std::max'), (r'\bmin_', 'max_'), (r'\bmax_', 'min_'), (r'(?<=[( ])!(?=[\w(])', ''), (r'\bif \((?!!)', 'if (!'),
         (r'\bfirst\b', 'second'), (r'\bfront\(\)', 'back()'), (r'\bback\(\)', 'front()'), (r'\breturns\b', 'misses'), (r'\bmisses\b', 'returns'),
         (r'\+=', '-='), (r'\bbegin\(\)', 'end()'), (r'lower_bound', 'upper_bound'), (r'upper_bound', 'lower_bound'), (r'_2d\b', '_3d')]
src = open('/repo/' + a.file).read()
lines = src.split('\n')
lo, hi = (1, len(lines))
if a.l:
    lo, hi = map(int, a.l.split('-'))
muts = []
for i, l in enumerate(lines):
    if not lo <= i + 1 <= hi or l.strip().startswith(('//', '#', '*', 'using ', 'namespace', 'template', 'LOG(', '<<')) or re.search(r'\b[rR]eserve\(', l) or not l.strip():
        continue
    code = re.sub(r'//.*$', '', l)
    code = re.sub(r'"[^"]*"', lambda m: '"' + '_' * (len(m.group(0)) - 2) + '"', code)
    for pat, rep in RULES:
        for m in re.finditer(pat, code):
            r = rep(m) if callable(rep) else rep
            muts.append((i, l[:m.start()] + r + l[m.end():]))
    st = l.strip()
    if re.match(r'^[\w>\-.\[\]\(\)\*:&]+(\s*[+\-*/|&]?=|\().*;$', st) and not re.match(r'^(return|delete|const |auto |double |int |float |std::\w+<.*> \w+)', st) and \
            not re.match(r'^\w[\w:<>]* \w+( =|\(|;)', st):
        muts.append((i, l[:len(l) - len(l.lstrip())] + '/*removed*/;'))
random.Random(a.s).shuffle(muts)
muts = sorted(muts[:a.n])
os.makedirs(ROOT, exist_ok=True)
q = Queue()
for w in range(a.w):
    d = '%s/w%d' % (ROOT, w)
    os.makedirs(d, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', '--include', '/cartographer/***', '--include', '/configuration_files/***', '--include', '/cmake/***', '--include', '/*', '--exclude', '*', '/repo/', d + '/repo/'], check=True) \
        if shutil.which('rsync') else subprocess.run('rm -rf %s/repo; mkdir %s/repo; cp -a /repo/cartographer /repo/configuration_files %s/repo/; cp -a /repo/*.cmake.in /repo/*.txt /repo/*.in %s/repo/ 2>/dev/null; true' % (d, d, d, d), shell=True)
    if not os.path.exists(d + '/build') or not a.k:
        subprocess.run('mkdir -p %s/build && cp -au %s/build/. %s/build/' % (d, V, d), shell=True)
    q.put(d)
chk = [glob.glob('%s/checks/%s_*.py' % (V, p.lower()))[0] for p in a.pids.split(',')]


def run(m):
    i, nl = m
    d = q.get()
    try:
        f = d + '/repo/' + a.file
        ls = list(lines); ls[i] = nl
        open(f, 'w').write('\n'.join(ls))
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_BUILD=d + '/build', VERIF_EVID=d + '/evid', VERIF_JOBS='1')
        res = []
        for c in chk:
            r = subprocess.run([sys.executable, c], env=env, capture_output=True, text=True)
            res.append(r.returncode)
            if r.returncode == 1:
                break
            if r.returncode != 0 and 'does not parse' in r.stdout + r.stderr:
                return m, 'nocompile', ''
            if r.returncode not in (0, 1):
                return m, 'error', (r.stdout + r.stderr)[-300:]
        open(f, 'w').write(src)
        return m, 'killed' if 1 in res else 'SURVIVED', ''
    finally:
        open(d + '/repo/' + a.file, 'w').write(src)
        q.put(d)


cnt = {}
with ThreadPoolExecutor(a.w) as ex:
    for (i, nl), r, t in ex.map(run, muts):
        cnt[r] = cnt.get(r, 0) + 1
        if r in ('SURVIVED', 'error'):
            print('%s %d\n   - %s\n   + %s %s' % (r, i + 1, lines[i].strip(), nl.strip(), t.replace('\n', ' | ')), flush=True)
print(cnt)
