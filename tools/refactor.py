#!/usr/bin/env python3
"""Runs the checks on behaviour-preserving edits: every alarm is a false one.

tools/refactor.py [-k SUBSTRING] [FILE...]   FILE: tools/refactorings/*.py, lists of R(name, 'P01,P02', file, (old, new), ...)
"""
import argparse, glob, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
W = os.environ.get('RF_DIR', '/tmp/rf')


def load(files):
    out = []

    def R(name, props, file, *subs):
        out.append((name, props.split(','), file, subs))
    for f in files:
        exec(compile(open(f).read(), f, 'exec'), {'R': R})
    return out


def main():
    a = argparse.ArgumentParser()
    a.add_argument('-k', default='')
    a.add_argument('-v', action='store_true')
    a.add_argument('files', nargs='*')
    a = a.parse_args()
    rs = [r for r in load(a.files or sorted(glob.glob(HERE + '/refactorings/*.py'))) if a.k in r[0]]
    os.makedirs(W, exist_ok=True)
    subprocess.check_call(['rsync', '-a', '--delete', '--exclude', '_build', '/repo/', W + '/repo/'])
    env = dict(os.environ, VERIF_REPO=W + '/repo', VERIF_BUILD=W + '/build', VERIF_EVID=W + '/evid')
    bad = 0
    for name, props, file, subs in rs:
        files = {}
        ok = True
        for sub in subs:
            f, old, new = sub if len(sub) == 3 else (file,) + sub
            p = W + '/repo/cartographer/' + f
            t = files.setdefault(p, [open(p).read()] * 2)
            rx = re.compile(r'\n(?:[ \t]*(?://[^\n]*)?\n)*'.join(re.escape(l) for l in re.sub(r'\n(?:[ \t]*\n)*', '\n', old).split('\n')))
            if not rx.search(t[1]):
                print('%s: text not found: %s' % (name, old[:80]))
                ok = False
                break
            files[p] = [t[0], rx.sub(lambda m: new, t[1], 1)]
        if ok:
            for p, t in files.items():
                open(p, 'w').write(t[1])

            def one(pid):
                c = glob.glob('%s/checks/%s_*.py' % (V, pid.lower()))[0]
                r = subprocess.run([sys.executable, c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                return pid, r.returncode, r.stdout
            first = one(props[0])
            with ThreadPoolExecutor(4) as ex:
                res = [first] + list(ex.map(one, props[1:]))
            for pid, rc, o in res:
                if rc:
                    bad += 1
                    print('ALARM %s %s rc=%d' % (name, pid, rc))
                    print('\n'.join('    ' + l[:600 if a.v else 330] for l in o.splitlines() if 'violated' in l or 'rror' in l)[:2500])
            if not any(rc for _, rc, _ in res):
                print('quiet %s %s' % (name, ','.join(props)))
        for p, t in files.items():
            open(p, 'w').write(t[0])
        sys.stdout.flush()
    print('%d refactorings, %d alarms' % (len(rs), bad))


main()
