#!/usr/bin/env python3
"""Developer tool: apply small edits to scratch copies of /repo and run checks on them.

  mutants.py LIST.py [NAME-SUBSTRING]...

LIST.py defines M = [(name, pids, expected, [(file, old, new), ...]), ...] where expected is 'v' (some
check must report a violation) or 'q' (all must stay quiet).  Nothing registered in MANIFEST uses this.
"""
import sys, os, subprocess, shutil, re
from concurrent.futures import ThreadPoolExecutor
import threading

W = '/tmp/mutwork' + os.environ.get('MW', '')
loc = threading.local()
ids = iter(range(1000))


def run(m):
    name, pids, exp, edits = m
    if not hasattr(loc, 'd'):
        loc.d = '%s/w%d' % (W, next(ids))
        os.makedirs(loc.d, exist_ok=True)
    R = loc.d + '/repo'
    subprocess.run('rm -rf %s && mkdir -p %s && cd /repo && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C %s'
                   % (R, R, R), shell=True, check=True)
    if isinstance(edits, str):
        r = subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + R, edits], cwd='/', stderr=subprocess.PIPE, text=True)
        if r.returncode:
            r = subprocess.run(['patch', '-p1', '-s', '-i', edits], cwd=R, stdout=subprocess.PIPE, text=True)
            if r.returncode:
                return name, 'BADPATCH', r.stdout
        edits = []
    for f, old, new, *every in edits:
        p = os.path.join(R, f)
        s = open(p).read()
        if old not in s:
            return name, 'NOTFOUND', f + ': ' + old[:60]
        open(p, 'w').write(s.replace(old, new) if every else s.replace(old, new, 1))
    env = dict(os.environ, JESTER_REPO=R, JESTER_CACHE=loc.d + '/cache')
    res, out = [], ''
    for pid in pids.split(','):
        r = subprocess.run(['python3', '-m', 'jsa.main', pid], cwd='/verif', env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        res.append(r.returncode)
        lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'violation' in l or 'Error' in l or 'undecided' in l]
        out += '\n'.join('    %s %s' % (pid, l[:260]) for l in lines[:3 if exp == 'v' else 6]) + '\n'
    if 'replay=facts' in out:
        ok = 'NO BUILD'
    elif exp == 'v':
        ok = 'ok' if 1 in res else 'MISSED'
    else:
        ok = 'ok' if not any(res) else 'FALSE ALARM'
    return name, '%s %s' % (ok, res), out


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ms = [m for m in ns['M'] if not sys.argv[2:] or any(x in m[0] for x in sys.argv[2:])]
    v = os.environ.get('V')
    with ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
        for name, st, out in ex.map(run, ms):
            print(name, st)
            if v or not st.startswith('ok'):
                print(out)


main()
