#!/usr/bin/env python3
"""Runs the checks against one-edit variants of /repo (scratch copies under /tmp): bugs must be reported, equivalent
rewrites must stay quiet.  run.py [property or variant name ...]"""
import os, re, shutil, subprocess, sys, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(here)
BASE = os.environ.get('RTTI_BASE', '/repo')
sys.path.insert(0, here)
from variants import VARIANTS


def build(v, d):
    os.makedirs(d)
    for x in ('src', 'include'):
        shutil.copytree(os.path.join(BASE, x), os.path.join(d, x))
    shutil.copytree(os.path.join(BASE, '_build/include'), os.path.join(d, '_build/include'))
    for f, old, new, *k in v['edits']:
        path = os.path.join(d, f)
        s = open(path, encoding='utf-8').read()
        if s.count(old) < 1:
            return 'edit does not apply: %s: %r' % (f, old[:60])
        n = k[0] - 1 if k else v.get('nth')
        s = s.replace(old, new, 1) if n is None else new.join([old.join(s.split(old)[:n + 1]), old.join(s.split(old)[n + 1:])])
        open(path, 'w', encoding='utf-8').write(s)
    return None


def one(v):
    tmp = tempfile.mkdtemp(prefix='rv-')
    d = os.path.join(tmp, 'repo')
    try:
        err = build(v, d)
        if err:
            return v, [('-', 9, err)]
        out = []
        for pid in v['props']:
            r = subprocess.run([sys.executable, VERIF + '/sa/run.py', pid], env=dict(os.environ, RTTI_REPO=d, RTTI_EVID=tmp),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append((pid, r.returncode, r.stdout))
        return v, out
    finally:
        shutil.rmtree(tmp)


def main():
    sel = sys.argv[1:]
    vs = []
    for v in VARIANTS:
        if sel and v['name'] not in sel and not (set(v['props']) & set(sel)):
            continue
        v = dict(v)
        ps = [p for p in v['props'] if not sel or p in sel or v['name'] in sel]
        v['props'] = ps
        vs.append(v)
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for v, out in ex.map(one, vs):
            for pid, rc, txt in out:
                want = 1 if v['bug'] else 0
                good = rc == want
                bad += not good
                und = len(re.findall(r'undecided:', txt))
                print('%-4s %-5s %-34s %s%s' % ('ok' if good else 'FAIL', pid, v['name'], 'rc=%d' % rc, ' (%d undecided)' % und if und else ''))
                if not good or os.environ.get('V'):
                    print('\n'.join('      ' + l[:300] for l in txt.splitlines()[-12:]))
                sys.stdout.flush()
    return 1 if bad else 0


sys.exit(main())
