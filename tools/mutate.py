#!/usr/bin/env python3
"""Self-test of the checks: applies small source edits to a scratch copy of /repo's sources and runs a check against the copy.

  mutate.py [-k substring] [-p PROP] [-j N]

tools/mutants.txt lists the edits as blocks:
  == <property> <expected: bad|ok> <title>
  file: <path below src/icl_core/src>
  <<<
  old text
  ===
  new text
  >>>
(file/<<< parts may be repeated).  'bad' edits break the property, 'ok' edits keep the behaviour.
"""
import argparse
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = tempfile.mkdtemp(prefix='vf_cache_')


def parse(fn):
    out = []
    cur = None
    lines = open(fn).read().split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r'== (\S+) (bad|ok) (.*)', l)
        if m:
            cur = {'prop': m.group(1), 'exp': m.group(2), 'title': m.group(3), 'edits': []}
            out.append(cur)
            fil = None
        elif l.startswith('file: '):
            fil = l[6:].strip()
        elif l == '<<<':
            j = lines.index('===', i)
            k = lines.index('>>>', j)
            cur['edits'].append((fil, '\n'.join(lines[i + 1:j]), '\n'.join(lines[j + 1:k])))
            i = k
        i += 1
    return out


def run(m):
    tmp = tempfile.mkdtemp(prefix='vf_mut_')
    try:
        os.makedirs(tmp + '/src/icl_core')
        shutil.copytree(os.environ.get('VF_REPO', '/repo') + '/src/icl_core/src', tmp + '/src/icl_core/src')
        for f, a, b in m['edits']:
            p = os.path.join(tmp, 'src/icl_core/src', f)
            s = open(p).read()
            if s.count(a) < 1:
                return (m, 'STALE', 'text not found in %s' % f)
            open(p, 'w').write(s.replace(a, b, 1))
        env = dict(os.environ, VF_REPO=tmp, VF_EVIDENCE=tmp, VF_CACHE=CACHE)
        r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), m['prop']], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True, timeout=240)
        return (m, r.returncode, r.stdout)
    except subprocess.TimeoutExpired:
        return (m, 'TIMEOUT', '')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-k', default='')
    ap.add_argument('-p', default='')
    ap.add_argument('-j', type=int, default=3)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    ms = [m for m in parse(os.path.join(HERE, 'tools', 'mutants.txt')) if a.k in m['title'] and (not a.p or m['prop'] == a.p)]
    bad = 0
    with ThreadPoolExecutor(a.j) as ex:
        for m, rc, out in ex.map(run, ms):
            want = 1 if m['exp'] == 'bad' else 0
            ok = rc == want
            bad += not ok
            print('%-5s %s %-4s rc=%s  %s' % ('ok' if ok else 'FAIL', m['prop'], m['exp'], rc, m['title']))
            if not ok or a.v:
                print('\n'.join('        ' + l[:260] for l in out.split('\n')[:14]))
            sys.stdout.flush()
    print('%d mutants, %d unexpected' % (len(ms), bad))
    return 1 if bad else 0


try:
    rc = main()
finally:
    shutil.rmtree(CACHE, ignore_errors=True)
sys.exit(rc)
