#!/usr/bin/env python3
"""Turns tools/seeds/<id>.txt into seeded/<id>/ and (with -t) confirms it: builds, passes the tests, fails its demonstration,
and shows which checks report it.

Spec:  property: / needs: / breaks: lines, then 'file:' + <<< old === new >>> edits as in mutants.txt, then a line '---- demo.cpp'
(optionally '---- args <extra compiler arguments>') and the demonstration program.
"""
import json
import os
import re
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/icl_core/src/'
DEMO = '''#!/bin/bash
# Compiles the demonstration against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
flags="-std=gnu++17 -w -g -D_SYSTEM_LINUX_ -D_SYSTEM_POSIX_ -D_IC_BUILDER_DEPRECATED_STYLE_ -D_IC_BUILDER_ENABLE_BASE_TYPES_ -D_SYSTEM_IDENTIFIER_=x86_64.Linux"
g++ $flags -I src/icl_core/src -I /opt/vp/compat "$here/demo.cpp" -o "$tmp/demo" %s $(ls "$PWD"/_build/lib/libicl_core*.so) \\
  -Wl,-rpath,"$PWD/_build/lib" -lpthread $(ls /usr/lib/x86_64-linux-gnu/lib{boost_system,boost_filesystem,boost_date_time,boost_regex,sqlite3,z}.so 2>/dev/null) || exit 4
cd "$tmp" || exit 5
timeout 100 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    test = '-t' in sys.argv
    quick = '-q' in sys.argv
    if not ids:
        ids = sorted(f[:-4] for f in os.listdir(HERE + '/tools/seeds') if f.endswith('.txt'))
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
    for i in ids:
        txt = open('%s/tools/seeds/%s.txt' % (HERE, i)).read()
        head, demo = re.split(r'^---- demo\.cpp.*\n', txt, maxsplit=1, flags=re.M)
        extra = re.search(r'^---- demo\.cpp *(.*)$', txt, re.M).group(1)
        meta = {k: re.search(r'^%s: (.*)$' % k, head, re.M).group(1) for k in ('property', 'needs', 'breaks')}
        d = '%s/seeded/%s' % (HERE, i)
        os.makedirs(d, exist_ok=True)
        lines = head.split('\n')
        fil = None
        k = 0
        bad = None
        while k < len(lines):
            if lines[k].startswith('file: '):
                fil = lines[k][6:].strip()
            elif lines[k] == '<<<':
                a = lines.index('===', k)
                b = lines.index('>>>', a)
                old, new = '\n'.join(lines[k + 1:a]), '\n'.join(lines[a + 1:b])
                s = open(SRC + fil).read()
                if s.count(old) != 1:
                    bad = 'text found %d times in %s' % (s.count(old), fil)
                    break
                open(SRC + fil, 'w').write(s.replace(old, new))
                k = b
            k += 1
        try:
            if bad:
                print(i, 'STALE', bad)
                continue
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            open(d + '/demo.cpp', 'w').write(demo)
            open(d + '/demo.sh', 'w').write(DEMO % extra)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            if test:
                res = [i]
                b = sh('bash /opt/vp/build.sh')
                if b.returncode:
                    print(i, 'DOES NOT BUILD', b.stdout[-800:])
                    continue
                if not quick:
                    t = sh('bash /opt/vp/test.sh /tmp/plant.json')
                    res.append(t.stdout.strip().split('\n')[-1])
                r = sh('bash %s/demo.sh' % d, cwd='/repo')
                res.append('demo with patch: %d' % r.returncode)
                if r.returncode in (3, 4, 5) or quick:
                    res.append(r.stdout[-600:])
                c = sh('VF_EVIDENCE=/tmp/plant_ev python3 check.py %s' % meta['property'], cwd=HERE)
                res.append('check: %d' % c.returncode)
                res.append('\n   '.join(l[:220] for l in c.stdout.split('\n') if l.startswith('  ') or 'BROKEN' in l)[:900])
                print(' | '.join(res))
        finally:
            sh('git -C /repo checkout -- .')
        if test:
            sh('bash /opt/vp/build.sh')
            r = sh('bash %s/demo.sh' % d, cwd='/repo')
            print('   demo without patch: %d %s' % (r.returncode, r.stdout[-400:] if r.returncode else ''))


main()
