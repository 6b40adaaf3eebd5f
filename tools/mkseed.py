#!/usr/bin/env python3
"""Makes and validates planted bugs: reads the table in seeds_table.py, writes
seeded/<id>/ and keeps an entry only when the patched tree builds, passes the
stable tests and fails the demonstration, which passes on the unchanged tree.

  mkseed.py [ID...]      (scratch copies under /tmp, removed afterwards)
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds_table import SEEDS

DEMO = '''#!/bin/sh
# Exit 0 when the library behaves as promised. Run with cwd at the repository.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp /tmp/demo.XXXXXX)
if %(cc)s -I"$PWD/sources/include" -I"$here/stub" %(src)s -o "$out" %(libs)s
then
    timeout 120 "$out"
    rc=$?
else
    rc=99
fi
rm -f "$out"
exit $rc
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests(copy):
    b = copy + '/_b'
    for c in (['cmake', '-S', '/opt/vp/cmake', '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DREPO=' + copy],
              ['ninja', '-C', b], ['ctest', '--test-dir', b, '-j8', '--timeout', '300']):
        r = sh(c)
        if r.returncode:
            return r.stdout[-1500:]
    return None


def make(sid, s):
    d = VERIF + '/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    copy = tempfile.mkdtemp(prefix='mkseed.', dir='/tmp')
    try:
        sh(['git', 'clone', '-q', '/repo', copy + '/r'])
        r = copy + '/r'
        for f, old, new in s['edits']:
            p = r + '/sources/include/utils/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return 'edit of %s matches %d times: %r' % (f, t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', r, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        # removed lines must come from the original tree
        base = sh(['git', '-C', r, 'rev-list', '--max-parents=0', 'HEAD']).stdout.split()[0]
        mine = set()
        for f in {e[0] for e in s['edits']}:
            old = sh(['git', '-C', r, 'show', base + ':sources/include/utils/' + f]).stdout.splitlines()
            mine |= set(old)
        gone = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        if not any(g in mine and g.strip() for g in gone):
            return 'changes no original line'
        open(d + '/patch.diff', 'w').write(diff)
        cc = s.get('cc', 'g++ -std=c++17 -O1')
        src = '"$here/demo.cpp"'
        if not s.get('script'):
            open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
        for n, body in s.get('files', {}).items():
            os.makedirs(os.path.dirname(d + '/' + n), exist_ok=True)
            open(d + '/' + n, 'w').write(body)
        for n, body in s.get('more', {}).items():
            open(d + '/' + n, 'w').write(body.lstrip('\n'))
            src += ' "$here/%s"' % n
        if s.get('stub'):
            os.makedirs(d + '/stub/sysops', exist_ok=True)
            shutil.copy(VERIF + '/harness/stub/sysops/memory_ops.h', d + '/stub/sysops/memory_ops.h')
        open(d + '/demo.sh', 'w').write(s.get('script') or DEMO % {'cc': cc, 'src': src, 'libs': s.get('libs', '')})
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        e = tests(r)
        if e:
            return 'tests fail: ' + e
        g = sh([d + '/demo.sh'], cwd='/repo')
        b = sh([d + '/demo.sh'], cwd=r)
        if g.returncode:
            return 'demo fails on the unchanged tree: rc %d %s' % (g.returncode, g.stdout[-1500:])
        if not b.returncode:
            return 'demo passes with the patch'
        if b.returncode == 99 and not s.get('compile_fail'):
            return 'demo does not build with the patch: ' + b.stdout[-1500:]
        full = ''
        if os.path.exists('/tmp/w/fulltests.sh') and '--full' in sys.argv:
            o = sh(['bash', '/tmp/w/fulltests.sh', r]).stdout
            full = ' full-suite PASSED lines: %d %s' % (o.count('PASSED'), [l for l in o.splitlines() if 'FAIL' in l][:3])
        return 'ok rc=%d%s' % (b.returncode, full)
    finally:
        shutil.rmtree(copy)


if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(SEEDS)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for sid, res in zip(ids, ex.map(lambda i: make(i, SEEDS[i]), ids)):
            print(sid, SEEDS[sid]['property'], res)
            if not res.startswith('ok'):
                shutil.rmtree(VERIF + '/seeded/' + sid, ignore_errors=True)
