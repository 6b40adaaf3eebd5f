#!/usr/bin/env python3
"""Runs the check of every planted bug against a scratch copy with the bug.

  run_seeds.py [-t thorough] [ID...]
"""
import json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier = 'quick'
args = sys.argv[1:]
if args[:1] == ['-t']:
    tier, args = args[1], args[2:]
for sid in args or sorted(os.listdir(VERIF + '/seeded')):
    d = VERIF + '/seeded/' + sid
    prop = json.load(open(d + '/meta.json'))['property']
    copy = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', copy + '/r'], check=True)
        subprocess.run(['git', '-C', copy + '/r', 'apply', d + '/patch.diff'], check=True)
        t = time.time()
        r = subprocess.run([sys.executable, VERIF + '/checks/run.py', prop, '--tier', tier],
                           env=dict(os.environ, VERIF_REPO=copy + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        got = 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode
        print('%-18s %s %s %.0fs' % (sid, prop, got, time.time() - t), flush=True)
        if got != 'CAUGHT':
            print('   ', r.stdout[-400:].replace('\n', '\n    '))
    finally:
        shutil.rmtree(copy)
