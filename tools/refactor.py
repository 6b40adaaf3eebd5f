#!/usr/bin/env python3
"""Development aid: behaviour-preserving edits, on which the checks must stay
quiet.  refactor.py [NAME...]   (scratch copies under /tmp)"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from refactor_table import REFACTORINGS


def run(name):
    props, edits = REFACTORINGS[name]
    copy = tempfile.mkdtemp(prefix='refactor.', dir='/tmp')
    out = []
    try:
        shutil.copytree('/repo/sources', copy + '/sources')
        for f, old, new in edits:
            p = copy + '/sources/include/utils/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return ['%s: edit of %s matches %d times: %r' % (name, f, t.count(old), old[:70])]
            open(p, 'w').write(t.replace(old, new))
        for q in props.split():
            r = subprocess.run([sys.executable, VERIF + '/checks/run.py', q], env=dict(os.environ, VERIF_REPO=copy), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = [l for l in r.stdout.splitlines() if ' units decided' in l]
            if r.returncode or not last or ', 0 undecided, 0 errors' not in last[-1]:
                out.append('%s %s rc=%d\n    %s' % (name, q, r.returncode, r.stdout[:900].replace('\n', '\n    ')))
    finally:
        shutil.rmtree(copy)
    return out or [name + ' quiet on ' + props]


if __name__ == '__main__':
    names = sys.argv[1:] or list(REFACTORINGS)
    with ThreadPoolExecutor(3) as ex:
        for o in ex.map(run, names):
            for l in o:
                print(l, flush=True)
