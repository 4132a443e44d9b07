#!/usr/bin/env python3
"""runs every check against every planted bug; writes dev/matrix.json (id -> properties that report it)"""
import json, os, sys, glob, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
ids = [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
f = os.path.join(HERE, 'matrix.json')
mx = json.load(open(f)) if os.path.exists(f) and '-a' not in sys.argv else {}


def one(d):
    id = os.path.basename(d)
    w = tempfile.mkdtemp(prefix='mbmx')
    try:
        subprocess.check_call(['cp', '-a', '/repo/multibag', w])
        subprocess.check_call(['git', 'apply', '--unsafe-paths', '--directory=' + w, os.path.join(d, 'patch.diff')], cwd='/')
        got = []
        for p in ids:
            r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), '--property', p, '--root', w, '--no-evidence'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                got.append(p)
        return id, got
    finally:
        shutil.rmtree(w)


todo = [d for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))) if os.path.basename(d) not in mx]
with ThreadPoolExecutor(8) as ex:
    for id, got in ex.map(one, todo):
        mx[id] = got
        print(id, got, flush=True)
json.dump(mx, open(f, 'w'), indent=0, sort_keys=True)
