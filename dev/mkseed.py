#!/usr/bin/env python3
"""development aid: builds /verif/seeded/<id>/ from dev/seeds/<id>.py and confirms each planted change

    mkseed.py [-n] [id...]        -n: only build, do not confirm

dev/seeds/<id>.py:  PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...], DEMO (python source)"""
import sys, os, shutil, subprocess, tempfile, json, glob
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
args = [a for a in sys.argv[1:] if not a.startswith('-')]
only = '-n' in sys.argv
bad = []
base = json.load(open('/opt/vp/BASELINE.json'))
DROP = "setpriv --bounding-set=-dac_override,-dac_read_search --inh-caps=-dac_override,-dac_read_search".split()


def run(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.update(kw)
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def one(f):
    id = os.path.basename(f)[:-3]
    ns = {}
    exec(open(f).read(), ns)
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mbseed')
    try:
        r = os.path.join(w, 'r')
        shutil.copytree('/repo', r, symlinks=True)
        for p, old, new in ns['EDITS']:
            fp = os.path.join(r, 'multibag', p)
            s = open(fp).read()
            if s.count(old) != 1:
                return id, "edit does not apply (%d): %r" % (s.count(old), old[:60])
            open(fp, 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], r).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        shutil.copy(os.path.join(HERE, 'seeds', 'lib.py'), d)
        with open(os.path.join(d, 'demo.py'), 'w') as fd:
            fd.write("from lib import *\n" + ns['DEMO'].lstrip('\n'))
        with open(os.path.join(d, 'demo.sh'), 'w') as fd:
            fd.write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                     'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here:$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')
        json.dump(dict(property=ns['PROPERTY'], needs=' '.join(ns['NEEDS'].split()),
                       what_it_breaks=' '.join(ns['BREAKS'].split())), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        if only:
            return id, None
        out = os.path.join(w, 'j.xml')
        os.mkdir(os.path.join(w, 'tmp'))
        t = run(DROP + ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--junitxml', out, 'tests'],
                r, TMPDIR=os.path.join(w, 'tmp'), PYTHONPATH=r)
        msg = []
        import xml.etree.ElementTree as ET
        okt = set(k.get('classname') + '::' + k.get('name') for k in ET.parse(out).iter('testcase')
                  if not any(ch.tag in ('failure', 'error', 'skipped') for ch in k))
        lost = [k for k in base['stable'] if k not in okt]
        if lost:
            msg.append("tests: %d lost: %s" % (len(lost), lost[:3]))
        x = run(['bash', os.path.join(d, 'demo.sh')], '/repo')
        if x.returncode:
            msg.append("demo fails on the unchanged tree: " + x.stdout[-400:])
        x = run(['bash', os.path.join(d, 'demo.sh')], r)
        if not x.returncode:
            msg.append("demo passes with the change")
        elif 'DEMO:' not in x.stdout:
            msg.append("(demo fails with: %s)" % x.stdout.strip().splitlines()[-1])
        x = run(['python3', os.path.join(V, 'check.py'), '--property', ns['PROPERTY'], '--root', r, '--no-evidence'], V)
        caught = [l for l in x.stdout.splitlines() if l.startswith('VIOLATION')]
        msg.append("%s: %s" % (ns['PROPERTY'], "caught" if x.returncode == 1 and caught else "MISSED (%d)" % x.returncode))
        return id, '; '.join(msg)
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    from concurrent.futures import ProcessPoolExecutor
    fs = sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py')))
    fs = [f for f in fs if os.path.basename(f) != 'lib.py' and (not args or any(a in os.path.basename(f) for a in args))]
    with ProcessPoolExecutor(7) as ex:
        for id, m in ex.map(one, fs):
            print(id, '|', m)
