#!/usr/bin/env python3
"""development aid: apply each source edit of dev/cases_*.txt to a scratch copy of the package and list which
properties the rules report as violated.  Cases named bad-* must be reported, cases named ok-* must not.

    run.py [-k substring] [-t] [file...]        -t: also run the repository's tests on the edited copy
"""
import sys, os, shutil, tempfile, subprocess, glob, json, warnings
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def load(fn):
    """blocks:  @@ name file [props]\n<<<<\nold\n====\nnew\n>>>>  (several edits per block allowed)"""
    out = []
    cur = None
    mode = None
    f = None
    for line in open(fn):
        if mode is None and line.startswith('@@ '):
            p = line.split()
            cur = {'name': p[1], 'props': p[3:], 'edits': []}
            f = p[2]
            out.append(cur)
        elif mode is None and line.startswith('@file '):
            f = line.split()[1]
        elif mode is None and line.rstrip('\n') == '<<<<':
            mode = 'old'
            old, new = [], []
        elif mode == 'old' and line.rstrip('\n') == '====':
            mode = 'new'
        elif mode == 'new' and line.rstrip('\n') == '>>>>':
            cur['edits'].append((f, ''.join(old), ''.join(new)))
            mode = None
        elif mode == 'old':
            old.append(line)
        elif mode == 'new':
            new.append(line)
    return out


def one(case):
    import check
    from mbsa.query import Ctx, RULES
    from mbsa.program import AnalysisBroken
    d = tempfile.mkdtemp(prefix='mbmut')
    try:
        shutil.copytree('/repo/multibag', d + '/multibag')
        for f, old, new in case['edits']:
            p = os.path.join(d, 'multibag', f)
            s = open(p).read()
            if s.count(old) != 1:
                return case, None, "edit does not apply (%d matches): %r" % (s.count(old), old[:80])
            s2 = s.replace(old, new)
            open(p, 'w').write(s2)
        for f in set(x[0] for x in case['edits']):
            p = os.path.join(d, 'multibag', f)
            compile(open(p).read(), p, 'exec')
        ctx = Ctx(d)
        hit = {}
        for p in sorted(set(x[0] for x in RULES)):
            rep = check.decide(ctx, p)
            kn = [(k['rule'], k['construct']) for k in check.known(p)]
            b = [o for o in rep.obligations if not o[2] and (o[0], o[1]) not in kn]
            if b:
                hit[p] = b
        return case, hit, None
    finally:
        shutil.rmtree(d)


def test(case):
    d = tempfile.mkdtemp(prefix='mbtst')
    try:
        shutil.copytree('/repo', d + '/r', symlinks=True)
        for f, old, new in case['edits']:
            p = os.path.join(d, 'r', 'multibag', f)
            s = open(p).read()
            open(p, 'w').write(s.replace(old, new))
        r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider',
                            'tests' if os.path.isdir(d + '/r/tests') else '.'],
                           cwd=d + '/r', env=dict(os.environ, PYTHONPATH=d + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.stdout.decode()[-300:]
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    k = None
    t = '-t' in args
    v = '-v' in args
    args = [a for a in args if a not in ('-t', '-v')]
    if '-k' in args:
        i = args.index('-k')
        k = args[i + 1]
        del args[i:i + 2]
    files = args or sorted(glob.glob(HERE + '/cases_*.txt'))
    cases = [c for f in files for c in load(f) if not k or k in c['name']]
    from multiprocessing import Pool
    nbad = 0
    with Pool(8) as pool:
        for case, hit, err in pool.imap(one, cases):
            if err:
                print('ERROR ', case['name'], err)
                nbad += 1
                continue
            want = case['name'].startswith('bad')
            good = bool(hit) == want and (not want or not case['props'] or set(case['props']) & set(hit))
            if not good:
                nbad += 1
            print('%s %-40s %s' % ('ok    ' if good else ('MISSED' if want else 'FALSE '), case['name'], ' '.join(sorted(hit))))
            if v or (not want and hit):
                for p in hit:
                    for o in hit[p][:3 if not v else 99]:
                        print('        ', p, o[0], '|', o[1], '|', o[4], '|', o[3][:300])
            if t:
                print(test(case))
    print("%d cases, %d not as expected" % (len(cases), nbad))


if __name__ == '__main__':
    main()
