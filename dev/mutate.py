#!/usr/bin/env python3
"""development aid: small changes of the source (one at a time), which the checks and the tests are run on; what both let
pass is printed for a person to judge.

    mutate.py [-f function-substring] [-o logfile] [-n]      -n: do not run the tests
"""
import ast, sys, os, copy, shutil, tempfile, warnings, subprocess, json
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
import refac
from refac import functions, FILES

SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
METHODS = {'startswith': 'endswith', 'endswith': 'startswith', 'lstrip': 'strip', 'rstrip': 'strip', 'strip': 'rstrip', 'append': None,
           'isfile': 'exists', 'isdir': 'exists', 'exists': 'isfile', 'split': 'rsplit', 'basename': 'dirname', 'abspath': 'normpath', 'extend': 'append',
           'lower': 'upper', 'remove': 'discard', 'makedirs': 'mkdir', 'get': None}


def mutants(fn):
    """-> (description, mutated copy of fn)"""
    n = sum(1 for _ in ast.walk(fn))
    nodes = list(ast.walk(fn))
    doc = fn.body[0].value if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None

    def with_(i, change, what):
        f2 = copy.deepcopy(fn)
        m = list(ast.walk(f2))[i]
        r = change(m, f2)
        if r is False:
            return None
        return ('%d %s' % (getattr(nodes[i], 'lineno', 0), what), f2)

    def replace(f2, old, new):
        for p in ast.walk(f2):
            for f, v in ast.iter_fields(p):
                if v is old:
                    setattr(p, f, new)
                    return
                if isinstance(v, list):
                    for k, x in enumerate(v):
                        if x is old:
                            v[k] = new
                            return
    for i, x in enumerate(nodes):
        t = ast.unparse(x).split('\n')[0][:70] if isinstance(x, (ast.expr, ast.stmt)) else ''
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            yield with_(i, lambda m, f: m.ops.__setitem__(0, SWAP[type(m.ops[0])]()), 'compare: ' + t)
            if isinstance(x.ops[0], ast.Eq):
                yield with_(i, lambda m, f: replace(f, m, ast.Call(ast.Attribute(m.left, 'startswith', ast.Load()), [m.comparators[0]], [])), 'prefix: ' + t)
            if isinstance(x.ops[0], ast.Gt):
                yield with_(i, lambda m, f: m.ops.__setitem__(0, ast.Lt()), 'compare<: ' + t)
            if isinstance(x.ops[0], ast.Lt):
                yield with_(i, lambda m, f: m.ops.__setitem__(0, ast.Gt()), 'compare>: ' + t)
        if isinstance(x, ast.BoolOp):
            yield with_(i, lambda m, f: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()), 'and/or: ' + t)
            for k in range(len(x.values)):
                yield with_(i, lambda m, f, k=k: m.values.pop(k) and None if len(m.values) > 2 else replace(f, m, m.values[1 - k]), 'drop %d: %s' % (k, t))
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            yield with_(i, lambda m, f: replace(f, m, m.operand), 'not: ' + t)
        if isinstance(x, (ast.If, ast.While, ast.IfExp)):
            yield with_(i, lambda m, f: setattr(m, 'test', ast.Constant(True)), 'true: ' + t)
            yield with_(i, lambda m, f: setattr(m, 'test', ast.Constant(False)), 'false: ' + t)
        if isinstance(x, ast.Constant) and x is not doc:
            if isinstance(x.value, bool):
                yield with_(i, lambda m, f: setattr(m, 'value', not m.value), 'bool: ' + t)
            elif isinstance(x.value, int):
                yield with_(i, lambda m, f: setattr(m, 'value', m.value + 1), '+1: ' + t)
                if x.value:
                    yield with_(i, lambda m, f: setattr(m, 'value', m.value - 1), '-1: ' + t)
            elif isinstance(x.value, str):
                if len(x.value) <= 40:
                    yield with_(i, lambda m, f: setattr(m, 'value', m.value[:-1] if m.value else 'x'), 'str: ' + t)
        if isinstance(x, ast.Call):
            f = x.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)
            if METHODS.get(nm):
                def ch(m, f2, nm=nm):
                    if isinstance(m.func, ast.Attribute):
                        m.func.attr = METHODS[nm]
                    else:
                        m.func.id = METHODS[nm]
                yield with_(i, ch, 'method: ' + t)
            if nm in ('strip', 'rstrip', 'lstrip', 'lower', 'abspath', 'normpath', 'list', 'sorted', 'reversed', 'OrderedDict', 'set', 'str', 'basename', 'realpath') and \
                    (x.args or isinstance(f, ast.Attribute)):
                yield with_(i, lambda m, f2: replace(f2, m, m.args[0] if m.args and not (isinstance(m.func, ast.Attribute) and m.func.attr in ('strip', 'rstrip', 'lstrip'))
                                                     else m.func.value if isinstance(m.func, ast.Attribute) else m), 'unwrap: ' + t)
            if len(x.args) >= 2 and not any(isinstance(a, ast.Starred) for a in x.args):
                yield with_(i, lambda m, f2: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]), 'args: ' + t)
            if x.args and nm not in ('open',):
                yield with_(i, lambda m, f2: m.args.pop() and None, 'drop arg: ' + t)
            for k in range(len(x.keywords)):
                yield with_(i, lambda m, f2, k=k: m.keywords.pop(k) and None, 'drop kw %s: %s' % (x.keywords[k].arg, t))
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub)):
            if isinstance(x.op, ast.Add):
                yield with_(i, lambda m, f: replace(f, m, m.left), 'left: ' + t)
                yield with_(i, lambda m, f: replace(f, m, m.right), 'right: ' + t)
            else:
                yield with_(i, lambda m, f: setattr(m, 'op', ast.Add()), 'sub: ' + t)
        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice):
            yield with_(i, lambda m, f: replace(f, m, m.value), 'slice: ' + t)
        if isinstance(x, ast.comprehension):
            for k in range(len(x.ifs)):
                yield with_(i, lambda m, f, k=k: m.ifs.pop(k) and None, 'comp if: ' + ast.unparse(x)[:60])
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(x, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for k, s in enumerate(b):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, (ast.FunctionDef, ast.Pass, ast.Import, ast.ImportFrom)):
                        continue
                    d = 'delete %s: ' % s.lineno + ast.unparse(s).split('\n')[0][:70]
                    yield with_(i, lambda m, ff, f=f, k=k: getattr(m, f).__setitem__(k, ast.Pass()), d)
                    if isinstance(s, ast.Continue):
                        yield with_(i, lambda m, ff, f=f, k=k: getattr(m, f).__setitem__(k, ast.Break()), 'break for ' + d)
                    if isinstance(s, ast.Break):
                        yield with_(i, lambda m, ff, f=f, k=k: getattr(m, f).__setitem__(k, ast.Continue()), 'continue for ' + d)
                    if isinstance(s, ast.AugAssign):
                        yield with_(i, lambda m, ff, f=f, k=k: getattr(m, f).__setitem__(k, ast.Assign([getattr(m, f)[k].target], getattr(m, f)[k].value)), 'assign for ' + d)
                    if k + 1 < len(b) and isinstance(b[k + 1], (ast.Expr, ast.Assign)) and isinstance(s, (ast.Expr, ast.Assign)):
                        def sw(m, ff, f=f, k=k):
                            z = getattr(m, f)
                            z[k], z[k + 1] = z[k + 1], z[k]
                        yield with_(i, sw, 'swap %s: ' % s.lineno + d[8:])
                    if isinstance(s, ast.For):
                        yield with_(i, lambda m, ff, f=f, k=k: getattr(m, f)[k].body.append(ast.Break()), 'once ' + d)
                    if isinstance(s, ast.If) and s.orelse:
                        yield with_(i, lambda m, ff, f=f, k=k: setattr(getattr(m, f)[k], 'orelse', []), 'no else ' + d)
        if isinstance(x, ast.Return) and x.value is not None:
            yield with_(i, lambda m, f: setattr(m, 'value', ast.Constant(None)), 'return None: ' + t)
        if isinstance(x, ast.ExceptHandler):
            yield with_(i, lambda m, f: setattr(m, 'type', None), 'bare except')


def variants(fsel):
    for f in FILES:
        src = open('/repo/multibag/' + f).read()
        k = len(list(functions(ast.parse(src))))
        seen = set()
        for i in range(k):
            cls, fn = list(functions(ast.parse(src)))[i]
            q = (cls.name + '.' if cls else '') + fn.name
            if fsel and fsel not in f + ' ' + q:
                continue
            for mm in mutants(fn):
                if mm is None:
                    continue
                what, f2 = mm
                tree = ast.parse(src)
                cls, fn1 = list(functions(tree))[i]
                home = cls.body if cls else tree.body
                home[home.index(fn1)] = f2
                ast.fix_missing_locations(tree)
                try:
                    new = ast.unparse(tree) + '\n'
                except Exception:
                    continue
                if new in seen:
                    continue
                seen.add(new)
                yield (f, q, what, new, '')


def tests(v):
    f, q, what, new, txt = v
    d = tempfile.mkdtemp(prefix='mbmut')
    try:
        shutil.copytree('/repo', d + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git'))
        open(os.path.join(d, 'r', 'multibag', f), 'w').write(new)
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '--no-header', '-p', 'no:cacheprovider', '-rfE', 'tests'], timeout=60,
                               cwd=d + '/r', env=dict(os.environ, PYTHONPATH=d + '/r', TMPDIR=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            return None
        return sorted(l.split()[1].split('[')[0] for l in r.stdout.decode().splitlines() if l.startswith(('FAILED', 'ERROR')))
    finally:
        shutil.rmtree(d)


BASE = None


def both(v):
    v, hit, err = refac.one(v)
    if err or hit:
        return v, hit or {'syntax': []}, None
    return v, {}, tests(v) if BASE is not None else []


def main():
    global BASE
    a = sys.argv[1:]
    fs = a[a.index('-f') + 1] if '-f' in a else None
    if '-n' not in a:
        BASE = tests(('split.py', '', '', open('/repo/multibag/split.py').read(), ''))
    vs = list(variants(fs))
    print('%d changes; failing anyway: %s' % (len(vs), BASE), flush=True)
    from multiprocessing import Pool
    n = c = t = 0
    with Pool(8) as pool:
        for v, hit, fails in pool.imap(both, vs, 2):
            n += 1
            if hit:
                c += 1
            elif fails is None or set(fails) - set(BASE or []):
                t += 1
            else:
                print('ALIVE', v[0], v[1], '|', v[2], flush=True)
    print('%d changes, %d caught by checks, %d of the others by tests' % (n, c, t))


if __name__ == '__main__':
    main()
