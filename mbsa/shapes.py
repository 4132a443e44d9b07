"""
A constant-propagation domain for path and name terms.  A rule that has to know how a string condition or a path
computation treats a whole class of inputs (inside the bag, above it, absolute, sharing a name prefix ...) propagates
one canonical element of the class through the *terms* extracted from the source, with the transfer functions below.
Nothing of the analysed program is executed; a term without a transfer function evaluates to UNKNOWN, which no rule
accepts as a proof.
"""
import posixpath, re
from .terms import *
from .terms import TRUE, FALSE, NONE


class _U(object):
    def __repr__(self):
        return 'UNKNOWN'


UNKNOWN = _U()


class Inst(dict):
    """an instance of a class, by its attributes"""

    def __bool__(self):
        return True


class Shape(object):
    def __init__(self, env, facts=None, ext=None):
        """env: {term: value}; facts(atom, shape) -> bool or None for atoms that are not about strings;
        ext(term, shape) -> value or UNKNOWN for terms of other kinds"""
        self.env = dict(env)
        self.ext = ext
        self.facts = facts
        self.memo = {}

    def child(self, more):
        env = dict(self.env)
        env.update(more)
        return type(self)(env, self.facts, self.ext)

    # -------------------------------------------------------------- values
    def val(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = UNKNOWN
        v = self.ext(t, self) if self.ext else UNKNOWN
        if v is UNKNOWN:
            v = self._val(t)
        self.memo[t] = v
        return v

    def vals(self, ts):
        out = [self.val(x) if isinstance(x, Term) else x for x in ts]
        return None if any(x is UNKNOWN for x in out) else out

    def _val(self, t):
        o, a = t.op, t.args
        if o == 'const':
            return cval(t)
        if o == 'path':
            v = self.vals(a)
            if v is None or not all(isinstance(x, str) for x in v):
                return UNKNOWN
            return posixpath.join(*v)
        if o == 'concat':
            v = self.vals(a)
            if v is None:
                return UNKNOWN
            if all(isinstance(x, str) for x in v):
                return ''.join(v)
            if all(isinstance(x, list) for x in v):
                return sum(v, [])
            if all(isinstance(x, str) or type(x) is int for x in v):
                return ''.join(str(x) for x in v)         # formatted
            return UNKNOWN
        if o == 'ite':
            c = self.truth(a[0])
            return UNKNOWN if c is None else self.val(a[1] if c else a[2])
        if o == 'F':
            c = self.truth(a[0])
            return UNKNOWN if c is None else c
        if o in ('list', 'tuple'):
            v = self.vals(a)
            return UNKNOWN if v is None else list(v)
        if o == 'copy':
            v = self.val(a[1])
            if v is UNKNOWN or v is None or isinstance(v, (int, bool)):
                return UNKNOWN
            if a[0] == 'dict':
                if isinstance(v, dict):
                    return dict(v)
                return dict((x[0], x[1]) for x in v) if all(isinstance(x, (list, tuple)) and len(x) == 2 and isinstance(x[0], (str, int)) for x in v) else UNKNOWN
            v = list(v)
            if a[0] in ('set', 'frozenset'):
                out = []
                for x in v:
                    if x not in out:
                        out.append(x)
                return out
            if a[0] == 'sorted':
                return sorted(v) if all(isinstance(x, str) for x in v) else UNKNOWN
            return v[::-1] if a[0] == 'rev' else v
        if o == 'condlist':
            out = []
            for x in a:
                if x.op == 'condel':
                    c = self.cond(x.args[0])
                    if c is None:
                        return UNKNOWN
                    if not c:
                        continue
                    x = x.args[1]
                y = self.val(x)
                if y is UNKNOWN:
                    return UNKNOWN
                out.append(y)
            return out
        if o == 'unary' and a[0] == 'USub':
            v = self.val(a[1])
            return -v if isinstance(v, int) else UNKNOWN
        if o == 'slice':
            v = self.val(a[0])
            k = [None if x is NONE else self.val(x) for x in a[1:4]]
            if not isinstance(v, (str, list)) or any(x is UNKNOWN for x in k):
                return UNKNOWN
            return v[slice(*k)]
        if o == 'index':
            v, k = self.val(a[0]), self.val(a[1])
            if isinstance(v, (str, list, tuple)) and isinstance(k, int):
                return v[k] if -len(v) <= k < len(v) else UNKNOWN
            if isinstance(v, dict):
                return v.get(k, UNKNOWN) if k is None or isinstance(k, (str, int)) else UNKNOWN
            return UNKNOWN
        if o == 'first':
            v = self.val(a[0])
            return v[0] if isinstance(v, list) and v else UNKNOWN
        if o == 'len':
            v = self.val(a[0])
            return len(v) if isinstance(v, (str, bytes, list, dict)) else UNKNOWN
        if o == 'count':
            v = self.val(a[0])
            return len(v) if isinstance(v, list) else UNKNOWN
        if o == 'add' or o == 'sub':
            v = self.vals(a)
            if v is not None and o == 'add' and all(isinstance(x, list) for x in v):
                return v[0] + v[1]
            if v is None or not all(isinstance(x, int) for x in v):
                return UNKNOWN
            return v[0] + v[1] if o == 'add' else v[0] - v[1]
        if o == 'binop':
            v = self.vals(a[1:])
            f = BINOPS.get(a[0])
            if v is None or f is None or not all(isinstance(x, int) for x in v):
                return UNKNOWN
            try:
                return f(*v)
            except Exception:
                return UNKNOWN
        if o == 'attr':
            v = self.val(a[0])
            return v.get(a[1], UNKNOWN) if isinstance(v, Inst) else UNKNOWN
        if o == 'view':
            v = self.val(a[0])
            if isinstance(v, list) and all(isinstance(x, int) for x in a[1:3]):
                return v[a[1]:len(v) - a[2]]
            return UNKNOWN
        if o == 'join':
            v = self.vals(a)
            return v[0].join(str(x) for x in v[1]) if v and isinstance(v[1], list) else UNKNOWN
        if o == 'comp' and len(a) == 4 and len(a[2]) >= 1:
            return self._comp(t)
        if o in ('call', 'bcall'):
            v = self._call(a[0], a[1:])
            if v is UNKNOWN and o == 'bcall' and self.facts is not None:
                c = self.facts(t, self)
                return UNKNOWN if c is None else c
            return v
        if o in ATOM_OPS:
            c = self.truth_atom(t)
            return UNKNOWN if c is None else c
        if self.facts is not None:
            c = self.facts(t, self)
            return UNKNOWN if c is None else c
        return UNKNOWN

    def _comp(self, t):
        kind, el, gens, cond = t.args
        out = []
        if not self._gens(gens, el, cond, out):
            return UNKNOWN
        if kind == 'dict':
            if not all(isinstance(x, list) and len(x) == 2 and isinstance(x[0], (str, int)) for x in out):
                return UNKNOWN
            return dict((x[0], x[1]) for x in out)
        return out

    def _gens(self, gens, el, cond, out):
        """append the elements that the generators produce to 'out'; False if they are not known"""
        base = gens[0].args[0]
        order = gens[0].args[1].args if len(gens[0].args) > 1 else ()
        v = self.val(base)
        if isinstance(v, dict) and not isinstance(v, Inst):
            v = list(v)
        if not isinstance(v, list) or any(x not in ('copy', 'rev', 'list', 'tuple', 'keys', 'iter') for x in order):
            return False
        if list(order).count('rev') % 2:
            v = v[::-1]
        for x in v:
            s = self.child({T('elem', base): x})
            if len(gens) > 1:
                if not s._gens(gens[1:], el, cond, out):
                    return False
                continue
            c = s.truth(cond.args[0]) if cond.op == 'F' else True
            if c is None:
                return False
            if c:
                y = s.val(el)
                if y is UNKNOWN:
                    return False
                out.append(y)
        return True

    def _call(self, n, args):
        star = [x for x in args if isinstance(x, Term) and x.op == 'star']
        if star:
            if len(args) == 1:
                v = self.val(star[0].args[0])
                if isinstance(v, list) and n == 'os.path.join' and v:
                    return posixpath.join(*v)
            return UNKNOWN
        args = [x for x in args if not (isinstance(x, Term) and x.op == 'kw')]
        if n == '.sub' and len(args) == 3:
            rx = self.regex(args[0])
            v = self.vals(args[1:])
            return rx.sub(v[0], v[1]) if rx is not None and v else UNKNOWN
        if n == 're.sub' and len(args) == 3:
            v = self.vals(args)
            return re.sub(v[0], v[1], v[2]) if v else UNKNOWN
        v = self.vals(args)
        if n == 'next' and v is not None and len(v) == 2 and isinstance(v[0], list):
            return v[0][0] if v[0] else v[1]
        if v is None:
            return UNKNOWN
        f = PURE.get(n)
        if f is None:
            return UNKNOWN
        try:
            return f(*v)
        except Exception:
            return UNKNOWN

    def regex(self, t):
        if t.op == 'call' and t.args[0] in ('re.compile', 'compile') and len(t.args) == 2 and is_const(t.args[1]):
            return re.compile(cval(t.args[1]))
        return None

    # -------------------------------------------------------------- conditions
    def cond(self, t):
        """the truth of a condition given as a term"""
        if t.op == 'F':
            return self.truth(t.args[0])
        if is_const(t):
            return bool(cval(t))
        return self.truth_atom(t if t.op in ATOM_OPS or t.op == 'bcall' else T('truthy', t))

    def truth(self, node):
        """True, False or None for a formula"""
        if node is TRUE:
            return True
        if node is FALSE:
            return False
        asg = {}
        for a in support(node):
            v = self.truth_atom(a)
            if v is not None:
                asg[a] = v
        n = restrict(node, asg)
        return True if n is TRUE else (False if n is FALSE else None)

    def left(self, node):
        asg = {}
        for a in support(node):
            v = self.truth_atom(a)
            if v is not None:
                asg[a] = v
        return restrict(node, asg)

    def truth_atom(self, a):
        v = self.facts(a, self) if self.facts is not None else None
        if v is not None:
            return v
        o = a.op
        if o in ('truthy', 'isnone'):
            x = self.val(a.args[0])
            if x is UNKNOWN:
                return None
            return bool(x) if o == 'truthy' else x is None
        if o == 'match':
            rx, s = self.regex(a.args[1]), self.val(a.args[2])
            if rx is None or not isinstance(s, str):
                return None
            return bool(getattr(rx, a.args[0])(s))
        if o == 'isinstance':
            x = self.val(a.args[0])
            if isinstance(x, str) and a.args[1] in ('str', 'unicode', 'basestring', 'list', 'tuple', 'Bag', 'Path', 'dict'):
                return a.args[1] in ('str', 'unicode', 'basestring')
            if isinstance(x, list) and a.args[1] in ('str', 'list', 'tuple', 'dict'):
                return a.args[1] == 'list'
            if x is None:
                return False
            return None
        if o == 'existsq':
            base = self.val(a.args[0])
            if isinstance(base, (str, dict)):
                base = list(base)
            if not isinstance(base, list) or a.args[1].op != 'F':
                return None
            res = False
            for x in base:
                s = self.child({T('elem', a.args[0]): x})
                c = s.truth(a.args[1].args[0])
                if c is None:
                    return None
                res = res or c
            return res
        if o in ('call', 'bcall'):
            x = self.val(a)
            return None if x is UNKNOWN else bool(x)
        v = self.vals(a.args)
        if v is None:
            return None
        try:
            if o == 'startswith':
                return v[0].startswith(tuple(v[1]) if isinstance(v[1], list) else v[1])
            if o == 'endswith':
                return v[0].endswith(tuple(v[1]) if isinstance(v[1], list) else v[1])
            if o == 'eq':
                return v[0] == v[1]
            if o == 'in':
                return v[0] in v[1]
            if o == 'lt':
                return v[0] < v[1]
            if o == 'isabs':
                return posixpath.isabs(v[0])
        except Exception:
            return None
        return None


BINOPS = {
    'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y, 'Mult': lambda x, y: x * y,
    'Mod': lambda x, y: x % y, 'FloorDiv': lambda x, y: x // y, 'LShift': lambda x, y: x << y, 'RShift': lambda x, y: x >> y,
}

ATOM_OPS = ('truthy', 'isnone', 'match', 'isinstance', 'existsq', 'startswith', 'endswith', 'eq', 'in', 'lt', 'isabs')

CWD = '/work/here'      # the current directory, which has no links above it

PURE = {
    'os.path.abspath': lambda p: posixpath.normpath(posixpath.join(CWD, p)), 'os.getcwd': lambda: CWD,
    'os.path.realpath': lambda p: posixpath.normpath(posixpath.join(CWD, p)),
    'os.path.normpath': posixpath.normpath, 'os.path.dirname': posixpath.dirname, 'os.path.basename': posixpath.basename,
    'os.path.join': posixpath.join, 'os.path.isabs': posixpath.isabs, 'os.path.split': lambda p: list(posixpath.split(p)),
    'os.path.splitext': lambda p: list(posixpath.splitext(p)),
    'fs.path.isabs': lambda p: p.startswith('/'), 'fs.path.join': posixpath.join, 'fs.path.normpath': posixpath.normpath,
    'os.path.relpath': lambda p, s='.': posixpath.relpath(p, s),
    'os.path.commonpath': posixpath.commonpath, 'os.path.commonprefix': posixpath.commonprefix,
    '.split': lambda s, *a: s.split(*a), '.rsplit': lambda s, *a: s.rsplit(*a), '.strip': lambda s, *a: s.strip(*a),
    '.rstrip': lambda s, *a: s.rstrip(*a), '.lstrip': lambda s, *a: s.lstrip(*a), '.lower': lambda s: s.lower(),
    '.upper': lambda s: s.upper(), '.replace': lambda s, *a: s.replace(*a), '.startswith': lambda s, p: s.startswith(p),
    '.endswith': lambda s, p: s.endswith(p), '.partition': lambda s, p: list(s.partition(p)), '.rpartition': lambda s, p: list(s.rpartition(p)),
    '.find': lambda s, p: s.find(p), '.isdigit': lambda s: s.isdigit(), '.index': lambda s, p: s.index(p), '.count': lambda s, p: s.count(p),
    're.search': lambda r, s: [True] if re.search(r, s) else None, 're.match': lambda r, s: [True] if re.match(r, s) else None,
    're.fullmatch': lambda r, s: [True] if re.fullmatch(r, s) else None, '.isspace': lambda s: s.isspace(),
    're.split': lambda r, s: re.split(r, s), 'str': str, 'len': len, 'bool': bool, '.join': lambda s, l: s.join(l),
    'os.path.expanduser': lambda p: '/home/u' + p[1:] if p == '~' or p.startswith('~/') else ('/home/' + p[1:] if p.startswith('~') else p),
    'os.path.expandvars': lambda p: re.sub(r'\$(\w+|\{[^}]*\})', 'VALUE', p),
    'int': int,
}


def walked(t, paths, s, dirs=False):
    """the ones of `paths` ('/d/f', as the walk of the whole file system reports them) that the walk called as the term t reports"""
    import fnmatch
    out = list(paths)
    for a in t.args[2:]:
        if not isinstance(a, Term) or a.op != 'kw':
            v = s.val(a) if isinstance(a, Term) else a
            if v not in ('', '/', None, './'):
                return UNKNOWN
            continue
        k, v = a.args[0], s.val(a.args[1])
        if k in ('namespaces', 'on_error', 'ignore_errors') or v is None:
            continue
        if v is UNKNOWN:
            return UNKNOWN
        if k == 'path' and v in ('', '/', './') or k == 'search' and v == 'breadth':
            continue
        last = lambda p: p.split('/')[-1]
        above = lambda p: [x for x in p.split('/')[:None if dirs else -1] if x]
        m = lambda n: any(fnmatch.fnmatchcase(n, g) for g in v)
        if k == 'max_depth':
            out = [p for p in out if len([x for x in p.split('/') if x]) <= v]
        elif k == 'filter' and not dirs:
            out = [p for p in out if m(last(p))]
        elif k == 'exclude' and not dirs:
            out = [p for p in out if not m(last(p))]
        elif k == 'filter_dirs':
            out = [p for p in out if all(m(x) for x in above(p))]
        elif k == 'exclude_dirs':
            out = [p for p in out if not any(m(x) for x in above(p))]
        elif k in ('filter', 'exclude'):
            continue
        else:
            return UNKNOWN
    return out
