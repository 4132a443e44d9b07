"""
Gated value-flow analysis.

`Analysis(program, func, cls, inline=...)` interprets one entry function over the
term domain of terms.py: every statement is visited once (loop bodies twice: once
to find what they change), branches are joined with gated values, helpers of the
package are inlined, and every effect is recorded as an Event with its guard,
loops and arguments.  Nothing is executed and no path is enumerated.
"""
import ast
import re as _re
from .terms import *
from .terms import _K
from .program import FuncInfo, ClassInfo, AnalysisBroken

# names of boolean-valued term operators
ATOM_OPS = frozenset("""eq in lt isnone exists isfile isdir startswith endswith isinstance truthy
  existsq hasattr match callable isabs islink bcall exc nonempty""".split())

PURE_METHODS = frozenset("""strip rstrip lstrip split rsplit lower upper replace encode decode format keys items
 values get copy join startswith endswith find rfind isdigit index count title splitlines partition rpartition
 casefold zfill ljust rjust match search fullmatch group groups isspace isalnum isalpha total_seconds hexdigest
 union intersection difference iteritems itervalues iterkeys swapcase expandtabs""".split())

MUTATORS = frozenset("""append extend insert pop remove clear update setdefault add discard sort reverse popitem
  appendleft popleft extendleft""".split())

EXISTS_FN = {'os.path.exists': 'exists', 'os.path.lexists': 'exists', 'os.path.isfile': 'isfile',
             'os.path.isdir': 'isdir', 'os.path.isabs': 'isabs', 'os.path.islink': 'islink'}
PURE_EXT = frozenset("""os.path.basename os.path.dirname os.path.abspath os.path.normpath os.path.realpath
 os.path.split os.path.splitext os.path.relpath os.path.commonprefix os.path.commonpath os.path.expanduser
 os.path.expandvars os.path.normcase os.path.splitdrive time.time re.compile re.split re.sub re.match re.search
 re.escape copy.deepcopy copy.copy os.path.getsize os.path.getmtime os.stat os.lstat hashlib.new int float str repr abs min max
 round hash id type ord chr divmod functools.partial functools.cmp_to_key codecs.lookup urllib.parse.urlparse
 urlparse.urlparse fs.path.join fs.path.isabs hex oct bytes object os.getcwd os.listdir os.path.samefile
 os.fspath operator.itemgetter operator.attrgetter collections.namedtuple namedtuple""".split())

BUILTINS = frozenset(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__.keys())


def trivial_getter(f):
    """a property that only hands out an attribute of the object"""
    b = [x for x in f.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Attribute) and \
        isinstance(b[0].value.value, ast.Name) and f.node.args.args and b[0].value.value.id == f.node.args.args[0].arg


class Loop(object):
    _n = 0

    def __init__(self, base, order, line, func, kind='for'):
        Loop._n += 1
        self.n = Loop._n
        self.base = base
        self.order = tuple(order)     # wrappers outermost first: 'rev', 'sorted', 'copy', 'set'...
        self.line = line
        self.func = func
        self.kind = kind              # for | while | comp | yield
        self.exits = []               # (kind, guard, line): break / return / raise inside the loop
        self.cond = None              # filter condition contributed by a comprehension
        self.carried = {}             # phi -> (value at the end of an iteration, guard)

    def reversed(self):
        return sum(1 for o in self.order if o == 'rev') % 2 == 1

    def __repr__(self):
        return "Loop(%s%s)" % (''.join(o + ' ' for o in self.order), show(self.base))


class Event(object):
    __slots__ = ('seq', 'kind', 'name', 'recv', 'args', 'kw', 'guard', 'loops', 'func', 'line', 'value',
                 'tries', 'stack', 'managed', 'base_guard')

    def __repr__(self):
        r = (show(self.recv) + '.') if self.recv is not None else ''
        return "#%d %s %s%s(%s)%s @%s:%s  if %s  loops=%s" % (
            self.seq, self.kind, r, self.name, ', '.join(show(a) for a in self.args),
            (' ' + ', '.join('%s=%s' % (k, show(v)) for k, v in sorted(self.kw.items()))) if self.kw else '',
            self.func.qualname if self.func else '?', self.line, fshow(self.guard), list(self.loops))

    @property
    def where(self):
        return "%s:%s (%s)" % (self.func.module.relpath, self.line, self.func.qualname)


class State(object):
    __slots__ = ('env', 'heap', 'guard')

    def __init__(self, env, heap, guard):
        self.env = env
        self.heap = heap
        self.guard = guard

    def copy(self, guard=None):
        return State(dict(self.env), dict(self.heap), self.guard if guard is None else guard)

    @property
    def dead(self):
        return self.guard is FALSE


class Frame(object):
    def __init__(self, func, cls, parent_env=None):
        self.func = func
        self.cls = cls
        self.returns = []          # [guard, value, heap]
        self.on_yield = None
        self.parent_env = parent_env
        self.loopstack = []        # [(breaks, continues)]
        self.line = 0


class TryCtx(object):
    def __init__(self, node, types):
        self.node = node
        self.types = types          # list of lists of exception names (per handler); None = bare
        self.raised = []            # [guard, exc name]
        self.handlers_reraise = None
        self.frame = None


def mk_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a = resolve_by(a, c)
    b = resolve_by(b, f_not(c))
    if a is b:
        return a
    if boolish(a) and boolish(b):
        return F(f_ite(c, tobool(a), tobool(b)))
    return T('ite', c, a, b)


def boolish(t):
    return t.op == 'F' or (t.op == 'const' and isinstance(cval(t), bool)) or \
        (t.op in ATOM_OPS and t.op != 'truthy')


def resolve_by(t, guard, depth=0):
    while t.op == 'ite' and guard is not TRUE:
        c = simplify_by(t.args[0], guard)
        if c is TRUE:
            t = t.args[1]
        elif c is FALSE:
            t = t.args[2]
        elif c is not t.args[0]:
            a, b = t.args[1], t.args[2]
            if boolish(a) and boolish(b):
                t = F(f_ite(c, tobool(a), tobool(b)))
            else:
                t = T('ite', c, a, b) if a is not b else a
            break
        else:
            break
    return t


NONNULL = frozenset("concat path list tuple obj copy comp inst F func cls file bound closure self set join".split())


def f_isnone(t):
    if t.op == 'const':
        return TRUE if t is NONE else FALSE
    if t.op in NONNULL or t.op in ATOM_OPS:
        return FALSE
    if t.op in ('call', 'bcall') and t.args and t.args[0] in NONNULL_CALLS:
        return FALSE
    if t.op == 'ite':
        return f_ite(t.args[0], f_isnone(t.args[1]), f_isnone(t.args[2]))
    if t.op == 'add' and any(a.op in NONNULL or a.op == 'const' and a is not NONE for a in t.args):
        return FALSE
    return atom(T('isnone', t))


NONNULL_CALLS = frozenset(""".deleted_paths .member_bags .walk .split .rsplit .strip .rstrip .lstrip .lower .upper
 .replace open_bag as_extended as_headbag open_headbag os.path.abspath os.path.normpath os.path.dirname
 os.path.basename os.path.realpath .nonstandard .iter_member_bags .iter_file_lookup .iter_deleted .missing .required
 .manifest_files .tagmanifest_files .payload_files .payload_entries .tagfile_entries .open_text_file .timesfor
 .applied .failed .passed .format .join .encode .decode""".split())


def strip_copy(t):
    while t.op == 'copy':
        t = t.args[1]
    return t


def is_split(t):
    """the list of fields that splitting a text gives"""
    return t.op == 'call' and t.args and t.args[0] in ('.split', '.rsplit', 're.split')


def split_nonempty(t):
    """splitting at an explicit separator gives at least one field"""
    if t.args[0] == 're.split' or t.args[1].op == 'call' and t.args[1].args[0] == 're.compile':
        return True
    return len(t.args) > 2 and t.args[2] is not NONE


def fields_of(t):
    """(split call, leading fields dropped, trailing fields dropped) or None"""
    t = strip_copy(t) if t.op == 'copy' and t.args[0] in ('list', 'tuple') else t
    if t.op == 'view':
        return t.args[0], cval(t.args[1]), cval(t.args[2])
    if is_split(t):
        return t, 0, 0
    if t.op == 'comp' and t.args[0] == 'list' and len(t.args[2]) == 1 and t.args[3].args[0] is TRUE and \
            fields_of(t.args[2][0].args[0]) is not None and not len(t.args[2][0].args[1].args if len(t.args[2][0].args) > 1 else ()):
        return t, 0, 0
    return None


def mk_view(base, front, back):
    return base if front == 0 and back == 0 else T('view', base, const(front), const(back))


def fields_base(t):
    """the split call below a list of (mapped) fields, and the number of fields dropped"""
    n = 0
    while True:
        f = fields_of(t)
        if f is None:
            return None
        t, a, b = f
        n += a + b
        if t.op == 'comp':
            t = t.args[2][0].args[0]
            continue
        return t, n


def subst(t, old, new, memo=None):
    memo = {} if memo is None else memo
    if t is old:
        return new
    r = memo.get(t)
    if r is None:
        if not isinstance(t, Term) or not contains(t, old) or t.op in ('F', 'existsq', 'closure'):
            r = t
        else:
            args = [subst(a, old, new, memo) if isinstance(a, Term) else a for a in t.args]
            r = T(t.op, *args)
        memo[t] = r
    return r


def tobool(t):
    o = t.op
    if o == 'view' or is_split(t) or o == 'comp':
        fb = fields_base(t)
        if fb is not None:
            return f_not(f_lt(T('len', fb[0]), const(fb[1] + 1)))
    if o == 'const':
        try:
            return TRUE if cval(t) else FALSE
        except Exception:
            return TRUE
    if o == 'F':
        return t.args[0]
    if o in ATOM_OPS:
        return atom(t)
    if o == 'ite':
        return f_ite(t.args[0], tobool(t.args[1]), tobool(t.args[2]))
    if o in ('list', 'tuple', 'set'):
        return TRUE if t.args else FALSE
    if o == 'copy':
        return tobool(t.args[1])
    if o == 'add' and any(a.op in ('list', 'tuple') and a.args and not any(x.op == 'star' for x in a.args) for a in t.args):
        return TRUE
    if o == 'comp':
        return comp_exists(t, TRUE)
    if o == 'concat':
        if any((is_const(a) and cval(a)) or a.op == 'path' for a in t.args):
            return TRUE
    if o == 'path':
        return TRUE
    if o in ('index', 'pick', 'first') and strip_copy(t.args[0]).op == 'comp':
        if tobool(strip_copy(t.args[0]).args[1]) is TRUE:
            return TRUE
    if o in ('inst', 'func', 'cls', 'bound', 'closure', 'self', 'file'):
        return TRUE
    if o == 'len':
        return tobool(t.args[0])
    if o == 'call' and t.args and t.args[0] == 'bool':
        return tobool(t.args[1])
    return atom(T('truthy', t))


def pick_dir(gens, d):
    """which of the elements satisfying a condition a loop ends up with, in terms of the underlying sequence"""
    if len(gens) != 1:
        return '?'
    for o in gens[0][1]:
        if o == 'rev':
            d = {'first': 'last', 'last': 'first'}.get(d, d)
        elif o not in ('list', 'tuple', 'iter', 'copy'):
            return '?'
    return d


def mk_zip(args):
    """zip(S, [f(x) for x in S]) goes through S once"""
    for a in args:
        if a.op == 'ite':
            c = a.args[0]
            alts = [[(x.args[k] if x.op == 'ite' and x.args[0] is c else x) for x in args] for k in (1, 2)]
            return mk_ite(c, mk_zip(alts[0]), mk_zip(alts[1]))
    bs = [strip_copy(a) for a in args]
    if all(b.op in ('list', 'tuple') and not any(x.op == 'star' for x in b.args) for b in bs):
        return T('list', *[T('tuple', *xs) for xs in zip(*[b.args for b in bs])])
    src = None
    for b in bs:
        if b.op == 'comp':
            if b.args[0] != 'list' or len(b.args[2]) != 1 or b.args[2][0].args[1].args or b.args[3].args[0] is not TRUE:
                return T('zip', *args)
            b = b.args[2][0].args[0]
        if src is not None and b is not src:
            return T('zip', *args)
        src = b
    if src is None or not any(b.op == 'comp' for b in bs) or any(a.op == 'copy' and a.args[0] not in ('list', 'tuple') for a in args):
        return T('zip', *args)
    e = T('tuple', *[b.args[1] if b.op == 'comp' else T('elem', src) for b in bs])
    return T('comp', 'gen', e, (T('gen', src, T('order')),), T('F', TRUE))


def comp_exists(t, node):
    """EXISTS element of comprehension t satisfying node (node over the comp's bound variables)"""
    kind, expr, gens, cond = t.args
    n = f_and(cond.args[0], node)
    # what goes wrong for one element need not go wrong for another
    made = set(x for g in gens for x in subterms(g.args[0]) if x.op == 'exc') if len(gens) > 1 else ()
    for g in reversed(gens):
        n = mk_exists(g.args[0], n, extra=lambda a: a in made)
    return n


def _dep(at, keys):
    s = subterms(at)
    return any(k in s for k in keys)


def loop_keys(base, level=0):
    if level:
        return [T('elem', base, level), T('pos', base, level)]
    return [T('elem', base), T('pos', base)]


def counted(t):
    """the counter of enumerate(X[, start]): the position in X, plus the start"""
    p = T('pos', strip_copy(t.args[0]))
    return T('add', p, t.args[1]) if len(t.args) > 1 else p


def pos_offset(t):
    """(p, k) if t is a loop position p plus the whole number k"""
    if t.op == 'pos':
        return t, 0
    if t.op in ('add', 'sub') and t.args[0].op == 'pos' and is_const(t.args[1]) and isinstance(cval(t.args[1]), int):
        return t.args[0], cval(t.args[1]) if t.op == 'add' else -cval(t.args[1])
    return None, 0


def pos_plus(p, k):
    return p if k == 0 else T('add', p, const(k)) if k > 0 else T('sub', p, const(-k))


def fs_walk(t):
    """X.walk.walk() of a filesystem X"""
    return isinstance(t, Term) and t.op == 'call' and t.args[0] == '.walk' and \
        all(x.op == 'attr' and x.args[1] == 'walk' for x in (t.args[1].args[1:] if t.args[1].op == 'ite' else [t.args[1]]))


def mk_exists(base, node, keys=None, extra=None):
    """the formula  EXISTS e in base: node(e)"""
    if node is FALSE:
        return FALSE
    if keys is None:
        keys = loop_keys(base)
    bound = lambda at: _dep(at, keys) or (extra is not None and extra(at))
    sup = support(node)
    ind = [a for a in sup if not bound(a)]
    if ind:
        a = min(ind, key=lambda x: x.uid)
        return f_ite(atom(a), mk_exists(base, restrict(node, {a: True}), keys, extra),
                     mk_exists(base, restrict(node, {a: False}), keys, extra))
    if node is TRUE:
        return tobool(base)
    # split disjunctions of literals
    for a in sorted(sup, key=lambda x: x.uid):
        for pol in (True, False):
            if restrict(node, {a: pol}) is TRUE:
                rest = restrict(node, {a: not pol})
                lit = _exists_lit(base, a, pol, keys)
                if rest is FALSE:
                    return lit
                return f_or(lit, mk_exists(base, rest, keys, extra))
    return atom(T('existsq', base, T('F', node)))


def _exists_lit(base, a, pol, keys):
    e = keys[0]
    if pol and a.op == 'eq':
        x, y = a.args
        if x is e and not contains(y, e):
            return f_in(y, base)
        if y is e and not contains(x, e):
            return f_in(x, base)
    n = atom(a) if pol else f_not(atom(a))
    return atom(T('existsq', base, T('F', n)))


def f_eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if cval(a) == cval(b) else FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite':
            return f_ite(x.args[0], f_eq(x.args[1], y), f_eq(x.args[2], y))
    for x, y in ((a, b), (b, a)):
        if y is NONE:
            return f_isnone(x)
        if is_const(y) and isinstance(cval(y), bool) and boolish(x):
            return tobool(x) if cval(y) else f_not(tobool(x))
        if is_const(y) and cval(y) == '' and x.op not in ('path', 'concat'):
            return f_not(tobool(x))
        if x.op == 'len' and is_const(y) and cval(y) == 0:
            return f_not(tobool(x.args[0]))
        if x.op == 'len' and is_const(y) and isinstance(cval(y), int) and fields_base(x.args[0]) is not None:
            return f_and(f_lt(x, const(cval(y) + 1)), f_not(f_lt(x, y)))
        if y.op in ('list', 'tuple', 'set') and not y.args:
            return f_not(tobool(x))
        if y.op == 'obj' and x.op != 'obj' and y.args[0] in ('list', 'dict', 'set'):
            return f_not(tobool(x))
        # s[:len(p)] == p, s[-len(p):] == p
        if x.op == 'slice' and x.args[3] is NONE and (is_const(y) and isinstance(cval(y), str) or not is_const(y)):
            lo, hi = x.args[1], x.args[2]
            n = const(len(cval(y))) if is_const(y) else T('len', y)
            if lo in (NONE, const(0)) and hi is n:
                return f_startswith(x.args[0], y)
            if hi is NONE and (is_const(y) and is_const(lo) and cval(lo) == -len(cval(y)) or lo.op == 'unary' and lo.args[0] == 'USub' and lo.args[1] is n):
                return f_startswith(x.args[0], y, 'endswith')
        # s.find(x) == -1
        if x.op == 'call' and x.args[0] in ('.find', '.rfind') and is_const(y) and cval(y) == -1:
            return f_not(f_in(x.args[2], x.args[1]))
    if a.op in ('list', 'tuple') and b.op == a.op and len(a.args) == len(b.args):
        return f_and(*[f_eq(x, y) for x, y in zip(a.args, b.args)])
    if boolish(a) and boolish(b):
        n = tobool(b)
        return f_ite(tobool(a), n, f_not(n))
    if a.uid > b.uid:
        a, b = b, a
    return atom(T('eq', a, b))


def f_lt(a, b):
    """a < b"""
    if is_const(a) and is_const(b):
        try:
            return TRUE if cval(a) < cval(b) else FALSE
        except TypeError:
            return FALSE
    if a is b:
        return FALSE
    for i, x in enumerate((a, b)):
        if x.op == 'ite':
            y = (a, b)[1 - i]
            if i == 0:
                return f_ite(x.args[0], f_lt(x.args[1], y), f_lt(x.args[2], y))
            return f_ite(x.args[0], f_lt(y, x.args[1]), f_lt(y, x.args[2]))
    if b.op == 'call' and b.args[0] in ('.find', '.rfind') and is_const(a) and cval(a) == -1:
        return f_in(b.args[2], b.args[1])
    if a.op == 'call' and a.args[0] in ('.find', '.rfind') and is_const(b) and cval(b) == 0:
        return f_not(f_in(a.args[2], a.args[1]))
    if b.op in ('len', 'count') and is_const(a) and isinstance(cval(a), int):
        return f_not(f_lt(b, const(cval(a) + 1)))
    if a.op in ('len', 'count') and is_const(b) and isinstance(cval(b), int):
        if cval(b) <= 0:
            return FALSE
        fb = fields_base(a.args[0]) if a.op == 'len' else None
        if fb is not None and (fb[1] or fb[0] is not a.args[0]):
            return f_lt(T('len', fb[0]), const(cval(b) + fb[1]))
        if fb is not None and cval(b) == 1:
            return FALSE if split_nonempty(fb[0]) else f_not(atom(T('truthy', fb[0])))
        if cval(b) == 1:
            return f_not(tobool(a.args[0]))
        if a.op == 'len' and a.args[0].op in ('list', 'tuple'):
            return TRUE if len(a.args[0].args) < cval(b) else FALSE
    iv = lambda t: t.op == 'inst' and t.args[0] == 'Version'
    if iv(a) or iv(b):
        a = a.args[1] if iv(a) else a
        b = b.args[1] if iv(b) else b
        return atom(T('lt', T('ver', a), T('ver', b)))
    return atom(T('lt', a, b))


def f_in(x, c):
    if x.op == 'ite':
        return f_ite(x.args[0], f_in(x.args[1], c), f_in(x.args[2], c))
    if c.op == 'ite':
        return f_ite(c.args[0], f_in(x, c.args[1]), f_in(x, c.args[2]))
    if c.op == 'copy':
        return f_in(x, c.args[1])
    if c.op in ('list', 'tuple', 'set'):
        return f_or(*[f_eq(x, y) for y in c.args]) if c.args else FALSE
    if c.op == 'dkeys':
        return f_or(*[f_eq(x, y) for y in c.args]) if c.args else FALSE
    if c.op == 'comp':
        return comp_exists(c, f_eq(x, c.args[1]))
    if is_const(c) and isinstance(cval(c), (tuple, frozenset, list)):
        return f_or(*[f_eq(x, const(y)) for y in cval(c)])
    if is_const(c) and is_const(x):
        try:
            return TRUE if cval(x) in cval(c) else FALSE
        except TypeError:
            return FALSE
    if c.op == 'add':
        return f_or(f_in(x, c.args[0]), f_in(x, c.args[1]))
    if c.op == 'call' and c.args[0] in ('.keys', '.iterkeys', 'dict.keys', 'frozenset', 'set', 'list', 'tuple', 'sorted'):
        return f_in(x, c.args[1])
    return atom(T('in', x, c))


def f_startswith(x, p, op='startswith'):
    if p.op in ('tuple', 'list'):
        return f_or(*[f_startswith(x, y, op) for y in p.args]) if p.args else FALSE
    if p.op == 'ite':
        return f_ite(p.args[0], f_startswith(x, p.args[1], op), f_startswith(x, p.args[2], op))
    if x.op == 'ite':
        return f_ite(x.args[0], f_startswith(x.args[1], p, op), f_startswith(x.args[2], p, op))
    if is_const(x) and is_const(p):
        try:
            return TRUE if getattr(cval(x), op)(cval(p)) else FALSE
        except (TypeError, AttributeError):
            return FALSE
    if is_const(p) and cval(p) == '':
        return TRUE
    if p.op == 'call' and p.args[0] == 'tuple':
        p = p.args[1]
    if p.op == 'copy':
        p = p.args[1]
    return atom(T(op, x, p))


# ---------------------------------------------------------------- strings and paths

def is_strish(t):
    if t.op == 'const':
        return isinstance(cval(t), (str, bytes))
    return t.op in ('concat', 'path', 'join') or (t.op == 'call' and t.args[0] in (
        '.strip', '.rstrip', '.lstrip', '.lower', '.upper', '.replace', '.format', 'os.path.basename',
        'os.path.dirname', 'os.path.abspath', 'os.path.normpath', 'str', 'repr'))


EXACT = [False]      # texts joined with slashes stay texts


def mk_concat(parts):
    out = []
    for p in parts:
        if p.op == 'concat':
            ps = list(p.args)
        else:
            ps = [p]
        if ps[0].op == 'path' and len(ps[0].args) > 1 and ps[0].args[-1] is const(''):
            ps[:1] = [mk_path(list(ps[0].args[:-1])), const('/')]
        for q in ps:
            if is_const(q) and not isinstance(cval(q), (str, bytes)):
                q = const(str(cval(q)))
            if is_const(q) and cval(q) in ('', b''):
                continue
            if out and is_const(q) and is_const(out[-1]) and type(cval(q)) is type(cval(out[-1])):
                out[-1] = const(cval(out[-1]) + cval(q))
            else:
                out.append(q)
    if not out:
        return const('')
    # path-like concatenations:  X + '/' + Y,  X + '/name'
    if not EXACT[0] and len(out) > 1 and any(is_const(q) and isinstance(cval(q), str) and '/' in cval(q) and
                            not any(ch in cval(q) for ch in ' \t\n:<>') for q in out) and \
            not any(is_const(q) and isinstance(cval(q), str) and any(ch in cval(q) for ch in ' \t\n') for q in out):
        comps = [[]]
        for q in out:
            if is_const(q) and isinstance(cval(q), str):
                pieces = cval(q).split('/')
                for i, pc in enumerate(pieces):
                    if i:
                        comps.append([])
                    if pc:
                        comps[-1].append(const(pc))
            else:
                comps[-1].append(q)
        flat = []
        for i, c in enumerate(comps):
            if not c:
                flat.append(const('/' if i == 0 else ''))
            elif len(c) == 1:
                flat.append(c[0])
            else:
                flat.append(T('concat', *c))
        return mk_path(flat)
    if len(out) == 1:
        return out[0]
    return T('concat', *out)


def join_pieces(sep, x):
    """sep.join(A + B) for an A that has elements, whatever the pieces depend on; None if that is not known"""
    if x.op == 'ite':
        a, b = join_pieces(sep, x.args[1]), join_pieces(sep, x.args[2])
        return None if a is None or b is None else mk_ite(x.args[0], a, b)
    if x.op in ('list', 'tuple'):
        out = []
        for p in x.args:
            out += [sep, p]
        return mk_concat(out[1:]) if out else const('')
    if x.op != 'add':
        return None
    a, b = x.args
    for i, y in enumerate((a, b)):
        if y.op == 'ite':
            alt = [join_pieces(sep, T('add', z, b) if i == 0 else T('add', a, z)) for z in y.args[1:3]]
            return None if None in alt else mk_ite(y.args[0], *alt)
    filled = lambda z: bool(z.args) if z.op == 'list' else all(filled(y) for y in z.args[1:3]) if z.op == 'ite' else z.op == 'add' and filled(z.args[0])
    if not filled(a):
        return None
    a = join_pieces(sep, a)
    if a is None or b.op == 'add':
        return None
    if b.op in ('list', 'tuple'):
        return mk_concat([a, sep, join_pieces(sep, b)]) if b.args else a
    b = strip_copy(b)
    return mk_ite(tobool(b), mk_concat([a, sep, T('join', sep, b)]), a)


def mk_path(parts):
    out = []
    for i, p in enumerate(parts):
        if p.op == 'path':
            ps = list(p.args)
        elif is_const(p) and isinstance(cval(p), str):
            s = cval(p)
            if s.startswith('/') and i > 0:
                s2 = s.lstrip('/')
                ps = [T('abs', const(s2))]
            elif s == '':
                ps = [p]
            else:
                ps = [const(x) for x in s.split('/')] if s.strip('/') else [p]
        elif p.op == 'concat' and is_const(p.args[-1]) and cval(p.args[-1]) == '/':
            ps = [mk_concat(p.args[:-1]), const('')]
        else:
            ps = [p]
        for q in ps:
            # drop empty interior components
            if out and is_const(out[-1]) and cval(out[-1]) == '' and len(out) > 1:
                out.pop()
            out.append(q)
    if len(out) > 1 and is_const(out[0]) and cval(out[0]) == '':
        # leading '' : os.path.join('', x) == x
        out = out[1:] if len(out) > 2 or True else out
    if len(out) == 1:
        return out[0]
    return T('path', *out)


def path_parts(t):
    """the components of a path term, constants split on '/'"""
    if t.op == 'path':
        out = []
        for a in t.args:
            out.extend(path_parts(a))
        return out
    if is_const(t) and isinstance(cval(t), str) and '/' in cval(t):
        return [const(x) for x in cval(t).split('/')]
    return [t]


def path_root(t):
    """the leading component of a path, looking through abspath/normpath/..."""
    while True:
        if t.op == 'path':
            t = t.args[0]
        elif t.op == 'call' and t.args[0] in ('os.path.abspath', 'os.path.normpath', 'os.path.realpath',
                                              '.rstrip', 'os.path.expanduser', 'os.path.normcase', 'str'):
            t = t.args[1]
        elif t.op == 'concat':
            t = t.args[0]
        else:
            return t


def under(t, root):
    """True if path term t is root or syntactically below it"""
    r = t
    while True:
        if r is root:
            return True
        if r.op == 'path':
            r = r.args[0]
        elif r.op == 'call' and r.args[0] in ('os.path.abspath', 'os.path.normpath', 'os.path.realpath', '.rstrip',
                                              'os.path.normcase'):
            r = r.args[1]
        elif r.op == 'call' and r.args[0] == 'os.path.dirname' and r.args[1].op == 'path':
            inner = r.args[1]
            if len(inner.args) < 2:
                return False
            r = T('path', *inner.args[:-1]) if len(inner.args) > 2 else inner.args[0]
        elif r.op == 'ite':
            return under(r.args[1], root) and under(r.args[2], root)
        else:
            return False


RE_FLAGS_AT = {'re.compile': 1, 're.match': 2, 're.search': 2, 're.fullmatch': 2, 're.split': 3, 're.sub': 4, 're.findall': 2, 're.finditer': 2}
RE_FLAG = dict(I='i', IGNORECASE='i', M='m', MULTILINE='m', S='s', DOTALL='s', X='x', VERBOSE='x', A='a', ASCII='a', U='', UNICODE='', NOFLAG='')


def fold_flags(name, args, kw):
    """the arguments with the flags of a constant pattern written into the pattern, where the flags are known"""
    at = RE_FLAGS_AT[name]
    fl = kw.get('flags', args[at] if len(args) > at else None)
    if fl is None or not args or not is_const(args[0]) or not isinstance(cval(args[0]), str):
        return args, kw
    letters, todo = set(), [fl]
    while todo:
        t = todo.pop()
        if t.op == 'binop' and t.args[0] in ('BitOr', '|', 'Add', '+'):
            todo += t.args[1:]
        elif t.op == 'ext' and t.args[0].split('.')[-1] in RE_FLAG:
            letters.add(RE_FLAG[t.args[0].split('.')[-1]])
        elif is_const(t) and cval(t) == 0:
            pass
        else:
            return args, kw
    x = ''.join(sorted(letters))
    args = [const(('(?%s)' % x if x else '') + cval(args[0]))] + [a for i, a in enumerate(args) if i not in (0, at)]
    return args, dict((k, v) for k, v in kw.items() if k != 'flags')


_FMT = _re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([sdrifxXu%])')


def percent_format(fmt, arg):
    s = cval(fmt)
    args = list(arg.args) if arg.op == 'tuple' else [arg]
    parts, pos, k = [], 0, 0
    for m in _FMT.finditer(s):
        parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group(5) == '%':
            parts.append(const('%'))
        elif m.group(1):
            if arg.op == 'obj':
                return None
            parts.append(T('index', arg, const(m.group(1))))
        else:
            if k >= len(args):
                if len(args) == 1 and arg.op != 'tuple':
                    parts.append(T('index', arg, const(k)))
                    k += 1
                    continue
                return None
            if len(args) == 1 and arg.op != 'tuple' and len(list(_FMT.finditer(s))) > 1:
                parts.append(T('index', arg, const(k)))
            else:
                parts.append(args[k])
            k += 1
    parts.append(const(s[pos:]))
    return mk_concat(parts)


_BRACE = _re.compile(r'\{\{|\}\}|\{(\w*)(![rsa])?(:[^{}]*)?\}')


def brace_format(fmt, args, kw):
    s = cval(fmt)
    parts, pos, auto = [], 0, 0
    for m in _BRACE.finditer(s):
        parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            parts.append(const(m.group(0)[0]))
            continue
        nm = m.group(1)
        if nm == '':
            i = auto
            auto += 1
        elif nm.isdigit():
            i = int(nm)
        else:
            if nm not in kw:
                return None
            v = kw[nm]
            i = None
        if i is not None:
            if i >= len(args):
                return None
            v = args[i]
        if m.group(3) and m.group(3) != ':':
            v = T('fmt', v, m.group(3))
        parts.append(v)
    parts.append(const(s[pos:]))
    return mk_concat(parts)


# ---------------------------------------------------------------- the analysis

class Analysis(object):
    MAXDEPTH = 14

    def __init__(self, prog, func, cls=None, inline=(), opaque=(), args=None, api=None, assume=None, exact=False):
        self.exact = exact      # '/'.join(...) as text, not as a path
        self.prog = prog
        self.entry = func
        self.inline = set(inline)
        self.opaque = set(opaque)
        self.api = api or set()
        self.events = []
        self.loops = []
        self.loopctx = []
        self.tries = []
        self.stack = []
        self.seq = 0
        self.objn = 0
        self.replaced = []          # (list, what it is from here on, guard, loop depth): lists changed in place
        self.made = {}              # object -> (frame, loops, event number) at its creation
        self.returns = []
        self.dry = 0
        self.visited = set()
        self.nstmts = 0
        self.obj_init = {}
        self.closures = {}
        self.excn = {}
        self.modcache = {}
        was, EXACT[0] = EXACT[0], exact
        try:
            self.run(func, cls, args or {}, assume)
        finally:
            EXACT[0] = was

    # ------------------------------------------------------------ entry
    def run(self, func, cls, args, assume):
        if cls is None and func.cls is not None:
            cls = func.cls
        env = {}
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        for i, n in enumerate(names):
            if i == 0 and func.cls is not None and func.kind not in ('static',):
                env[n] = T('self', cls.name) if func.kind != 'class' else T('cls', cls.name)
            else:
                env[n] = T('param', n)
        for k, v in args.items():
            env[k] = v
        st = State(env, {}, assume if assume is not None else TRUE)
        fr = Frame(func, cls)
        self.stack.append(fr)
        self.visited.add(func)
        st = self.block(func.node.body, st, fr)
        if not st.dead:
            fr.returns.append([st.guard, NONE, st.heap, None])
        self.stack.pop()
        self.returns = fr.returns
        self.final_heap = self._merge_heaps(fr.returns)

    def _merge_heaps(self, rets):
        sts = [State({}, r[2], r[0]) for r in rets]
        if not sts:
            return {}
        return self.join(sts).heap

    def retval(self):
        """the gated return value of the entry"""
        return self.join_values([(r[0], r[1]) for r in self.returns])

    # ------------------------------------------------------------ events
    def emit(self, kind, name, recv, args, kw, st, node, value=None):
        self.seq += 1
        e = Event()
        e.seq = self.seq
        e.kind, e.name, e.recv, e.args, e.kw = kind, name, recv, list(args), dict(kw or {})
        e.guard = st.guard
        e.loops = tuple(self.loopctx)
        e.func = self.stack[-1].func
        e.line = getattr(node, 'lineno', self.stack[-1].line)
        e.value = value
        e.tries = tuple(self.tries)
        e.stack = tuple(f.func for f in self.stack)
        e.managed = False
        self.events.append(e)
        return e

    def newobj(self, kind):
        self.objn += 1
        o = T('obj', kind, self.objn)
        self.made[o] = (self.stack[-1] if self.stack else None, tuple(self.loopctx), self.seq)
        return o

    # ------------------------------------------------------------ joins
    def join_values(self, gv):
        gv = [(g, v) for g, v in gv if g is not FALSE]
        if not gv:
            return T('never')
        tot = f_or(*[g for g, v in gv])
        out = gv[-1][1]
        rest = gv[-1][0]
        for g, v in reversed(gv[:-1]):
            both = f_or(g, rest)
            c = simplify_by(g, both)
            out = mk_ite(c, v, out)
            rest = both
        return out

    def join(self, states):
        states = [s for s in states if not s.dead]
        if not states:
            return State({}, {}, FALSE)
        if len(states) == 1:
            return states[0]
        out = states[-1]
        for s in reversed(states[:-1]):
            out = self._join2(s, out)
        return out

    def _join2(self, a, b):
        tot = f_or(a.guard, b.guard)
        c = simplify_by(a.guard, tot)
        env = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            va, vb = a.env.get(k), b.env.get(k)
            if va is vb:
                env[k] = va
            else:
                env[k] = mk_ite(c, va if va is not None else T('undef', k), vb if vb is not None else T('undef', k))
        heap = {}
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            va, vb = a.heap.get(k), b.heap.get(k)
            if va is vb:
                heap[k] = va
            else:
                heap[k] = mk_ite(c, va if va is not None else self.heap_default(k),
                                 vb if vb is not None else self.heap_default(k))
        return State(env, heap, tot)

    def heap_default(self, k):
        if k[0] == 'attr':
            return T('attr', k[1], k[2])
        if k[0] == 'idx':
            return T('index', k[1], k[2])
        if k[0] == 'fs':
            return T('exists', k[1])
        if k[0] == 'passed':
            return T('passed', k[1])
        return T('undef', str(k))

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st.dead:
                break
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, s, st, fr):
        fr.line = getattr(s, 'lineno', fr.line)
        self.nstmts += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        v, st = self.ev(s.value, st, fr)
        return st

    def s_Pass(self, s, st, fr):
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = T('ext', a.name if a.asname else a.name.split('.')[0])
        return st

    def s_ImportFrom(self, s, st, fr):
        src = self.prog._absmod(fr.func.module, s)
        for a in s.names:
            nm = a.asname or a.name
            if src in self.prog.modules:
                r = self.prog.resolve(self.prog.modules[src], a.name)
                v = self.from_resolved(r, st, fr) if r else T('ext', src + '.' + a.name)
            else:
                v = T('ext', "%s.%s" % (src, a.name))
            st.env[nm] = v
        return st

    def s_Global(self, s, st, fr):
        return st
    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, st, fr):
        fi = FuncInfo(s, fr.func.module, None, 'func', fr.func)
        key = (id(s), len(self.closures))
        t = T('closure', key)
        self.closures[t] = (fi, fr, st.env)
        st.env[s.name] = t
        return st

    def s_ClassDef(self, s, st, fr):
        st.env[s.name] = T('ext', 'local.' + s.name)
        return st

    def s_Assign(self, s, st, fr):
        v, st = self.ev(s.value, st, fr)
        for t in s.targets:
            st = self.assign(t, v, st, fr, s)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v, st = self.ev(s.value, st, fr)
            st = self.assign(s.target, v, st, fr, s)
        return st

    def s_AugAssign(self, s, st, fr):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        cur, st = self.ev(load, st, fr)
        v, st = self.ev(s.value, st, fr)
        op = type(s.op).__name__
        if op in ('Add', 'BitOr') and strip_ite_obj(cur):
            self.emit('mutate', 'extend', cur, [v], {}, st, s)
            return st
        r = self.binop(op, cur, v)
        if isinstance(t, ast.Name) and op in ('Add', 'BitOr', 'Mult') and not is_const(v) and v.op not in ('concat', 'cat', 'path', 'len'):
            self.emit('aug', op, cur, [v], {}, st, s)      # in place, if it is a collection that something else refers to
        return self.assign(t, r, st, fr, s, aug=(op, v))

    def assign(self, t, v, st, fr, node, aug=None):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return st
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    if v.op in ('list', 'tuple'):
                        k = len(t.elts) - i - 1
                        vv = T('list', *v.args[i:len(v.args) - k])
                    else:
                        vv = self.slice(v, const(i), const(i + 1 - len(t.elts)) if i + 1 < len(t.elts) else NONE, NONE)
                    st = self.assign(e.value, vv, st, fr, node)
                elif star and i > star[0]:
                    st = self.assign(e, self.index(v, const(i - len(t.elts)), st), st, fr, node)
                else:
                    st = self.assign(e, self.index(v, const(i), st), st, fr, node)
            return st
        if isinstance(t, ast.Attribute):
            o, st = self.ev(t.value, st, fr)
            cls = self.typeof(o)
            if cls is not None:
                setter = cls.find(t.attr, 'setters')
                if setter is not None:
                    self.emit('setattr', t.attr, o, [v], {}, st, node)
                    _, st = self.call_func(setter, cls, [o, v], {}, st, fr, node, force=True)
                    return st
            self.emit('setattr', t.attr, o, [v], {}, st, node)
            st.heap[('attr', o, t.attr)] = v
            return st
        if isinstance(t, ast.Subscript):
            o, st = self.ev(t.value, st, fr)
            if isinstance(t.slice, ast.Slice):
                whole = all(x is None for x in (t.slice.lower, t.slice.upper, t.slice.step))
                self.emit('mutate', 'setslice' if whole else 'setpart', o, [v], {}, st, node)
                return st
            k, st = self.ev(t.slice, st, fr)
            self.store_item(o, k, v, st, node, aug)
            return st
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr, node)
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, st = self.ev(t.value, st, fr)
                k, st = self.ev(t.slice, st, fr)
                self.emit('mutate', 'del', o, [k], {}, st, s)
                st.heap.pop(('idx', o, k), None)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o, st = self.ev(t.value, st, fr)
                self.emit('mutate', 'delattr', o, [const(t.attr)], {}, st, s)
        return st

    def s_Assert(self, s, st, fr):
        c, st = self.cond(s.test, st, fr)
        bad = f_and(st.guard, f_not(c))
        if bad is not FALSE:
            st2 = st.copy(bad)
            self.emit('raise', 'AssertionError', None, [], {}, st2, s)
            self.note_raise(bad, 'AssertionError', st2.heap)
        st.guard = f_and(st.guard, c)
        return st

    def s_Raise(self, s, st, fr):
        name = None
        args = []
        if s.exc is not None:
            v, st = self.ev(s.exc, st, fr)
            name = excname(v)
            args = [v]
        e = self.emit('raise', name or 'reraise', None, args, {}, st, s)
        self.note_raise(st.guard, name or 'reraise', st.heap, st.env)
        st.guard = FALSE
        return st

    def note_raise(self, guard, name, heap, env=None):
        depth = 0
        for t in reversed(self.tries):
            if any(self.exc_matches(name, tys) for tys in t.types):
                depth = t.nloops        # the loops around the statement that catches it go on
                break
        for l in reversed(self.loopctx[depth:]):
            l.exits.append(('raise', guard, self.stack[-1].line))
        if self.tries:
            self.tries[-1].raised.append([guard, name, heap, env])

    def s_Return(self, s, st, fr):
        v = NONE
        if s.value is not None:
            v, st = self.ev(s.value, st, fr)
        if not st.dead:
            fr.returns.append([st.guard, v, st.heap, getattr(s, 'lineno', 0)])
            for l in self.loopctx[fr.loopbase:] if hasattr(fr, 'loopbase') else self.loopctx:
                l.exits.append(('return', st.guard, s.lineno))
        st.guard = FALSE
        return st

    def s_Break(self, s, st, fr):
        if fr.loopstack:
            fr.loopstack[-1][0].append(st.copy())
        st.guard = FALSE
        return st

    def s_Continue(self, s, st, fr):
        if fr.loopstack:
            fr.loopstack[-1][1].append(st.copy())
        st.guard = FALSE
        return st

    def s_If(self, s, st, fr):
        c, st = self.cond(s.test, st, fr)
        if st.dead:
            return st
        g = st.guard
        ga, gb = f_and(g, c), f_and(g, f_not(c))
        a = st.copy(ga)
        b = st.copy(gb)
        if ga is not FALSE:
            a = self.block(s.body, a, fr)
        if gb is not FALSE:
            b = self.block(s.orelse, b, fr)
        return self.join([a, b])

    def s_With(self, s, st, fr):
        for it in s.items:
            n0 = len(self.events)
            v, st = self.ev(it.context_expr, st, fr)
            for e in self.events[n0:]:
                if e.value is v:
                    e.managed = True
            self.emit('with', 'enter', v, [], {}, st, s)
            if it.optional_vars is not None:
                st = self.assign(it.optional_vars, v, st, fr, s)
        return self.block(s.body, st, fr)
    s_AsyncWith = s_With

    def s_Try(self, s, st, fr):
        types = []
        for h in s.handlers:
            if h.type is None:
                types.append(None)
            elif isinstance(h.type, ast.Tuple):
                types.append([ast.unparse(x).split('.')[-1] for x in h.type.elts])
            else:
                types.append([ast.unparse(h.type).split('.')[-1]])
        ctx = TryCtx(s, types)
        ctx.frame = fr
        ctx.func = fr.func
        ctx.base = st.guard
        ctx.handler_events = []
        ctx.nloops = len(self.loopctx)
        entry = st.copy()
        nret0 = len(fr.returns)
        n0 = len(self.events)
        if s.handlers:
            self.tries.append(ctx)
        body = self.block(s.body, st, fr)
        nret1 = len(fr.returns)
        if s.handlers:
            self.tries.pop()
        outs = []
        if s.handlers:
            hstates = []
            anyexc = FALSE
            taken = FALSE
            key0 = ('exc', fr.func.qualname, ','.join('|'.join(t) if t else '*' for t in types))
            for h, tys in zip(s.handlers, types):
                # matching explicit raises inside the body
                g = FALSE
                heaps = []
                for r in ctx.raised:
                    if self.exc_matches(r[1], tys):
                        g = f_or(g, r[0])
                        heaps.append(r)
                ea = T('exc', fr.func.qualname, '|'.join(tys) if tys else '*', self._body_tag(self.events[n0:]))
                may = self._may_raise(s.body, n0, tys)
                hg = f_or(f_and(entry.guard, atom(ea)) if may else FALSE, g)
                anyexc = f_or(anyexc, atom(ea)) if may else anyexc
                hs = entry.copy(hg)
                if not body.dead and hg is not FALSE:
                    for k, v in body.env.items():
                        v0 = entry.env.get(k)
                        if v0 is not None and v is not v0 and isinstance(v, Term) and late_raise(s.body, k):
                            hs.env[k] = T('ite', atom(T('excafter', fr.func.qualname, k, ea)), v, v0)
                for ev in self.events[n0:]:
                    # a copy that failed may have left part of the file behind
                    if ev.kind == 'call' and ev.name in ('shutil.copy', 'shutil.copy2', 'shutil.copyfile') and len(ev.args) > 1 and hg is not FALSE:
                        hs.heap[('fs', ev.args[1])] = T('exists', T('partial', ev.args[1]))
                if h.name:
                    hs.env[h.name] = T('excval', '|'.join(tys) if tys else '*', ea)
                ne = len(self.events)
                if hg is not FALSE:
                    hs = self.block(h.body, hs, fr)
                ctx.handler_events.append((tys, hg, self.events[ne:], hs.guard, h))
                hstates.append(hs)
            for r in ctx.raised:
                if not any(self.exc_matches(r[1], tys) for tys in types):
                    if self.tries:
                        self.tries[-1].raised.append(r)
            if anyexc is not FALSE:
                body.guard = f_and(body.guard, f_not(anyexc))
                for r in fr.returns[nret0:nret1]:
                    r[0] = f_and(r[0], f_not(anyexc))
            if s.orelse and not body.dead:
                body = self.block(s.orelse, body, fr)
            outs = [body] + hstates
        else:
            if s.orelse and not body.dead:
                body = self.block(s.orelse, body, fr)
            outs = [body]
        out = self.join(outs)
        if s.finalbody:
            if out.dead:
                # still run the cleanup for the exits already recorded
                tmp = entry.copy()
                self.block(s.finalbody, tmp, fr)
            else:
                out = self.block(s.finalbody, out, fr)
        return out

    def _body_tag(self, evs):
        names = []
        for e in evs:
            if e.kind == 'call' and e.name not in names:
                names.append(e.name)
        return ','.join(sorted(names))[:80]

    def _may_raise(self, body, n0, tys):
        return True

    def exc_matches(self, name, tys):
        if tys is None:
            return True
        if name in tys or 'Exception' in tys or 'BaseException' in tys:
            return True
        eq = {'IOError': 'OSError', 'EnvironmentError': 'OSError', 'FileNotFoundError': 'OSError',
              'PermissionError': 'OSError', 'KeyError': 'LookupError', 'IndexError': 'LookupError',
              'BagValidationError': 'BagError', 'UnicodeDecodeError': 'ValueError'}
        n = name
        while n in eq:
            n = eq[n]
            if n in tys:
                return True
        if 'IOError' in tys and (name == 'OSError' or eq.get(name) == 'OSError'):
            return True
        c = self.prog.classes.get(name)
        if c is not None:
            return any(c.is_subclass_of(t) for t in tys)
        return False

    # ------------------------------------------------------------ loops
    def s_For(self, s, st, fr):
        # generator calls are inlined: the loop body runs at each yield
        g = self.gen_call(s.iter, st, fr)
        if g is not None:
            return self.for_generator(g, s, fr)
        it, st = self.ev(s.iter, st, fr)
        entry, since = st.copy(), self.seq
        out = self.for_over(it, lambda stt, el: self.assign(s.target, el, stt, fr, s), s, st, fr)
        if not s.orelse:
            out = self.built_lists(s, entry, out, fr, since)
        return out
    s_AsyncFor = s_For

    def built_lists(self, s, entry, out, fr, since):
        """a list made empty before a loop that does nothing with it but append to it is the list comprehension of that loop"""
        if out.dead:
            return out
        todo = [n.value for n in ast.walk(s) if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)]
        if any(not (isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute))) for n in todo) or \
                any(isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(s)):
            return out      # it does other things as well
        todo = [n for n in todo if not (isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and isinstance(n.func.value, ast.Name))]
        names = set(n.func.id if isinstance(n.func, ast.Name) else n.func.attr for n in todo)
        ctx = tuple(self.loopctx)
        for k, o in list(entry.env.items()):
            made = self.made.get(o) if isinstance(o, Term) and o.op == 'obj' and o.args[0] == 'list' else None
            if made is None or made[0] is not fr or made[1] != ctx or out.env.get(k) is not o or self.changed_later(k, s, fr):
                continue
            if any(o in subterms(v) for d in (out.env, out.heap) for n, v in d.items() if isinstance(v, Term) and not (d is out.env and n == k)) or \
                    any(o in subterms(z) for h in out.heap for z in h[1:] if isinstance(z, Term)):
                continue
            apps, other = [], False
            for e in reversed(self.events):
                if e.seq <= made[2]:
                    break
                if e.recv is o and e.kind == 'mutate' and e.name == 'append' and len(e.args) == 1 and o not in subterms(e.args[0]):
                    apps.insert(0, e)
                elif any(o in subterms(t) for t in list(e.args) + list(e.kw.values()) + ([e.recv] if e.recv is not None else [])) or \
                        any(o in subterms(a) for a in support(e.guard)):
                    other = True
                    break
            if other or not apps or any(e.seq <= since for e in apps):
                continue
            if todo and any(e.seq > since and not any(e is a for a in apps) and (e.func is not fr.func or e.name in names) and
                            not (e.kind == 'store' and self.made.get(e.recv, (0, 0, 0))[2] >= since) for e in self.events):
                continue            # a helper that does more than to append
            v = self.as_comp(apps, ctx, entry.guard)
            if v is None:
                continue
            out.env[k] = v
            gone = set(id(e) for e in apps)
            self.events[:] = [e for e in self.events if id(e) not in gone]
        return out

    def as_comp(self, apps, ctx, g0):
        if all(e.loops == ctx for e in apps):
            pieces = [(simplify_by(e.guard, g0), e.args[0]) for e in apps]
            if all(c is TRUE for c, e in pieces):
                return T('list', *[e for c, e in pieces])
            return T('condlist', *[T('condel', F(c), e) for c, e in pieces])
        e = apps[0]
        val, cond = e.args[0], simplify_by(e.guard, g0)
        for e2 in apps[1:]:
            c2 = simplify_by(e2.guard, g0)
            if e2.loops != e.loops or f_and(cond, c2) is not FALSE:
                return None
            val, cond = mk_ite(cond, val, e2.args[0]), f_or(cond, c2)
        loops = e.loops[len(ctx):]
        if e.loops[:len(ctx)] != ctx or any(l.kind not in ('for', 'yield') or [x for x in l.exits if x[0] != 'raise' and x[1] is not FALSE] for l in loops):
            return None
        for x in loops[-1].exits:
            if x[0] == 'raise':
                cond = simplify_by(cond, f_not(simplify_by(x[1], g0)))      # the list is not used if one of them is refused
        tags = [l.base for l in loops]
        for t in [val] + list(support(cond)):
            if any(x.op in ('phi', 'loopvar') and x.args and x.args[0] in tags for x in subterms(t)):
                return None
        before = set(support(g0))
        if any(a.op in ('exc', 'excafter') and a not in before for a in support(cond)):
            return None
        return self.mk_comp('list', val, [(l.base, list(l.order)) for l in loops], cond)

    def changed_later(self, k, s, fr):
        """is the variable changed in place anywhere but in this statement (and its own creation)?"""
        inside = set(id(n) for n in ast.walk(s))
        for n in ast.walk(fr.func.node):
            if id(n) in inside:
                continue
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == k and n.func.attr in MUTATORS:
                return True
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == k:
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == k:
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fr.func.node and any(isinstance(m, ast.Name) and m.id == k for m in ast.walk(n)):
                return True
        return False

    def mk_comp(self, kind, e, gens, cond):
        if not (len(gens) == 1 and cond is TRUE and e is T('elem', gens[0][0])):
            # the elements are read while the value is made: a copy of the sequence is as good
            gens = [(b, [x for x in o if x not in ('list', 'tuple', 'copy', 'iter')]) for b, o in gens]
        gt = tuple(T('gen', b, T('order', *o)) for b, o in gens)
        if len(gens) == 1 and cond is TRUE and e is T('elem', gens[0][0]) and kind != 'dict' and \
                not any(o.startswith('slice') for o in gens[0][1]):
            out = gens[0][0]
            for o in reversed(gens[0][1]):
                out = T('copy', o, out)
            return T('copy', 'set' if kind == 'set' else 'list', out)
        if kind == 'dict' and len(gens) == 1 and cond is TRUE and not gens[0][1]:
            x = T('elem', gens[0][0])
            if e is T('tuple', T('index', x, const(0)), T('index', x, const(1))):
                return T('copy', 'dict', gens[0][0])
        return T('comp', kind, e, gt, T('F', cond))

    def norm_iter(self, it):
        """-> (kind, gens, elem, cond): gens = [(base, order)]"""
        order = []
        while True:
            if it.op == 'copy':
                order.append(it.args[0])
                it = it.args[1]
                continue
            if it.op == 'call' and it.args[0] in ('.keys', '.iterkeys', 'iter', 'list', 'tuple'):
                it = it.args[1]
                continue
            if it.op == 'slice' and len(it.args) == 4:
                order.append('slice[%s]' % ':'.join('' if x is NONE else show(x) for x in it.args[1:3]))
                if is_const(it.args[3]) and isinstance(cval(it.args[3]), int) and cval(it.args[3]) < 0:
                    order.append('rev')
                it = it.args[0]
                continue
            break
        return it, order

    def for_over(self, it, bind, s, st, fr, body=None):
        it = resolve_by(it, st.guard)
        if it.op == 'ite':
            # iterate whichever alternative applies
            c = it.args[0]
            a = st.copy(f_and(st.guard, c))
            b = st.copy(f_and(st.guard, f_not(c)))
            out = []
            for x, alt in ((a, it.args[1]), (b, it.args[2])):
                if not x.dead:
                    entry, since = x.copy(), self.seq
                    x = self.for_over(alt, bind, s, x, fr, body)
                    if body is None and isinstance(s, ast.For) and not s.orelse:
                        x = self.built_lists(s, entry, x, fr, since)
                out.append(x)
            return self.join(out)
        base, order = self.norm_iter(it)
        if base.op == 'ite' and not any(o.startswith('slice') for o in order):
            a, b = base.args[1:3]
            for o in reversed(order):
                a, b = T('copy', o, a), T('copy', o, b)
            return self.for_over(T('ite', base.args[0], a, b), bind, s, st, fr, body)
        if base.op == 'enumerate':
            def bind2(stt, el, base=base):
                return bind(stt, T('tuple', counted(base), el))
            return self.for_over(base.args[0], bind2, s, st, fr, body)
        if base.op == 'items':
            def bind3(stt, el, base=base):
                return bind(stt, T('tuple', el, self.index(base.args[0], el, stt)))
            return self.for_over(base.args[0], bind3, s, st, fr, body)
        if base.op == 'values':
            def bind4(stt, el, base=base):
                return bind(stt, self.index(base.args[0], el, stt))
            return self.for_over(base.args[0], bind4, s, st, fr, body)
        if base.op == 'rangelen':
            b0 = strip_copy(base.args[0])
            def bind5(stt, el, b0=b0):
                p = T('pos', *el.args) if el.op == 'elem' else T('pos', b0)
                return bind(stt, p)
            inner = base.args[0]
            for o in order:
                if o == 'rev':
                    inner = T('copy', 'rev', inner)
            return self.for_over(inner, bind5, s, st, fr, body)
        if base.op in ('list', 'tuple') and len(base.args) <= 12:
            seq = list(base.args)
            for o in reversed(order):
                if o == 'rev':
                    seq.reverse()
            return self.unroll(seq, bind, s, st, fr, body)
        if base.op == 'condlist':
            seq = list(base.args)
            for o in reversed(order):
                if o == 'rev':
                    seq.reverse()
            return self.unroll(seq, bind, s, st, fr, body, cond=True)
        if base.op == 'comp':
            kind, expr, gens, cond = base.args
            if kind == 'dict' and expr.op == 'tuple':
                expr = expr.args[0]
            made = [] if kind == 'gen' else ['set'] if kind == 'set' else ['copy']
            gl = [(g.args[0], list(order) + made + [o for o in g.args[1].args]) for g in gens]
            return self.loop(gl, lambda stt, els: bind(stt, expr), cond.args[0], s, st, fr, body)
        if base.op == 'iter2':
            return self.loop([(base, order)], lambda stt, els: bind(stt, base.args[0]), TRUE, s, st, fr, body)
        if base.op == 'obj' and base in self.obj_init and base.args[0] != 'dict':
            pass
        return self.loop([(base, order)], lambda stt, els: bind(stt, els[0]), TRUE, s, st, fr, body)

    def unroll(self, seq, bind, s, st, fr, body=None, cond=False):
        breaks = []
        for v in seq:
            if st.dead:
                break
            skip = []
            if cond:
                c = tobool(v.args[0])
                v = v.args[1]
                sk = st.copy(f_and(st.guard, f_not(c)))
                if not sk.dead:
                    skip = [sk]
                st = st.copy(f_and(st.guard, c))
                if st.dead:
                    st = self.join(skip)
                    continue
            fr.loopstack.append(([], []))
            st = bind(st, v)
            st = body(st) if body else self.block(s.body, st, fr)
            br, co = fr.loopstack.pop()
            breaks += br
            st = self.join([st] + co + skip)
        if s is not None and getattr(s, 'orelse', None) and not st.dead:
            st = self.block(s.orelse, st, fr)
        return self.join([st] + breaks)

    def loop(self, gens, bind, cond, s, st, fr, body=None, kind='for', test=None):
        """one loop nest; gens = [(base, order)]"""
        loops = []
        els = []
        keys = []
        line = getattr(s, 'lineno', fr.line)
        for base, order in gens:
            level = sum(1 for l in self.loopctx + loops if l.base is base)
            l = Loop(base, order, line, fr.func, kind)
            loops.append(l)
            el = T('elem', base, level) if level else T('elem', base)
            els.append(el)
            keys += loop_keys(base, level)
        if kind == 'while':
            els = []
        tag = gens[0][0]
        entry = st

        def pass_(st0, record):
            fr.loopstack.append(([], []))
            self.loopctx.extend(loops)
            st1 = st0
            if test is not None:
                c, st1 = self.cond(test, st1, fr)
                loops[0].cond = c
                st1.guard = f_and(st1.guard, c)
            st1 = bind(st1, els)
            if cond is not TRUE:
                st1.guard = f_and(st1.guard, cond)
            if not st1.dead:
                st1 = body(st1) if body else self.block(s.body, st1, fr)
            del self.loopctx[len(self.loopctx) - len(loops):]
            br, co = fr.loopstack.pop()
            return st1, br, co

        # dry passes: what does the body change, assuming nothing about what earlier iterations changed?
        def dry(st0):
            saved = (len(self.events), len(fr.returns), [len(t.raised) for t in self.tries],
                     [len(l.exits) for l in self.loopctx])
            self.dry += 1
            n0 = self.objn
            d, br, co = pass_(st0.copy(), False)
            self.dry -= 1
            n1, self.objn = self.objn, n0
            news = n1 > n0
            del self.events[saved[0]:]
            del fr.returns[saved[1]:]
            for t, n in zip(self.tries, saved[2]):
                del t.raised[n:]
            for l, n in zip(self.loopctx, saved[3]):
                del l.exits[n:]
            for l in loops:
                l.exits = []
            ce, ch = set(), set()
            for e in [d] + br + co:
                if e.dead:
                    continue
                for k, v in e.env.items():
                    if st0.env.get(k) is not v:
                        ce.add(k)
                for k, v in e.heap.items():
                    if st0.heap.get(k) is not v:
                        if news and any(x.op == 'obj' and x.args[1] > n0 for z in k[1:] if isinstance(z, Term)
                                        for x in subterms(z)):
                            continue    # of an object made in this pass
                        ch.add(k)
            return ce, ch

        chg_env, chg_heap = set(), set()
        st1 = entry
        phis = {}
        for _ in range(6):
            ce, ch = dry(st1)
            ce, ch = ce - chg_env, ch - chg_heap
            if not ce and not ch:
                break
            chg_env |= ce
            chg_heap |= ch
            st1 = st1.copy()
            for k in ce:
                init = entry.env.get(k)
                if init is None:
                    continue
                p = T('phi', tag, k, init)
                phis[('env', k)] = p
                st1.env[k] = p
            for k in ch:
                init = entry.heap.get(k)
                if init is None:
                    init = self.heap_default(k)
                if k[0] == 'fs' or any(x in subterms(k[1]) for x in keys) or (k[0] in ('idx', 'passed') and
                        any(isinstance(z, Term) and any(x in subterms(z) for x in keys) for z in k[1:])):
                    st1.heap.pop(k, None)
                    continue
                p = T('phi', tag, str(k[0]) + ':' + (k[2] if isinstance(k[2] if len(k) > 2 else None, str) else
                                                   show(k[2]) if len(k) > 2 else ''), init)
                phis[('heap', k)] = p
                st1.heap[k] = p
        if st1 is entry:
            st1 = entry.copy()
        # pass 2 (recorded)
        nret0 = len(fr.returns)
        nr0 = [len(t.raised) for t in self.tries]
        allphis = set(phis.values())

        def extra(at):
            s_ = subterms(at)
            return any(p in s_ for p in allphis)
        d, br, co = pass_(st1, True)
        if not self.dry:
            self.loops.extend(loops)
        cont = [x for x in [d] + co if not x.dead]
        for b in br:
            for l in loops:
                l.exits.append(('break', b.guard, line))
        endst = self.join(cont)
        allend = self.join(cont + br)
        for (w, k), p in phis.items():
            e = endst.env.get(k) if w == 'env' else endst.heap.get(k)
            loops[0].carried[p] = (e, endst.guard)

        g0 = entry.guard

        def project(node):
            n = simplify_by(node, g0)
            for base, order in reversed(gens):
                lv = loop_keys(base) if T('elem', base) in keys else loop_keys(base, 1)
                n = mk_exists(base, n, lv if len(gens) > 1 else keys, extra)
            return f_and(g0, n)

        # returns out of the loop
        exits = FALSE
        for r in fr.returns[nret0:]:
            v = r[1]
            pg = project(r[0])
            if any(k in subterms(v) for k in keys) or any(p in subterms(v) for p in allphis):
                v = T('pick', tag, T('F', simplify_by(r[0], g0)), v, const(pick_dir(gens, 'first')))
            r[0], r[1] = pg, v
            exits = f_or(exits, pg)
        for t, n in zip(self.tries, nr0):
            for r in t.raised[n:]:
                r[0] = project(r[0])
        raised = FALSE
        for l in loops[:1]:
            for k_, g_, ln in l.exits:
                if k_ == 'raise':
                    raised = f_or(raised, project(g_))
        live = f_and(g0, f_not(exits), f_not(raised))

        # values after the loop
        out = entry.copy(live)
        if kind == 'while' and cond is TRUE and not br and test is not None and \
                isinstance(test, ast.Constant) and test.value:
            out.guard = FALSE
        for (w, k), p in phis.items():
            e = allend.env.get(k) if w == 'env' else allend.heap.get(k)
            if e is None:
                e = p
            d_ = 'last'
            if br:
                ec = endst.env.get(k, p) if w == 'env' else endst.heap.get(k, p)
                d_ = 'first' if ec is p else '?'
            v = self.loop_value(gens, keys, p, e, g0, extra, kind, pick_dir(gens, d_))
            if w == 'env':
                out.env[k] = v
            else:
                out.heap[k] = v
        for k in chg_env:
            if ('env', k) not in phis and k in allend.env:
                v = allend.env[k]
                out.env[k] = T('loopvar', tag, v) if any(x in subterms(v) for x in keys) else v
        for k in chg_heap:
            if ('heap', k) not in phis and k in allend.heap and not any(
                    isinstance(z, Term) and any(x in subterms(z) for x in keys) for z in k[1:]):
                if k[0] == 'fs':
                    continue
                out.heap[k] = allend.heap[k]
        if s is not None and getattr(s, 'orelse', None):
            brk = FALSE
            for b in br:
                brk = f_or(brk, project(b.guard))
            a = out.copy(f_and(out.guard, f_not(brk)))
            b = out.copy(f_and(out.guard, brk))
            if not a.dead:
                a = self.block(s.orelse, a, fr)
            out = self.join([a, b])
        return out

    def loop_value(self, gens, keys, phi, end, g0, extra, kind, pdir='?'):
        init = phi.args[2]
        base = gens[0][0]
        if end is phi:
            return init

        def ex(node):
            n = simplify_by(node, g0)
            for b, o in reversed(gens):
                n = mk_exists(b, n, keys, extra)
            return n

        def cases(t, c):
            if t.op == 'ite':
                return cases(t.args[1], f_and(c, t.args[0])) + cases(t.args[2], f_and(c, f_not(t.args[0])))
            return [(c, t)]
        if boolish(end) and boolish(init):
            # boolean flag:  end = f(phi): find condition under which it is forced
            pa = T('truthy', phi)
            n = tobool(end)
            if pa in support(n) or True:
                n1 = restrict(n, {pa: True})
                n0 = restrict(n, {pa: False})
                if not any(contains(a, phi) for a in support(n1) | support(n0)):
                    if n1 is TRUE:      # phi or c
                        return F(f_or(tobool(init), ex(n0)))
                    if n0 is FALSE:     # phi and c
                        return F(f_and(tobool(init), f_not(ex(f_not(n1)))))
        cs = cases(end, TRUE)
        keep = FALSE
        others = []
        for c, v in cs:
            if v is phi:
                keep = f_or(keep, c)
            else:
                others.append((c, v))
        if len(set(v for c, v in others)) == 1:
            v = others[0][1]
            c = f_or(*[c for c, _ in others])
            if not contains(v, phi):
                if not any(contains(a, phi) for a in support(c)) or True:
                    dep = any(k in subterms(v) for k in keys)
                    if dep:
                        v = T('pick', base, T('F', c), v, const(pdir))
                    cc = c
                    # conditions on the flag itself (not already set) do not matter
                    asg = {}
                    for a in support(c):
                        if contains(a, phi):
                            asg = None
                            break
                    if asg is None:
                        return T('loopout', base, end, init)
                    return mk_ite(ex(cc), v, init)
            if v.op == 'add' and v.args[0] is phi and not contains(v.args[1], phi):
                return T('accum', base, T('F', c), v.args[1], init)
            if v.op == 'add' and v.args[1] is phi and not contains(v.args[0], phi):
                return T('accum', base, T('F', c), v.args[0], init)
        return T('loopout', base, end, init)

    def s_While(self, s, st, fr):
        rw = rewrite_index_while(s, st, self, fr)
        if rw is not None:
            return rw
        c0, st = self.cond(s.test, st, fr)
        infinite = isinstance(s.test, ast.Constant) and bool(s.test.value)
        base = T('while', fr.func.qualname, getattr(s, '_ord', 0))
        # `while queue:` with a draining pop
        return self.loop([(base, [])], lambda stt, els: stt, TRUE, s, st, fr, kind='while', test=s.test)

    # ------------------------------------------------------------ generators
    def gen_call(self, node, st, fr):
        """if node is a call of an inlinable package generator, return (fi, cls, node)"""
        if not isinstance(node, ast.Call):
            return None
        tgt = self.peek_callee(node.func, st, fr)
        if tgt is None:
            return None
        fi, cls, recv = tgt
        if not fi.is_gen or not self.may_inline(fi):
            return None
        return (fi, cls, recv, node, st)

    def peek_callee(self, f, st, fr):
        """resolve a callee without evaluating side effects: -> (FuncInfo, cls, recv term or None)"""
        if isinstance(f, ast.Name):
            v = self.lookup(f.id, st, fr)
            if v is None:
                return None
            if v.op == 'closure':
                return (self.closures[v][0], None, v)
            if v.op == 'func':
                return (self._fi(v), None, None)
            return None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            o = self.lookup(f.value.id, st, fr)
            if o is None:
                return None
            cls = self.typeof(o)
            if cls is not None:
                m = cls.find(f.attr)
                if m is not None:
                    return (m, cls, o)
        return None

    def for_generator(self, g, s, fr):
        fi, cls, recv, node, st = g
        args, kw, st = self.eval_args(node, st, fr)
        breaks = []

        def on_yield(stt, val, gfr):
            # run the loop body in the caller's frame; generator locals are kept aside
            genenv = stt.env
            caller = State(dict(on_yield.env), stt.heap, stt.guard)
            fr.loopstack.append(([], []))
            saved = self.stack
            caller = self.assign(s.target, val, caller, fr, s)
            self.stack = saved[:saved.index(gfr)] if gfr in saved else saved
            caller = self.block(s.body, caller, fr)
            self.stack = saved
            br, co = fr.loopstack.pop()
            breaks.extend(br)
            caller = self.join([caller] + co)
            if not caller.dead:
                on_yield.env = caller.env
            return State(genenv, caller.heap, caller.guard)
        on_yield.env = st.env
        full = ([recv] if recv is not None and recv.op != 'closure' and fi.kind != 'static' else []) + args
        _, st2 = self.call_func(fi, cls, full, kw, st.copy(), fr, node, force=True, on_yield=on_yield,
                                closure=recv if recv is not None and recv.op == 'closure' else None)
        out = State(dict(on_yield.env), st2.heap, st2.guard)
        if s.orelse and not out.dead:
            out = self.block(s.orelse, out, fr)
        return self.join([out] + breaks)

    def collect_generator(self, fi, cls, recv, args, kw, st, fr, node, kind='list'):
        """list(gen(...)): a fresh container with one append per yield"""
        obj = self.newobj(kind)

        def on_yield(stt, val, gfr):
            self.emit('mutate', 'append', obj, [val], {}, stt, node)
            return stt
        full = ([recv] if recv is not None and recv.op != 'closure' and fi.kind != 'static' else []) + args
        _, st = self.call_func(fi, cls, full, kw, st, fr, node, force=True, on_yield=on_yield,
                               closure=recv if recv is not None and recv.op == 'closure' else None)
        return obj, st

    # ------------------------------------------------------------ expressions
    def cond(self, node, st, fr):
        """boolean value of an expression as a formula"""
        if isinstance(node, ast.BoolOp):
            fs = []
            isand = isinstance(node.op, ast.And)
            g0 = st.guard
            cur = TRUE
            acc = TRUE if isand else FALSE
            for v in node.values:
                s2 = State(dict(st.env), dict(st.heap), f_and(g0, cur))
                if s2.dead:
                    break
                f, s2 = self.cond(v, s2, fr)
                self.merge_if(st, s2, cur)
                if isand:
                    acc = f_and(acc, f)
                    cur = f_and(cur, f)
                else:
                    acc = f_or(acc, f)
                    cur = f_and(cur, f_not(f))
            st.guard = g0
            return acc, st
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            f, st = self.cond(node.operand, st, fr)
            return f_not(f), st
        v, st = self.ev(node, st, fr)
        return tobool(v), st

    def merge_if(self, st, s2, c):
        """st after an operand that is evaluated only if c has made it s2"""
        if c is TRUE:
            st.env, st.heap = s2.env, s2.heap
            return
        for d, d2 in ((st.env, s2.env), (st.heap, s2.heap)):
            for k, v in d2.items():
                old = d.get(k)
                if old is v:
                    continue
                if isinstance(old, Term) and isinstance(v, Term):
                    d2[k] = mk_ite(c, v, old)
        st.env, st.heap = s2.env, s2.heap

    def ev(self, node, st, fr):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            return T('opaque', type(node).__name__, getattr(node, 'lineno', 0)), st
        v, st = m(node, st, fr)
        return v, st

    def e_Constant(self, n, st, fr):
        return const(n.value), st

    def e_Name(self, n, st, fr):
        v = self.lookup(n.id, st, fr)
        if v is None:
            s = self.prog.star_name(fr.func.module, n.id)
            v = T('ext', s if s and n.id not in BUILTINS else n.id)
        return resolve_by(v, st.guard), st

    def lookup(self, name, st, fr):
        if name in st.env:
            return st.env[name]
        pe = fr.parent_env
        while pe is not None:
            if name in pe[0]:
                return pe[0][name]
            pe = pe[1]
        r = self.prog.resolve(fr.func.module, name)
        if r is not None:
            return self.from_resolved(r, st, fr)
        return None

    def from_resolved(self, r, st, fr):
        if r[0] == 'func':
            t = T('func', r[1].module.name + ':' + r[1].qualname)
            self._func_tab()[t] = r[1]
            return t
        if r[0] == 'class':
            return T('cls', r[1].name)
        if r[0] == 'ext':
            return T('ext', r[1])
        if r[0] == 'mod':
            return T('ext', 'pkg:' + r[1].name)
        if r[0] == 'expr':
            key = (r[2].name, id(r[1]))
            if key in self.modcache:
                return self.modcache[key]
            self.modcache[key] = T('global', r[2].name + '.?')
            dummy = FuncInfo(ast.parse('def _m(): pass').body[0], r[2])
            v, _ = self.ev(r[1], State({}, {}, TRUE), Frame(dummy, None))
            self.modcache[key] = v
            return v
        return T('ext', str(r))

    def constant(self, node):
        """the value of a constant expression of the analysed function's module (None: not constant)"""
        v, _ = self.ev(node, State({}, {}, TRUE), Frame(self.entry, None))
        return cval(v) if is_const(v) else None

    _ft = {}

    def _func_tab(self):
        return Analysis._ft

    def _fi(self, t):
        return Analysis._ft[t]

    def typeof(self, t):
        if t.op == 'self':
            return self.prog.classes.get(t.args[0])
        if t.op == 'inst':
            return self.prog.classes.get(t.args[0])
        if t.op == 'cls':
            return None
        return None

    def e_Attribute(self, n, st, fr):
        o, st = self.ev(n.value, st, fr)
        return self.getattr(o, n.attr, st, fr, n)

    def getattr(self, o, name, st, fr, node=None):
        if name in ('path', 'dirs', 'files') and (o.op == 'elem' or o.op == 'call' and o.args[0] == 'next') and fs_walk(o.args[-1]):
            return self.index(o, const(('path', 'dirs', 'files').index(name)), st), st      # a fs.walk.Step
        if o.op == 'ext':
            d = o.args[0]
            if d.startswith('pkg:'):
                r = self.prog.resolve(self.prog.modules[d[4:]], name)
                if r:
                    return self.from_resolved(r, st, fr), st
                sub = d[4:] + '.' + name
                if sub in self.prog.modules:
                    return T('ext', 'pkg:' + sub), st
            if d == 'os' and name == 'sep':
                return const('/'), st
            if d == 'sys.version_info' and name == 'major':
                return const(3), st
            if d == 'os' and name == 'curdir':
                return const('.'), st
            if d == 'os' and name == 'pardir':
                return const('..'), st
            return T('ext', d + '.' + name), st
        if o.op == 'cls':
            c = self.prog.classes.get(o.args[0])
            if c is not None:
                m = c.find(name)
                if m is not None:
                    return T('unbound', o, name), st
                if c.find(name, 'attrs') is not None:
                    return self.class_attr(c, name, st, fr), st
            return T('attr', o, name), st
        k = ('attr', o, name)
        if k in st.heap:
            return resolve_by(st.heap[k], st.guard), st
        cls = self.typeof(o)
        if cls is not None:
            p = cls.find(name, 'props')
            if p is not None:
                if self.may_inline(p) or (o.op == 'self' and trivial_getter(p)):
                    return self.call_func(p, cls, [o], {}, st, fr, node, force=True)
                return T('attr', o, name), st
            if cls.find(name) is not None:
                return T('bound', o, name), st
            if cls.find(name, 'attrs') is not None:
                return self.class_attr(cls, name, st, fr), st
        if o.op == 'ite':
            # distribute over the alternatives (keeps typed receivers precise)
            a, st = self.getattr(o.args[1], name, st, fr, node)
            b, st = self.getattr(o.args[2], name, st, fr, node)
            return mk_ite(o.args[0], a, b), st
        return T('attr', o, name), st

    def class_attr(self, cls, name, st, fr):
        for c in cls.mro:
            if isinstance(c, ClassInfo) and name in c.attrs:
                key = (c.name, name)
                if key not in self.modcache:
                    self.modcache[key] = T('attr', T('cls', c.name), name)
                    dummy = FuncInfo(ast.parse('def _m(): pass').body[0], c.module)
                    v, _ = self.ev(c.attrs[name], State({}, {}, TRUE), Frame(dummy, None))
                    self.modcache[key] = v
                return self.modcache[key]
        return T('attr', T('cls', cls.name), name)

    def e_Subscript(self, n, st, fr):
        o, st = self.ev(n.value, st, fr)
        if isinstance(n.slice, ast.Slice):
            parts = []
            for x in (n.slice.lower, n.slice.upper, n.slice.step):
                if x is None:
                    parts.append(NONE)
                else:
                    v, st = self.ev(x, st, fr)
                    parts.append(v)
            lo, hi, step = parts
            if lo is NONE and hi is NONE:
                if step is NONE:
                    return T('copy', 'list', o), st
                if is_const(step) and cval(step) == -1:
                    return T('copy', 'rev', o), st
            if o.op in ('list', 'tuple') and all(is_const(p) for p in parts):
                try:
                    return T(o.op, *o.args[slice(cval(lo), cval(hi), cval(step))]), st
                except Exception:
                    pass
            if is_const(o) and all(is_const(p) for p in parts):
                try:
                    return const(cval(o)[slice(cval(lo), cval(hi), cval(step))]), st
                except Exception:
                    pass
            return self.slice(o, lo, hi, step), st
        k, st = self.ev(n.slice, st, fr)
        return self.index(o, k, st), st

    def slice(self, o, lo, hi, step):
        if o.op == 'ite':
            return mk_ite(o.args[0], self.slice(o.args[1], lo, hi, step), self.slice(o.args[2], lo, hi, step))
        f = fields_of(o)
        if f is not None and step is NONE and is_const(lo) and is_const(hi):
            l, h = cval(lo) or 0, cval(hi) or 0
            if isinstance(l, int) and l >= 0 and isinstance(h, int) and (hi is NONE or h < 0):
                return mk_view(f[0], f[1] + l, f[2] - h)
        return T('slice', o, lo, hi, step)

    def index(self, o, k, st):
        o = resolve_by(o, st.guard)
        hk = ('idx', o, k)
        if hk in st.heap:
            return resolve_by(st.heap[hk], st.guard)
        if o.op in ('list', 'tuple') and is_const(k) and isinstance(cval(k), int):
            try:
                return o.args[cval(k)]
            except IndexError:
                pass
        if o.op == 'slice' and len(o.args) == 4 and is_const(k) and type(cval(k)) is int and cval(k) >= 0 and o.args[3] is NONE and \
                all(x is NONE or is_const(x) and type(cval(x)) is int and cval(x) >= 0 for x in o.args[1:3]):
            lo = cval(o.args[1]) or 0
            if o.args[2] is NONE or lo + cval(k) < cval(o.args[2]):
                return self.index(o.args[0], const(lo + cval(k)), st)
        if o.op == 'const' and is_const(k):
            try:
                return const(cval(o)[cval(k)])
            except Exception:
                pass
        if o.op == 'copy' and o.args[0] not in ('sorted', 'set'):
            if o.args[0] == 'rev':
                if is_const(k) and isinstance(cval(k), int):
                    return self.index(o.args[1], const(-1 - cval(k)), st)
            else:
                return self.index(o.args[1], k, st)
        if is_const(k) and isinstance(cval(k), int) and not isinstance(cval(k), bool):
            f = fields_of(o)
            if f is not None:
                i = cval(k)
                i = i + f[1] if i >= 0 else i - f[2]
                if f[0].op == 'comp':
                    b = f[0].args[2][0].args[0]
                    return subst(f[0].args[1], T('elem', b), self.index(b, const(i), st))
                return T('index', f[0], const(i))
        if o.op == 'ext' and o.args[0] == 'sys.version_info' and is_const(k) and cval(k) == 0:
            return const(3)
        if k.op == 'pos' and k.args[0] is strip_copy(o):
            if k.args[0].op == 'comp' and k.args[0].args[0] != 'dict' and len(k.args) == 1:
                return k.args[0].args[1]        # the loop runs over what the comprehension runs over
            return T('elem', *k.args)
        if o.op == 'ite':
            return mk_ite(o.args[0], self.index(o.args[1], k, st), self.index(o.args[2], k, st))
        if o.op == 'comp' and o.args[0] == 'dict' and o.args[1].op == 'tuple' and o.args[1].args[0] is k:
            return o.args[1].args[1]
        return T('index', o, k)

    def e_Tuple(self, n, st, fr):
        return self.seq_lit('tuple', n, st, fr)

    def e_List(self, n, st, fr):
        if not n.elts:
            return self.newobj('list'), st
        return self.seq_lit('list', n, st, fr)

    def e_Set(self, n, st, fr):
        return self.seq_lit('set', n, st, fr)

    def seq_lit(self, op, n, st, fr):
        out = []
        star = None
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v, st = self.ev(e.value, st, fr)
                if v.op in ('list', 'tuple'):
                    out.extend(v.args)
                else:
                    out.append(T('star', v))
                    star = v
            else:
                v, st = self.ev(e, st, fr)
                out.append(v)
        if len(out) == 1 and star is not None:
            return T('copy', op, star), st
        return T(op, *out), st

    def e_Dict(self, n, st, fr):
        o = self.newobj('dict')
        for k, v in zip(n.keys, n.values):
            vv, st = self.ev(v, st, fr)
            if k is None:
                self.emit('mutate', 'update', o, [vv], {}, st, n)
                continue
            kk, st = self.ev(k, st, fr)
            self.emit('store', '[]', o, [kk, vv], {}, st, n)
            st.heap[('idx', o, kk)] = vv
        return o, st

    def e_BoolOp(self, n, st, fr):
        vals = []
        isand = isinstance(n.op, ast.And)
        g0 = st.guard
        cur = TRUE
        out = None
        acc = []
        for v in n.values:
            s2 = State(dict(st.env), dict(st.heap), f_and(g0, cur))
            t, s2 = self.ev(v, s2, fr)
            self.merge_if(st, s2, cur)
            b = tobool(t)
            acc.append((t, b))
            cur = f_and(cur, b if isand else f_not(b))
        st.guard = g0
        out = acc[-1][0]
        for t, b in reversed(acc[:-1]):
            out = mk_ite(b, out, t) if isand else mk_ite(b, t, out)
        return out, st

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            f, st = self.cond(n.operand, st, fr)
            return F(f_not(f)), st
        v, st = self.ev(n.operand, st, fr)
        if is_const(v):
            try:
                if isinstance(n.op, ast.USub):
                    return const(-cval(v)), st
            except TypeError:
                pass
        return T('unary', type(n.op).__name__, v), st

    def e_BinOp(self, n, st, fr):
        a, st = self.ev(n.left, st, fr)
        b, st = self.ev(n.right, st, fr)
        op = type(n.op).__name__
        if op == 'Mod' and is_const(a) and isinstance(cval(a), str):
            r = percent_format(a, b)
            if r is not None:
                return r, st
        return self.binop(op, a, b), st

    def binop(self, op, a, b):
        if is_const(a) and is_const(b) and op in ('Add', 'Sub', 'Mult', 'BitAnd', 'BitOr', 'FloorDiv', 'Mod', 'Pow'):
            try:
                x, y = cval(a), cval(b)
                return const({'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y,
                              'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'FloorDiv': lambda: x // y,
                              'Mod': lambda: x % y, 'Pow': lambda: x ** y}[op]())
            except Exception:
                pass
        if op in ('Add', 'Sub'):
            p, k = pos_offset(a)
            if p is not None and is_const(b) and isinstance(cval(b), int):
                return pos_plus(p, k + (cval(b) if op == 'Add' else -cval(b)))
            p, k = pos_offset(b)
            if op == 'Add' and p is not None and is_const(a) and isinstance(cval(a), int):
                return pos_plus(p, k + cval(a))
        if op == 'Add':
            if a.op == 'call' and a.args[0] == '_' or b.op == 'call' and b.args[0] == '_':
                return mk_concat([a, b])
            if a.op in ('list', 'tuple') and b.op == a.op:
                return T(a.op, *(a.args + b.args))
            if is_strish(a) or is_strish(b):
                return mk_concat([a, b])
            if a.op == 'obj' and a.args[0] == 'list':
                return T('add', a, b)
            return T('add', a, b)
        if op == 'Sub':
            return T('sub', a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Mult'):
            if a.uid > b.uid:
                a, b = b, a
        return T('binop', op, a, b)

    def e_Compare(self, n, st, fr):
        l, st = self.ev(n.left, st, fr)
        acc = TRUE
        for op, c in zip(n.ops, n.comparators):
            r, st = self.ev(c, st, fr)
            acc = f_and(acc, self.compare(op, l, r))
            l = r
        return F(acc), st

    def compare(self, op, l, r):
        k = type(op).__name__
        if k in ('Is', 'IsNot') and not is_const(l) and not is_const(r) and l is not r and \
                any(c is not None and c.find('__eq__') is not None for c in (self.typeof(l), self.typeof(r))):
            return atom(T('is', l, r)) if k == 'Is' else f_not(atom(T('is', l, r)))
        if k in ('Eq', 'Is'):
            return f_eq(l, r)
        if k in ('NotEq', 'IsNot'):
            return f_not(f_eq(l, r))
        if k == 'Lt':
            return f_lt(l, r)
        if k == 'Gt':
            return f_lt(r, l)
        if k == 'LtE':
            return f_not(f_lt(r, l))
        if k == 'GtE':
            return f_not(f_lt(l, r))
        if k == 'In':
            return f_in(l, r)
        return f_not(f_in(l, r))

    def e_IfExp(self, n, st, fr):
        c, st = self.cond(n.test, st, fr)
        a, s1 = self.ev(n.body, State(st.env, st.heap, f_and(st.guard, c)), fr)
        b, s2 = self.ev(n.orelse, State(s1.env, s1.heap, f_and(st.guard, f_not(c))), fr)
        st.env, st.heap = s2.env, s2.heap
        return mk_ite(c, a, b), st

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                t, st = self.ev(v.value, st, fr)
                if v.format_spec is not None:
                    t = T('fmt', t, ast.unparse(v.format_spec))
                parts.append(t)
        return mk_concat(parts), st

    def e_Lambda(self, n, st, fr):
        fi = FuncInfo(n, fr.func.module, None, 'func', fr.func)
        t = T('closure', (id(n), len(self.closures)))
        self.closures[t] = (fi, fr, st.env)
        return t, st

    def e_NamedExpr(self, n, st, fr):
        v, st = self.ev(n.value, st, fr)
        st = self.assign(n.target, v, st, fr, n)
        return v, st

    def e_Starred(self, n, st, fr):
        v, st = self.ev(n.value, st, fr)
        return T('star', v), st

    def e_Yield(self, n, st, fr):
        v = NONE
        if n.value is not None:
            v, st = self.ev(n.value, st, fr)
        if fr.on_yield is not None:
            st = fr.on_yield(st, v, fr)
        else:
            self.emit('yield', 'yield', None, [v], {}, st, n)
        return T('sent'), st

    def e_YieldFrom(self, n, st, fr):
        v, st = self.ev(n.value, st, fr)

        def body(stt):
            if fr.on_yield is not None:
                return fr.on_yield(stt, stt.env['$yf'], fr)
            self.emit('yield', 'yield', None, [stt.env['$yf']], {}, stt, n)
            return stt

        def bind(stt, el):
            stt.env['$yf'] = el
            return stt
        st = self.for_over(v, bind, None, st, fr, body)
        return NONE, st

    def e_Await(self, n, st, fr):
        return self.ev(n.value, st, fr)

    # comprehensions -------------------------------------------------
    def e_ListComp(self, n, st, fr):
        return self.comp('list', n.elt, n.generators, n, st, fr)

    def e_GeneratorExp(self, n, st, fr):
        return self.comp('gen', n.elt, n.generators, n, st, fr)

    def e_SetComp(self, n, st, fr):
        return self.comp('set', n.elt, n.generators, n, st, fr)

    def e_DictComp(self, n, st, fr):
        return self.comp('dict', ast.Tuple(elts=[n.key, n.value], ctx=ast.Load(), lineno=n.lineno,
                                           col_offset=0), n.generators, n, st, fr)

    def comp(self, kind, elt, generators, n, st, fr, it0=None):
        env0 = dict(st.env)
        g0 = st.guard
        gens = []
        cond = TRUE
        loops = []
        inner = State(dict(st.env), st.heap, st.guard)
        literal = None
        for gi, g in enumerate(generators):
            if gi == 0 and it0 is not None:
                it = it0
            else:
                it, inner = self.ev(g.iter, inner, fr)
            it = resolve_by(it, inner.guard)
            if gi == 0 and it.op == 'ite':
                c = it.args[0]
                a, sa = self.comp(kind, elt, generators, n, inner.copy(f_and(g0, c)), fr, it.args[1])
                b, sb = self.comp(kind, elt, generators, n, inner.copy(f_and(g0, f_not(c))), fr, it.args[2])
                st.heap = self.join([sa, sb]).heap
                return mk_ite(c, a, b), st
            base, order = self.norm_iter(it)
            if base.op in ('list', 'tuple') and len(generators) == 1 and len(base.args) <= 40:
                literal = base
                break
            el = None
            b = base
            wrap = lambda e: e
            while True:
                if b.op == 'enumerate':
                    w0, bb = wrap, counted(b)
                    wrap = (lambda w0, bb: lambda e: w0(T('tuple', bb, e)))(w0, bb)
                    b, o2 = self.norm_iter(b.args[0])
                    order = order + o2
                elif b.op == 'items':
                    w0, d0 = wrap, b.args[0]
                    wrap = (lambda w0, d0: lambda e: w0(T('tuple', e, self.index(d0, e, inner))))(w0, d0)
                    b, o2 = self.norm_iter(b.args[0])
                    order = order + o2
                elif b.op == 'values':
                    w0, d0 = wrap, b.args[0]
                    wrap = (lambda w0, d0: lambda e: w0(self.index(d0, e, inner)))(w0, d0)
                    b, o2 = self.norm_iter(b.args[0])
                    order = order + o2
                elif b.op == 'rangelen':
                    bb = strip_copy(b.args[0])
                    w0 = wrap
                    wrap = (lambda w0, bb: lambda e: w0(T('pos', bb)))(w0, bb)
                    b, o2 = self.norm_iter(b.args[0])
                    order = order + o2
                else:
                    break
            if b.op == 'comp':
                k2, e2, g2, c2 = b.args
                if k2 == 'set':
                    order = order + ['set']
                for gg in g2:
                    gens.append((gg.args[0], order + list(gg.args[1].args)))
                    loops.append(Loop(gg.args[0], order + list(gg.args[1].args), n.lineno, fr.func, 'comp'))
                cond = f_and(cond, c2.args[0])
                if k2 == 'dict' and e2.op == 'tuple':
                    e2 = e2.args[0]
                el = wrap(e2)
            else:
                gens.append((b, order))
                loops.append(Loop(b, order, n.lineno, fr.func, 'comp'))
                level = sum(1 for l in self.loopctx if l.base is b)
                el = wrap(T('elem', b))
            self.loopctx.append(loops[-1])
            inner = self.assign(g.target, el, inner, fr, n)
            for c in g.ifs:
                inner.guard = f_and(g0, cond)
                f, inner = self.cond(c, inner, fr)
                cond = f_and(cond, f)
        if literal is not None:
            out = []
            g = generators[0]
            pieces = []
            ok = True
            for v in literal.args:
                inner = self.assign(g.target, v, inner, fr, n)
                c = TRUE
                for ifn in g.ifs:
                    f, inner = self.cond(ifn, inner, fr)
                    c = f_and(c, f)
                e, inner = self.ev(elt, inner, fr)
                pieces.append((c, e))
            if all(c is TRUE or c is FALSE for c, e in pieces):
                if kind == 'dict':
                    o = self.newobj('dict')
                    for c, e in pieces:
                        if c is TRUE:
                            st.heap[('idx', o, e.args[0])] = e.args[1]
                            self.emit('store', '[]', o, [e.args[0], e.args[1]], {}, st, n)
                    return o, st
                return T('list', *[e for c, e in pieces if c is TRUE]), st
            return T('condlist', *[T('condel', F(c), e) for c, e in pieces]), st
        inner.guard = f_and(g0, cond)
        e, inner = self.ev(elt, inner, fr)
        for l in loops:
            self.loopctx.pop() if self.loopctx and self.loopctx[-1] in loops else None
        self.loopctx = [l for l in self.loopctx if l not in loops]
        st.heap = inner.heap
        return self.mk_comp(kind, e, gens, simplify_by(cond, g0)), st

    # ------------------------------------------------------------ calls
    def eval_args(self, n, st, fr):
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v, st = self.ev(a.value, st, fr)
                if v.op in ('list', 'tuple'):
                    args.extend(v.args)
                else:
                    args.append(T('star', v))
            else:
                v, st = self.ev(a, st, fr)
                args.append(v)
        for k in n.keywords:
            v, st = self.ev(k.value, st, fr)
            if k.arg is None:
                lit = self.literal_dict(v, st)
                if lit is None:
                    kw['**'] = v
                else:
                    kw.update(lit)
            else:
                kw[k.arg] = v
        return args, kw, st

    def literal_dict(self, v, st):
        """{name: value} if v is a dict of this function that was only given entries under constant names"""
        if v.op == 'call' and v.args[0] == 'dict' and all(isinstance(a, Term) and a.op == 'kw' and a.args[0] != '**' for a in v.args[1:]):
            return {a.args[0]: a.args[1] for a in v.args[1:]}
        if v.op != 'obj' or v.args[0] != 'dict':
            return None
        out = {}
        for e in self.events:
            if e.recv is not v:
                if any(a is v for a in e.args) or any(a is v for a in e.kw.values()):
                    return None
                continue
            if e.kind != 'store' or e.loops or not e.args or not is_const(e.args[0]) or not isinstance(cval(e.args[0]), str):
                return None
            w = st.heap.get(('idx', v, e.args[0]))
            if w is None or f_and(st.guard, f_not(e.guard)) is not FALSE:
                return None
            out[cval(e.args[0])] = w
        return out

    def may_inline(self, fi):
        if fi in [f.func for f in self.stack] or len(self.stack) > self.MAXDEPTH:
            return False
        if fi.abstract:
            return False
        n = fi.name
        if n in self.opaque or fi.qualname in self.opaque:
            return False
        if n in self.inline or fi.qualname in self.inline:
            return True
        if fi.qualname in self.api:
            return False
        return True

    def e_Call(self, n, st, fr):
        f = n.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and \
                isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            return self.super_call(n, st, fr)
        if isinstance(f, ast.Attribute):
            o, st = self.ev(f.value, st, fr)
            return self.method_call(o, f.attr, n, st, fr)
        v, st = self.ev(f, st, fr)
        return self.call_value(v, n, st, fr)

    def call_value(self, v, n, st, fr):
        v = resolve_by(v, st.guard)
        if v.op == 'ite':
            # call whichever applies
            args, kw, st = self.eval_args(n, st, fr)
            return self.call_ite(v, args, kw, n, st, fr)
        if v.op == 'ext':
            return self.ext_call(v.args[0], n, st, fr)
        args, kw, st = self.eval_args(n, st, fr)
        return self.apply(v, args, kw, n, st, fr)

    def call_ite(self, v, args, kw, n, st, fr):
        c = v.args[0]
        ga, gb = f_and(st.guard, c), f_and(st.guard, f_not(c))
        outs = []
        vals = []
        for g, x in ((ga, v.args[1]), (gb, v.args[2])):
            if g is FALSE:
                continue
            s = st.copy(g)
            if x.op == 'ite':
                r, s = self.call_ite(x, args, kw, n, s, fr)
            else:
                r, s = self.apply(x, args, kw, n, s, fr)
            outs.append(s)
            vals.append((s.guard, r))
        if len(vals) == 2 and not outs[0].dead and not outs[1].dead:
            rv = mk_ite(c, vals[0][1], vals[1][1])
        else:
            rv = self.join_values(vals)
        return rv, self.join(outs)

    def apply(self, v, args, kw, n, st, fr):
        """call of an already evaluated callee with evaluated arguments"""
        if v.op == 'func':
            fi = self._fi(v)
            return self.call_func(fi, None, args, kw, st, fr, n)
        if v.op == 'closure':
            fi, cfr, cenv = self.closures[v]
            return self.call_func(fi, None, args, kw, st, fr, n, closure=v, force=True)
        if v.op == 'cls':
            return self.instantiate(v.args[0], args, kw, st, fr, n)
        if v.op == 'bound':
            return self.bound_call(v.args[0], v.args[1], args, kw, n, st, fr)
        if v.op == 'unbound':
            c = self.prog.classes[v.args[0].args[0]]
            fi = c.find(v.args[1])
            if fi.kind == 'class':
                return self.call_func(fi, c, [v.args[0]] + args, kw, st, fr, n)
            if fi.kind == 'static':
                return self.call_func(fi, c, args, kw, st, fr, n)
            cls = self.typeof(args[0]) if args else None
            return self.call_func(fi, cls or c, args, kw, st, fr, n)
        if v.op == 'ext':
            return self.ext_apply(v.args[0], args, kw, n, st, fr)
        if v.op == 'mref' and self.narrowed(v.args[0], v.args[1], st):
            return self.bound_call(v.args[0], v.args[1], args, kw, n, st, fr, self.narrowed(v.args[0], v.args[1], st))
        if v.op == 'mref':
            return self.opaque_method(v.args[0], v.args[1], args, kw, n, st, fr)
        if v.op == 'attr':
            return self.opaque_method(v.args[0], v.args[1], args, kw, n, st, fr)
        t = T('call', 'value', v, *args)
        self.emit('call', 'value', v, args, kw, st, n, t)
        return t, st

    def narrowed(self, o, name, st):
        """the package class that an object is known to have where a private method of it is called"""
        if not name.startswith('_') or o.op not in ('param', 'arg', 'elem', 'attr', 'index'):
            return None
        for a in support(st.guard):
            if a.op == 'isinstance' and a.args[0] is o and a.args[1] in self.prog.classes and implies(st.guard, atom(a)):
                c = self.prog.classes[a.args[1]]
                if c.find(name) is not None:
                    return c
        return None

    def bound_call(self, o, name, args, kw, n, st, fr, cls=None):
        cls = cls or self.typeof(o)
        fi = cls.find(name)
        if fi.kind == 'static':
            return self.call_func(fi, cls, args, kw, st, fr, n, recv=o)
        if fi.kind == 'class':
            return self.call_func(fi, cls, [T('cls', cls.name)] + args, kw, st, fr, n, recv=o)
        return self.call_func(fi, cls, [o] + args, kw, st, fr, n, recv=o)

    def super_call(self, n, st, fr):
        f = n.func
        args, kw, st = self.eval_args(n, st, fr)
        sup = f.value
        start = fr.func.cls
        if sup.args and isinstance(sup.args[0], ast.Name):
            c = self.prog.classes.get(sup.args[0].id)
            if c is not None:
                start = c
        selfv = st.env.get(fr.func.node.args.args[0].arg) if fr.func.node.args.args else None
        cls = self.typeof(selfv) if selfv is not None else None
        if cls is None:
            cls = fr.cls or start
        fi = cls.find(f.attr, after=start) if cls is not None and start in cls.mro else (
            start.find(f.attr, after=start) if start else None)
        if fi is not None and selfv is not None:
            key = fi
            if fi not in [x.func for x in self.stack] and len(self.stack) < self.MAXDEPTH and \
                    fi.name not in self.opaque:
                return self.call_func(fi, cls, [selfv] + args, kw, st, fr, n, force=True)
        t = T('call', 'super.' + f.attr, selfv if selfv is not None else NONE, *args)
        self.emit('call', 'super.' + f.attr, selfv, args, kw, st, n, t)
        return t, st

    def store_item(self, o, k, v, st, node, aug=None):
        """o[k] = v"""
        self.emit('store', '[]', o, [k, v], {'aug': v} if aug else {}, st, node)
        for hk in [h for h in st.heap if h[0] == 'idx' and h[1] is o and h[2] is not k]:
            if not (is_const(hk[2]) and is_const(k)):
                del st.heap[hk]
        st.heap[('idx', o, k)] = v

    def update_items(self, o, name, n, st, fr):
        """d.update({k: v, ..}), d.update(k=v) and d.__setitem__(k, v), written out as the assignments they are; None for other calls"""
        if name == '__setitem__' and len(n.args) == 2 and not n.keywords:
            pairs = [tuple(n.args)]
        elif name == 'update' and len(n.args) <= 1 and all(k.arg for k in n.keywords) and (n.args or n.keywords):
            if n.args and not (isinstance(n.args[0], ast.Dict) and all(k is not None for k in n.args[0].keys)):
                return None
            pairs = (list(zip(n.args[0].keys, n.args[0].values)) if n.args else []) + \
                [(ast.copy_location(ast.Constant(k.arg), k.value), k.value) for k in n.keywords]
        else:
            return None
        got = []
        for k, v in pairs:
            kk, st = self.ev(k, st, fr)
            vv, st = self.ev(v, st, fr)
            got.append((kk, vv))
        for kk, vv in got:
            self.store_item(o, kk, vv, st, n)
        return NONE, st

    def method_call(self, o, name, n, st, fr):
        o = resolve_by(o, st.guard)
        if o.op == 'ext':
            v, st = self.getattr(o, name, st, fr, n)
            return self.call_value(v, n, st, fr)
        if o.op == 'cls':
            v, st = self.getattr(o, name, st, fr, n)
            args, kw, st = self.eval_args(n, st, fr)
            if v.op == 'attr':
                t = T('call', name, o, *args)
                self.emit('call', name, o, args, kw, st, n, t)
                return t, st
            return self.apply(v, args, kw, n, st, fr)
        cls = self.typeof(o) or self.narrowed(o, name, st)
        if cls is not None and cls.find(name) is not None:
            args, kw, st = self.eval_args(n, st, fr)
            return self.bound_call(o, name, args, kw, n, st, fr, cls)
        k = ('attr', o, name)
        if k in st.heap:
            args, kw, st = self.eval_args(n, st, fr)
            v = resolve_by(st.heap[k], st.guard)
            if v.op == 'ite':
                return self.call_ite(v, args, kw, n, st, fr)
            return self.apply(v, args, kw, n, st, fr)
        if cls is not None and cls.find(name, 'attrs') is not None:
            v = self.class_attr(cls, name, st, fr)
            args, kw, st = self.eval_args(n, st, fr)
            return self.apply(v, args, kw, n, st, fr)
        if name in ('update', '__setitem__') and cls is None and o.op != 'ite':
            r = self.update_items(o, name, n, st, fr)
            if r is not None:
                return r
        args, kw, st = self.eval_args(n, st, fr)
        if o.op == 'ite' and (self.typeof(o.args[1]) or self.typeof(o.args[2])):
            v = mk_ite(o.args[0], self._mref(o.args[1], name), self._mref(o.args[2], name))
            if v.op == 'ite':
                return self.call_ite(v, args, kw, n, st, fr)
        return self.opaque_method(o, name, args, kw, n, st, fr)

    def _mref(self, o, name):
        cls = self.typeof(o)
        if cls is not None and cls.find(name) is not None and cls.find(name).kind == 'func':
            return T('bound', o, name)
        return T('mref', o, name)

    def opaque_method(self, o, name, args, kw, n, st, fr):
        if name == 'extend' and len(args) == 1 and not kw and args[0].op in ('list', 'tuple') and len(args[0].args) <= 6 and \
                not any(x.op == 'star' for x in args[0].args):
            for x in args[0].args:
                _, st = self.opaque_method(o, 'append', [x], {}, n, st, fr)
            return NONE, st
        # ---- modelled string / container methods
        r = self.model_method(o, name, args, kw, n, st, fr)
        if r is not None:
            return r
        kws = tuple(T('kw', k, v) for k, v in sorted(kw.items()))
        if name in PURE_METHODS:
            t = T('call', '.' + name, o, *(tuple(args) + kws))
            return t, st
        if name in ('read', 'readline', 'next', 'pop', 'readlines', 'popleft', 'popitem'):
            t = T('call', '.' + name, o, *(tuple(args) + kws))
        else:
            t = T('call', '.' + name, o, *(tuple(args) + kws))
        if name in MUTATORS and not (name in ('remove', 'update', 'pop', 'add', 'clear') and self._is_ext_obj(o)):
            self.emit('mutate', name, o, args, kw, st, n, t)
        else:
            self.emit('call', name, o, args, kw, st, n, t)
        return t, st

    def _is_ext_obj(self, o):
        return False

    def model_method(self, o, name, args, kw, n, st, fr):
        na = len(args)
        if name in ('startswith', 'endswith') and na == 1:
            return F(f_startswith(o, args[0], name)), st
        if name == 'join' and na == 1:
            x = args[0]
            xs = strip_copy(x)
            if is_const(o) and isinstance(cval(o), str):
                if x.op in ('list', 'tuple'):
                    if cval(o) == '/' and not self.exact:
                        return mk_path(list(x.args)), st
                    parts = []
                    for i, p in enumerate(x.args):
                        if i:
                            parts.append(o)
                        parts.append(p)
                    return mk_concat(parts), st
                # "/".join(p for p in (a, b) if p)
                if x.op == 'condlist' and cval(o) == '/' and not self.exact:
                    return mk_path([c.args[1] for c in x.args]), st
                if x.op in ('add', 'ite') and (cval(o) != '/' or self.exact):
                    v = join_pieces(o, x)
                    if v is not None:
                        return v, st
            return T('join', o, x), st
        if name == 'format' and is_const(o) and isinstance(cval(o), str):
            r = brace_format(o, args, kw)
            if r is not None:
                return r, st
        if name in ('get',) and na in (1, 2) and o.op != 'ext':
            d = args[1] if na == 2 else kw.get('default', NONE)
            return mk_ite(f_in(args[0], o), self.index(o, args[0], st), d), st
        if name in ('items', 'iteritems') and na == 0:
            return T('items', o), st
        if name in ('values', 'itervalues') and na == 0:
            return T('values', o), st
        if name in ('keys', 'iterkeys') and na == 0:
            return T('copy', 'keys', o), st
        if name == 'copy' and na == 0 and o.op != 'ext':
            return T('copy', 'list', o), st
        if name in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'split', 'replace', 'rsplit') and is_const(o) \
                and all(is_const(a) for a in args):
            try:
                r = getattr(cval(o), name)(*[cval(a) for a in args])
                if isinstance(r, list):
                    return T('list', *[const(x) for x in r]), st
                return const(r), st
            except Exception:
                pass
        if name in ('decode', 'encode') and False:
            return o, st
        if name in ('failed', 'passed') and na == 0:
            k = ('passed', o)
            if k in st.heap:
                f = tobool(st.heap[k])
                return F(f if name == 'passed' else f_not(f)), st
            t = T('bcall', '.' + 'passed', o)
            return (t if name == 'passed' else F(f_not(atom(t)))), st
        if name in ('_err', '_warn', '_rec', '_add_issue') and na >= 2:
            st.heap[('passed', args[0])] = F(tobool(args[2] if name == '_add_issue' else args[1]))
            return None
        if name == '__contains__' and na == 1:
            return F(f_in(args[0], o)), st
        if name == '__getitem__' and na == 1:
            return self.index(o, args[0], st), st
        if name in ('exists', 'isfile', 'isdir') and na == 1:
            t = T('bcall', '.' + name, o, args[0])
            self.emit('call', name, o, args, kw, st, n, t)
            return t, st
        if name in ('exists', 'isfile', 'isdir', 'isdigit', 'is_head_multibag', 'is_set') and na == 0:
            t = T('bcall', '.' + name, o)
            self.emit('call', name, o, args, kw, st, n, t)
            return t, st
        if name in ('match', 'search', 'fullmatch') and na >= 1:
            return T('match', name, o, args[0]), st
        if name == 'append' and na == 1:
            self.emit('mutate', 'append', o, args, kw, st, n)
            return NONE, st
        if name == 'setdefault' and na >= 1:
            d = args[1] if na > 1 else NONE
            e = self.emit('mutate', 'setdefault', o, args, kw, st, n)
            v = mk_ite(f_in(args[0], o), self.index(o, args[0], st), d)
            return T('setdef', o, args[0], d), st
        if name == '__next__' and na == 0:
            return self.do_next(o, args, st, n)
        if name == 'reverse' and na == 0 and o.op in ('comp', 'copy', 'slice', 'call'):
            # a local list turned round in place
            nms = [a for a in st.env if isinstance(st.env[a], Term) and
                   (st.env[a] is o or st.env[a].op == 'ite' and resolve_by(st.env[a], st.guard) is o)]
            if nms and not any(v is o for k, v in st.heap.items()):
                for nm in nms:
                    st.env[nm] = T('copy', 'rev', o)
                self.replaced.append((o, T('copy', 'rev', o), st.guard, len(self.loopctx)))
                return NONE, st
        if name == 'pop' and na <= 1 and (na == 0 or is_const(args[0]) and cval(args[0]) in (0, -1)) and \
                all(fields_of(x) is not None for x in _alts(o)):
            k = args[0] if na else const(-1)
            v = self.index(o, k, st)
            new = self.slice(o, const(1), NONE, NONE) if cval(k) == 0 else self.slice(o, NONE, const(-1), NONE)
            for nm in [a for a in st.env if isinstance(st.env[a], Term) and
                       (st.env[a] is o or st.env[a].op == 'ite' and resolve_by(st.env[a], st.guard) is o)]:
                st.env[nm] = new
            self.replaced.append((o, new, st.guard, len(self.loopctx)))
            return v, st
        return None

    def do_next(self, it, args, st, n):
        b, order = self.norm_iter(it)
        if b.op == 'comp':
            ex = tobool(b)
            v = T('first', b)
            if len(args) > 1:
                if b.args[1].op == 'const':
                    v = b.args[1]
                return mk_ite(ex, v, args[1]), st
            return v, st
        t = T('call', 'next', it, *args[1:])
        self.emit('call', 'next', None, [it] + list(args[1:]), {}, st, n, t)
        return t, st

    # ------------------------------------------------------------ inlining
    def call_func(self, fi, cls, args, kw, st, fr, node, recv=None, force=False, on_yield=None, closure=None):
        if fi.is_gen and on_yield is None:
            inl = False
        else:
            inl = (force and fi not in [f.func for f in self.stack] and len(self.stack) <= self.MAXDEPTH) \
                or self.may_inline(fi)
        if not inl:
            a = args[1:] if (fi.cls is not None and fi.kind == 'func' and args) else \
                (args[1:] if fi.kind == 'class' else args)
            r = args[0] if (fi.cls is not None and fi.kind == 'func' and args) else (recv if recv is not None else None)
            kws = tuple(T('kw', k, v) for k, v in sorted(kw.items()))
            full = normal_args(fi, a, kw)
            op = 'bcall' if fi.name in ('is_head_multibag', 'exists', 'isfile', 'isdir', 'is_headbag') else 'call'
            nm = ('.' + fi.name) if r is not None else fi.name
            rr = (r,) if r is not None else ()
            t = T(op, nm, *(rr + tuple(a) + kws))
            if fi.is_gen and fi.name not in self.opaque and closure is not None:
                t = T('gencall', closure, *(tuple(a) + kws))
            e = self.emit('call', fi.name, r, a, kw, st, node, t)
            return t, st
        env, pe = self.bind_params(fi, cls, args, kw, st, fr)
        nf = Frame(fi, cls if cls is not None else fi.cls)
        nf.loopbase = len(self.loopctx)
        nf.on_yield = on_yield
        if closure is not None:
            cfi, cfr, cenv = self.closures[closure]
            # the defining frame's current environment when it is the caller, else its captured one
            nf.parent_env = (st.env if cfr is fr else cenv, cfr.parent_env)
        self.visited.add(fi)
        inner = State(env, st.heap, st.guard)
        given, nrep, depth, g0 = list(env.values()), len(self.replaced), len(self.loopctx), st.guard
        self.stack.append(nf)
        if isinstance(fi.node, ast.Lambda):
            v, inner = self.ev(fi.node.body, inner, nf)
            self.stack.pop()
            return v, State(st.env, inner.heap, inner.guard)
        end = self.block(fi.node.body, inner, nf)
        self.stack.pop()
        if not end.dead:
            nf.returns.append([end.guard, NONE, end.heap, None])
        if not nf.returns:
            return T('never'), State(st.env, st.heap, FALSE)
        val = self.join_values([(r[0], r[1]) for r in nf.returns])
        merged = self.join([State({}, r[2], r[0]) for r in nf.returns])
        cenv = st.env
        for old, new, g, d in self.replaced[nrep:]:
            # the caller sees what was done to the list it passed
            if d == depth and any(old is v for v in given):
                c = simplify_by(g, g0)
                new = new if c is TRUE else mk_ite(c, new, old)
                cenv = dict((k, new if v is old else v) for k, v in cenv.items())
                given.append(new)
        return val, State(cenv, merged.heap, merged.guard)

    def bind_params(self, fi, cls, args, kw, st, fr):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        for i, p in enumerate(pos):
            if i < len(args) and args[i].op != 'star':
                env[p] = args[i]
            elif p in kw:
                env[p] = kw.pop(p)
        if len(args) > len(pos):
            rest = args[len(pos):]
            if a.vararg:
                if len(rest) == 1 and rest[0].op == 'star':
                    env[a.vararg.arg] = T('copy', 'tuple', rest[0].args[0])
                else:
                    env[a.vararg.arg] = T('tuple', *rest)
        elif a.vararg:
            env[a.vararg.arg] = T('tuple')
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
        if a.kwarg:
            o = self.newobj('dict')
            for k, v in kw.items():
                st.heap[('idx', o, const(k))] = v
            env[a.kwarg.arg] = o
        # defaults
        defs = a.defaults
        for p, d in zip(pos[len(pos) - len(defs):], defs):
            if p not in env:
                dummy = Frame(fi, None)
                v, _ = self.ev(d, State({}, {}, TRUE), dummy)
                env[p] = v
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                v, _ = self.ev(d, State({}, {}, TRUE), Frame(fi, None))
                env[x.arg] = v
        for p in pos:
            if p not in env:
                env[p] = T('unbound_arg', p)
        return env, None

    def instantiate(self, clsname, args, kw, st, fr, node):
        c = self.prog.classes.get(clsname)
        kws = tuple(T('kw', k, v) for k, v in sorted(kw.items()))
        t = T('inst', clsname, *(tuple(args) + kws))
        if c is None:
            self.emit('call', clsname, None, args, kw, st, node, t)
            return t, st
        self.emit('call', clsname, None, args, kw, st, node, t)
        ext = [b for b in c.ext_bases() if b.split('.')[-1] not in ('object', 'ABC')]
        init = c.find('__init__')
        if init is not None and not ext and init not in [f.func for f in self.stack] and \
                clsname not in self.opaque and len(self.stack) <= self.MAXDEPTH:
            _, st = self.call_func(init, c, [t] + list(args), kw, st, fr, node, force=True)
        return t, st

    # ------------------------------------------------------------ external functions
    def ext_call(self, name, n, st, fr):
        # any()/all() over a generator expression, list(gen())
        short = name.split('.')[-1]
        if name in ('list', 'tuple', 'set', 'sorted', 'OrderedDict', 'collections.OrderedDict', 'dict', 'frozenset') \
                and len(n.args) >= 1:
            g = self.gen_call(n.args[0], st, fr)
            if g is not None:
                fi, cls, recv, node, st = g
                args, kw, st = self.eval_args(node, st, fr)
                kind = 'dict' if 'ict' in name else 'list'
                return self.collect_generator(fi, cls, recv, args, kw, st, fr, node, kind)
        args, kw, st = self.eval_args(n, st, fr)
        return self.ext_apply(name, args, kw, n, st, fr)

    def ext_apply(self, name, args, kw, n, st, fr):
        if name in RE_FLAGS_AT:
            args, kw = fold_flags(name, args, kw)
        na = len(args)
        kws = tuple(T('kw', k, v) for k, v in sorted(kw.items()))
        a0 = args[0] if args else None
        short = name.split('.')[-1]
        # ---- containers
        if name in ('list', 'set', 'dict', 'tuple', 'frozenset', 'collections.OrderedDict', 'OrderedDict',
                    'collections.deque', 'collections.defaultdict', 'collections.Counter'):
            if na == 0 and not kw or name.endswith('defaultdict'):
                return self.newobj('dict' if 'ict' in name else 'set' if 'set' in name else 'list'), st
            if na == 1 and not kw:
                if a0.op in ('list', 'tuple') and name in ('list', 'tuple', 'set', 'frozenset'):
                    return T('list' if name in ('list',) else 'tuple' if name == 'tuple' else 'set', *a0.args), st
                if a0.op == 'comp' and name in ('list', 'tuple', 'set', 'frozenset'):
                    return T('comp', 'set' if 'set' in name else 'list', *a0.args[1:]), st
                k = {'list': 'list', 'tuple': 'tuple', 'set': 'set', 'frozenset': 'set'}.get(name, 'dict')
                if k == 'dict' and a0.op == 'comp':
                    return T('comp', 'dict', *a0.args[1:]), st
                return T('copy', k, a0), st
        if name == 'sorted' and na >= 1:
            return T('copy', 'sorted', a0), st
        if name == 'reversed' and na == 1:
            if a0.op in ('list', 'tuple'):
                return T('list', *reversed(a0.args)), st
            if a0.op == 'range' and a0.args[0].op == 'rangelen':
                pass
            return T('copy', 'rev', a0), st
        if name == 'enumerate' and na >= 1:
            start = args[1] if na > 1 else kw.get('start', const(0))
            if is_const(start) and cval(start) == 0:
                if a0.op in ('list', 'tuple'):
                    return T('list', *[T('tuple', const(i), v) for i, v in enumerate(a0.args)]), st
                return T('enumerate', a0), st
            return T('enumerate', a0, start), st
        if name in ('range', 'xrange'):
            if na == 1 and a0.op == 'len':
                return T('rangelen', a0.args[0]), st
            if na == 2 and is_const(a0) and cval(a0) == 0 and args[1].op == 'len':
                return T('rangelen', args[1].args[0]), st
            if na == 3 and args[0].op == 'sub' and args[0].args[0].op == 'len' and is_const(args[1]) and \
                    cval(args[1]) == -1 and is_const(args[2]) and cval(args[2]) == -1:
                return T('copy', 'rev', T('rangelen', args[0].args[0].args[0])), st
            if all(is_const(a) for a in args) and na == 1 and isinstance(cval(a0), int) and cval(a0) <= 12:
                return T('list', *[const(i) for i in range(cval(a0))]), st
            return T('range', *args), st
        if name == 'zip':
            return mk_zip(args), st
        if name == 'iter' and na == 1:
            return a0, st
        if name == 'iter' and na == 2 and a0.op == 'closure':
            v, st = self.call_func(self.closures[a0][0], None, [], {}, st, fr, n, closure=a0, force=True)
            return T('iter2', v, args[1]), st
        if name == 'next':
            return self.do_next(a0, args, st, n)
        if name == 'len' and na == 1:
            b = strip_copy(a0) if a0.op == 'copy' and a0.args[0] != 'set' else a0
            if b.op in ('list', 'tuple'):
                return const(len(b.args)), st
            if is_const(b):
                try:
                    return const(len(cval(b))), st
                except TypeError:
                    pass
            return T('len', b), st
        if name in ('any', 'all') and na == 1:
            return F(self.quant(name, a0)), st
        if name == 'sum' and na >= 1 and a0.op == 'comp' and len(a0.args[2]) == 1:
            k_, e, g_, c_ = a0.args
            if e.op == 'const' and cval(e) == 1:
                return T('count', a0), st
            return T('accum', g_[0].args[0], c_, e, const(0)), st
        if name == 'filter' and na == 2:
            el = T('elem', strip_copy(args[1]))
            r, st = self.apply(a0, [el], {}, n, st, fr) if a0 is not NONE else (el, st)
            b, order = self.norm_iter(args[1])
            return T('comp', 'gen', el, (T('gen', b, T('order', *order)),), T('F', tobool(r))), st
        if name == 'map' and na == 2:
            b, order = self.norm_iter(args[1])
            if b.op == 'comp':
                r, st = self.apply(a0, [b.args[1]], {}, n, st, fr)
                return T('comp', 'gen', r, b.args[2], b.args[3]), st
            if b.op in ('list', 'tuple'):
                out = []
                for x in b.args:
                    r, st = self.apply(a0, [x], {}, n, st, fr)
                    out.append(r)
                return T('list', *out), st
            el = T('elem', b)
            r, st = self.apply(a0, [el], {}, n, st, fr)
            return T('comp', 'gen', r, (T('gen', b, T('order', *order)),), T('F', TRUE)), st
        if name == 'bool' and na == 1:
            return F(tobool(a0)), st
        if name in ('str', 'unicode') and na == 1:
            return (const(str(cval(a0))) if is_const(a0) else a0), st
        if name == 'str' and na == 0:
            return const(''), st
        if name == 'isinstance' and na == 2:
            return F(self.isinst(a0, args[1])), st
        if name == 'callable' and na == 1:
            return T('callable', a0), st
        if name == 'hasattr' and na == 2:
            return T('hasattr', a0, args[1]), st
        if name == 'getattr' and na >= 2 and is_const(args[1]):
            v, st = self.getattr(a0, cval(args[1]), st, fr, n)
            if na == 3:
                return mk_ite(atom(T('hasattr', a0, args[1])), v, args[2]), st
            return v, st
        if name == 'setattr' and na == 3 and is_const(args[1]):
            self.emit('setattr', cval(args[1]), a0, [args[2]], {}, st, n)
            st.heap[('attr', a0, cval(args[1]))] = args[2]
            return NONE, st
        if name in ('bagit._', '_') and na == 1:
            return a0, st
        # ---- paths
        if name in ('os.path.join', 'posixpath.join', 'fs.path.join', 'fs.path.combine'):
            if any(a.op == 'star' for a in args):
                return T('call', name, *args), st
            return mk_path(args), st
        if name in EXISTS_FN and na == 1:
            k = EXISTS_FN[name]
            p = resolve_by(a0, st.guard)
            if ('fs', p) in st.heap:
                v = st.heap[('fs', p)]
                return resolve_by(v, st.guard), st
            return T(k, p), st
        if name == 'os.path.dirname' and na == 1 and a0.op == 'path' and len(a0.args) > 1:
            last = a0.args[-1]
            if is_const(last) and cval(last) and '/' not in str(cval(last)):
                return (T('path', *a0.args[:-1]) if len(a0.args) > 2 else a0.args[0]), st
        if name == 'os.path.basename' and na == 1 and a0.op == 'path' and is_const(a0.args[-1]) and cval(a0.args[-1]):
            return a0.args[-1], st
        if name in ('open', 'io.open', 'codecs.open'):
            kw = dict(kw)
            if na > 1:
                kw.setdefault('mode', args[1])
            if name == 'codecs.open':
                if na > 2:
                    kw.setdefault('encoding', args[2])
            elif na > 3:
                kw.setdefault('encoding', args[3])
            mode = kw.get('mode', const('r'))
            path = a0 if a0 is not None else kw.get('file', kw.get('filename', NONE))
            self.objn += 1
            t = T('file', path, mode, kw.get('encoding', NONE), self.objn)
            self.emit('open', name, None, [path, mode], kw, st, n, t)
            if is_const(mode) and any(ch in cval(mode) for ch in 'wax+'):
                st.heap[('fs', path)] = const(True)
            return t, st
        if name == 'hashlib.new' or name in PURE_EXT:
            t = T('call', name, *(tuple(args) + kws))
            return t, st
        if name.startswith('re.') and short in ('match', 'search', 'fullmatch') and na >= 2:
            return T('match', short, T('call', 're.compile', a0), args[1]), st
        # ---- package class or exception by external-looking name
        if short[:1].isupper() and (short.endswith('Error') or short.endswith('Exception') or short == 'StopIteration'):
            return T('call', short, *(tuple(args) + kws)), st
        # ---- effects
        t = T('call', name, *(tuple(args) + kws))
        self.emit('call', name, None, args, kw, st, n, t)
        if name in ('os.remove', 'os.unlink', 'shutil.rmtree', 'os.rmdir') and a0 is not None:
            st.heap[('fs', a0)] = const(False)
        elif name in ('os.mkdir', 'os.makedirs') and a0 is not None:
            st.heap[('fs', a0)] = const(True)
        elif name in ('os.rename', 'os.renames', 'shutil.move', 'os.replace') and na > 1:
            st.heap[('fs', a0)] = const(False)
            st.heap[('fs', args[1])] = const(True)
        return t, st

    def quant(self, name, a):
        pol = name == 'any'
        b = strip_copy(a)
        if b.op == 'comp':
            kind, e, gens, cond = b.args
            n = tobool(e)
            if not pol:
                n = f_not(n)
            r = comp_exists(b, n)
            return r if pol else f_not(r)
        if b.op in ('list', 'tuple', 'set'):
            fs = [tobool(x) for x in b.args]
            return f_or(*fs) if pol else f_and(*fs)
        if b.op == 'condlist':
            if pol:
                return f_or(*[f_and(tobool(c.args[0]), tobool(c.args[1])) for c in b.args])
            return f_and(*[f_or(f_not(tobool(c.args[0])), tobool(c.args[1])) for c in b.args])
        n = tobool(T('elem', b))
        if not pol:
            n = f_not(n)
        r = mk_exists(b, n)
        return r if pol else f_not(r)

    def isinst(self, o, c):
        if c.op in ('tuple', 'list'):
            return f_or(*[self.isinst(o, x) for x in c.args])
        if o.op == 'ite':
            return f_ite(o.args[0], self.isinst(o.args[1], c), self.isinst(o.args[2], c))
        cn = c.args[0].split('.')[-1] if c.op in ('ext', 'cls') else show(c)
        if cn in ('unicode', 'basestring'):
            cn = 'str'
        cls = self.typeof(o)
        if cls is not None and c.op in ('cls', 'ext') and cls.is_subclass_of(cn):
            return TRUE
        if o.op == 'inst' and cls is not None and cn in ('str', 'bytes', 'list', 'tuple', 'dict', 'set', 'int'):
            return FALSE
        if o.op == 'inst' and c.op == 'cls' and cls is not None and not cls.ext_bases():
            return FALSE
        if is_const(o):
            k = {'str': str, 'list': list, 'tuple': tuple, 'int': int, 'dict': dict, 'bool': bool}.get(cn)
            if k:
                return TRUE if isinstance(cval(o), k) else FALSE
            if c.op == 'cls':
                return FALSE
        if o.op in ('list', 'tuple', 'set') and cn in ('list', 'tuple', 'set', 'str', 'dict'):
            return TRUE if o.op == cn else FALSE
        if o.op == 'copy' and cn in ('list', 'str', 'dict', 'tuple', 'set') and o.args[0] in ('list', 'tuple', 'set', 'dict'):
            return TRUE if o.args[0] == cn else FALSE
        if o.op == 'obj' and cn in ('list', 'str', 'dict', 'tuple', 'set'):
            return TRUE if o.args[0] == cn else FALSE
        if o.op in ('concat', 'path', 'join') and cn in ('list', 'str', 'dict', 'tuple', 'set'):
            return TRUE if cn == 'str' else FALSE
        return atom(T('isinstance', o, cn))


def late_raise(body, name):
    """can an exception leave these statements after they have (re)assigned the variable?"""
    def scan(stmts, inloop):
        # -> (assigned, raised after an assignment)
        done = late = False
        for x in stmts:
            sub = [getattr(x, f) for f in ('body', 'orelse', 'finalbody') if isinstance(getattr(x, f, None), list)]
            sub += [h.body for h in getattr(x, 'handlers', [])]
            here = any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(x))
            calls_ = any(isinstance(n, (ast.Call, ast.Subscript, ast.Raise)) for n in ast.walk(x))
            if done and calls_:
                late = True
            if here and isinstance(x, (ast.For, ast.While)) and (calls_ or isinstance(x, ast.For)):
                late = True
            if here and sub:
                for b in sub:
                    if scan(b, inloop)[1]:
                        late = True
            done = done or here
        return done, late
    return scan(body, False)[1]


def normal_args(fi, args, kw):
    return args


def _alts(t):
    return _alts(t.args[1]) + _alts(t.args[2]) if t.op == 'ite' else [t]


def strip_ite_obj(t):
    return t.op == 'obj' and t.args[0] in ('list', 'set', 'dict')


def excname(v):
    if v.op in ('call', 'inst'):
        return str(v.args[0]).split('.')[-1]
    if v.op in ('cls', 'ext'):
        return str(v.args[0]).split('.')[-1]
    if v.op == 'excval':
        return v.args[0]
    return 'Exception'


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode='eval').body
    for x in ast.walk(t2):
        x.lineno = getattr(t, 'lineno', 0)
        x.col_offset = 0
    return t2


def rewrite_index_while(s, st, an, fr):
    """`i = 0; while i < len(x): ... x[i] ...; i += 1`  ->  iteration over x"""
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    i = l = None
    if isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name):
        i, l = t.left.id, t.comparators[0]
    elif isinstance(t.ops[0], ast.Gt) and isinstance(t.comparators[0], ast.Name):
        i, l = t.comparators[0].id, t.left
    if i is None or not (isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == 'len'):
        return None
    init = st.env.get(i)
    if init is None or not is_const(init) or cval(init) != 0:
        return None
    # exactly one assignment of i in the body: `i += 1`, at top level; nothing that skips it
    asg = [x for b in s.body for x in ast.walk(b)
           if (isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == i) or
           (isinstance(x, ast.Assign) and any(isinstance(z, ast.Name) and z.id == i for tt in x.targets
                                              for z in ast.walk(tt)))]
    if len(asg) != 1 or not isinstance(asg[0], ast.AugAssign) or not isinstance(asg[0].op, ast.Add) or \
            not (isinstance(asg[0].value, ast.Constant) and asg[0].value.value == 1) or asg[0] not in s.body:
        return None
    k = s.body.index(asg[0])

    def has_continue(nodes):
        for x in nodes:
            if isinstance(x, ast.Continue):
                return True
            if isinstance(x, (ast.For, ast.While, ast.FunctionDef)):
                continue
            if has_continue(ast.iter_child_nodes(x)):
                return True
        return False
    if has_continue(s.body[:k]):
        return None
    x, st = an.ev(l.args[0], st, fr)
    if x.op == 'obj' and False:
        return None
    # the sequence must not shrink/grow in the body (a draining loop is not an iteration)
    nm = ast.unparse(l.args[0])
    for b in s.body:
        for z in ast.walk(b):
            if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and z.func.attr in MUTATORS and \
                    ast.unparse(z.func.value) == nm:
                return None
    rest = s.body[k + 1:]
    if any(isinstance(z, ast.Name) and z.id == i for b in rest for z in ast.walk(b)):
        return None
    body = s.body[:k] + rest
    fake = ast.For(target=ast.Name(id=i, ctx=ast.Store()), iter=l, body=body, orelse=s.orelse, lineno=s.lineno,
                   col_offset=0)
    it = T('rangelen', x)
    return an.for_over(it, lambda stt, el: an.assign(fake.target, el, stt, fr, fake), fake, st, fr)
