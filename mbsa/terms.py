"""
Hash-consed value terms and boolean guard formulas (reduced ordered BDDs).

A *term* abstracts the value of an expression; two expressions that compute the
same value in the recognised idioms get the same (identical) term.  A *guard* is
a BDD over atoms (boolean terms).  No paths are enumerated and no solver is used:
guards of merged control flow are BDD disjunctions, merged values are gated
(`ite`) terms.
"""
import sys
sys.setrecursionlimit(20000)


class Term(object):
    __slots__ = ('op', 'args', 'uid', '_subs', '_str')
    _table = {}
    _n = 0

    def __repr__(self):
        return show(self)


def T(op, *args):
    key = (op,) + args
    t = Term._table.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        t._subs = None
        t._str = None
        Term._n += 1
        t.uid = Term._n
        Term._table[key] = t
    return t


class _K(object):
    """wrapper that keeps True/1/1.0 and ''/b'' constants apart"""
    __slots__ = ('v',)
    _tab = {}

    def __new__(cls, v):
        key = (type(v).__name__, v)
        try:
            k = cls._tab.get(key)
        except TypeError:
            key = (type(v).__name__, repr(v))
            k = cls._tab.get(key)
        if k is None:
            k = object.__new__(cls)
            k.v = v
            cls._tab[key] = k
        return k

    def __repr__(self):
        return repr(self.v)


def const(v):
    return T('const', _K(v))


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0].v


NONE = const(None)


def is_none(t):
    return t is NONE


def subterms(t):
    """frozenset of all subterms of t (inclusive); formulas contribute their atoms' subterms"""
    if t._subs is not None:
        return t._subs
    out = {t}
    for a in t.args:
        if isinstance(a, Term):
            out |= subterms(a)
        elif isinstance(a, BNode):
            for at in support(a):
                out |= subterms(at)
    t._subs = frozenset(out)
    return t._subs


def contains(t, sub):
    return sub in subterms(t)


def show(t, depth=0):
    if t._str is None or True:
        t._str = _show(t, depth)
    return t._str


def _show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, BNode):
            return fshow(t, depth + 1)
        return repr(t)
    if depth > 9:
        return '..'
    o, a = t.op, t.args
    d = depth + 1
    if o == 'const':
        return repr(a[0].v)
    if o in ('param', 'local', 'ext', 'global', 'cls', 'func'):
        return str(a[0])
    if o == 'self':
        return 'self'
    if o == 'attr':
        return "%s.%s" % (_show(a[0], d), a[1])
    if o == 'index':
        return "%s[%s]" % (_show(a[0], d), _show(a[1], d))
    if o == 'path':
        return "path(%s)" % ", ".join(_show(x, d) for x in a)
    if o == 'concat':
        return "cat(%s)" % ", ".join(_show(x, d) for x in a)
    if o == 'F':
        return "{%s}" % fshow(a[0], d)
    if o == 'ite':
        return "ite(%s ? %s : %s)" % (fshow(a[0], d), _show(a[1], d), _show(a[2], d))
    if o == 'obj':
        return "<%s#%s>" % (a[0], a[1])
    return "%s(%s)" % (o, ", ".join(_show(x, d) for x in a))


# --------------------------------------------------------------------------- BDD

class BNode(object):
    __slots__ = ('var', 'lo', 'hi', '_sup')
    _table = {}

    def __repr__(self):
        return fshow(self)


TRUE = BNode.__new__(BNode)
TRUE.var = None
TRUE.lo = TRUE.hi = None
TRUE._sup = frozenset()
FALSE = BNode.__new__(BNode)
FALSE.var = None
FALSE.lo = FALSE.hi = None
FALSE._sup = frozenset()

_INF = 1 << 60


def _lvl(n):
    return _INF if n.var is None else n.var.uid


def _mk(var, lo, hi):
    if lo is hi:
        return lo
    key = (var, lo, hi)
    n = BNode._table.get(key)
    if n is None:
        n = BNode.__new__(BNode)
        n.var, n.lo, n.hi = var, lo, hi
        n._sup = None
        BNode._table[key] = n
    return n


def atom(t):
    return _mk(t, FALSE, TRUE)


_ite_memo = {}


def f_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    v = min((c, a, b), key=_lvl).var

    def co(n, hi):
        if n.var is v:
            return n.hi if hi else n.lo
        return n
    r = _mk(v, f_ite(co(c, False), co(a, False), co(b, False)),
            f_ite(co(c, True), co(a, True), co(b, True)))
    _ite_memo[key] = r
    return r


def f_not(a):
    return f_ite(a, FALSE, TRUE)


def f_and(*xs):
    r = TRUE
    for x in xs:
        r = f_ite(r, x, FALSE)
    return r


def f_or(*xs):
    r = FALSE
    for x in xs:
        r = f_ite(r, TRUE, x)
    return r


def implies(a, b):
    return f_and(a, f_not(b)) is FALSE


def support(n):
    """frozenset of atoms in the formula"""
    if n._sup is None:
        n._sup = frozenset([n.var]) | support(n.lo) | support(n.hi)
    return n._sup


def restrict(n, asg):
    """substitute truth values (dict atom->bool) for atoms"""
    if not asg:
        return n
    memo = {}

    def go(x):
        if x.var is None:
            return x
        r = memo.get(x)
        if r is None:
            if x.var in asg:
                r = go(x.hi if asg[x.var] else x.lo)
            else:
                r = f_ite(atom(x.var), go(x.hi), go(x.lo))
            memo[x] = r
        return r
    return go(n)


def substitute(n, fn):
    """replace every atom t by the formula fn(t)"""
    memo = {}

    def go(x):
        if x.var is None:
            return x
        r = memo.get(x)
        if r is None:
            r = f_ite(fn(x.var), go(x.hi), go(x.lo))
            memo[x] = r
        return r
    return go(n)


def simplify_by(n, care):
    """simplify n knowing that `care` holds (restrict atoms forced by care)"""
    if care is TRUE or n.var is None:
        return n
    if implies(care, n):
        return TRUE
    if f_and(care, n) is FALSE:
        return FALSE
    asg = {}
    for at in support(n) & support(care):
        a = atom(at)
        if implies(care, a):
            asg[at] = True
        elif implies(care, f_not(a)):
            asg[at] = False
    return restrict(n, asg)


def fshow(n, depth=0):
    """a readable sum-of-products (bounded)"""
    if n is TRUE:
        return 'True'
    if n is FALSE:
        return 'False'
    outs = []

    def go(x, acc):
        if len(outs) > 12:
            return
        if x is TRUE:
            outs.append(' & '.join(acc) or 'True')
        elif x is not FALSE:
            s = _show(x.var, depth + 1)
            go(x.hi, acc + [s])
            go(x.lo, acc + ['~' + s])
    go(n, [])
    if len(outs) > 12:
        outs = outs[:12] + ['...']
    return ' | '.join(outs)


def F(node):
    """boolean value term"""
    if node is TRUE:
        return const(True)
    if node is FALSE:
        return const(False)
    if node.lo is FALSE and node.hi is TRUE and node.var.op not in ('truthy',):
        return node.var
    return T('F', node)
