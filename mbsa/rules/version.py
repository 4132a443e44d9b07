"""rules for comparing profile versions (constants)"""
import ast
from ..query import *
from ..shapes import Shape, UNKNOWN
from ..terms import TRUE, FALSE, NONE
from ..engine import tobool

VERSIONS = ('0.2', '0.3', '0.4', '0.9', '0.10', '0.3.1', '1', '1.0', '2.0', '10.0', '0.04', '', '0.3.1.2', '0.3.1.10', '1.2.3.4.5', '1.2.3.4.10')
OTHER = T('param', 'other')
OPS = {'__eq__': lambda a, b: a == b, '__ne__': lambda a, b: a != b, '__lt__': lambda a, b: a < b, '__le__': lambda a, b: a <= b,
       '__gt__': lambda a, b: a > b, '__ge__': lambda a, b: a >= b}


def num(v):
    return tuple(int(x) if x.isdigit() else -1 for x in v.split('.'))


def plain(v):
    return tuple(v) if isinstance(v, (list, tuple)) else v


def maker(val, kind):
    """facts for the value of one argument, given as a string, a tuple or a Version"""
    def facts(a, s):
        if a.op == 'isinstance':
            if kind == 'Version':
                return a.args[1] == 'Version'
            v = s.val(a.args[0])
            if isinstance(v, str):
                return a.args[1] in ('str', 'unicode')
            return a.args[1] == kind
        if a.op == 'exc' and 'ValueError' in str(a.args[1]):
            els = [v for k, v in s.env.items() if isinstance(k, Term) and k.op == 'elem']
            if len(els) == 1:
                return not str(els[0]).isdigit()
        if a.op in ('call', 'bcall') and a.args[0] == '.isdigit':
            v = s.val(a.args[1])
            return v.isdigit() if isinstance(v, str) else None
        return None
    return facts


def fields_of_value(c, v):
    """what a Version made of v holds as its fields"""
    an = c.an('Version.__init__')
    sh = Shape({T('param', 'vers'): v}, maker(v, type(v).__name__))
    got, text = [], []
    for e in an.events:
        if e.kind == 'setattr' and e.recv.op == 'self' and e.name in ('fields', '_vs'):
            g = sh.truth(e.guard)
            if g is not False:
                (got if e.name == 'fields' else text).append(sh.val(e.args[0]) if g else UNKNOWN)
    rs = [e for e in an.events if e.kind == 'raise' and sh.truth(e.guard) is not False]
    return got, text, rs


@rule('C31', 'version-fields', "a version keeps the numbers between the dots of its text, in order, and its text", floor=20)
def fields(c, r):
    an = c.an('Version.__init__')
    for v in VERSIONS:
        for kind in (str, tuple):
            x = v if kind is str else num(v)
            got, text, rs = fields_of_value(c, x)
            r.ok(not rs, rs[0] if rs else an.entry, '%r refused' % (x,), "the version %r is refused" % (x,))
            want = num(v)
            r.ok(len(got) == 1 and plain(got[0]) == want, an.entry, 'fields of %r' % (x,), "the version %r is read as %r" % (x, got))
            r.ok(text == [v if kind is str else '.'.join(str(n) for n in x)], an.entry, 'text of %r' % (x,), "the text of version %r is kept as %r" % (x, text))
    st = c.an('Version.__str__').retval()
    r.ok(attr_of(st, '_vs'), an.entry, 'text', "a version's text is given as %s" % show(st)[:80])


def sequence_type(n):
    if isinstance(n, (ast.List, ast.ListComp)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'sorted'):
        return 'list'
    if isinstance(n, ast.Tuple) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'tuple':
        return 'tuple'
    return None


@rule('C31', 'version-forms', "the numbers of two versions are compared in one form, lists with lists or tuples with tuples, however the versions were made", floor=1)
def forms(c, r):
    cls = c.prog.cls('Version')
    kinds = set()
    for m in cls.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'fields' for t in n.targets):
                kinds.add(sequence_type(n.value))
    an = c.an('Version.__init__')
    r.ok(kinds, an.entry, 'kept', "a version keeps no numbers")
    if kinds != {'list', 'tuple'}:
        return
    for m in cls.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Compare):
                raw = [x for x in [n.left] + n.comparators if isinstance(x, ast.Attribute) and x.attr == 'fields']
                r.ok(not raw, m, m.name + ' compares', "the numbers of versions are compared as they are kept (line %d), as a list for one and a tuple for another" % n.lineno)


@rule('C31', 'version-order', "two versions compare as the sequences of their numbers do, with all six comparisons and for every way in which the other "
      "version is given", floor=300)
def order(c, r):
    selfs = {}
    for op in sorted(OPS):
        an = c.an('Version.' + op)
        v = an.retval()
        me = [t for t in subterms(v) if isinstance(t, Term) and t.op == 'self']
        if not r.ok(me, an.entry, op, "%s does not look at the version" % op):
            continue
        me = me[0]
        rs = [e for e in an.events if e.kind == 'raise']
        for kind in ('Version', 'str', 'tuple'):
            bad = []
            for a in VERSIONS:
                for b in VERSIONS:
                    A, B = num(a), num(b)
                    rel = (A > B) - (A < B)
                    base = maker(b, kind)

                    def side(t):
                        x = me in subterms(t)
                        y = OTHER in subterms(t)
                        return 'a' if x and not y else 'b' if y and not x else None

                    def facts(f, s, rel=rel, base=base, op=op):
                        if f.op == 'is':
                            return False
                        if f.op in ('lt', 'eq'):
                            x, y = (s.val(z) for z in f.args)
                            x, y = plain(x), plain(y)
                            if isinstance(x, tuple) and isinstance(y, tuple):
                                try:
                                    return x < y if f.op == 'lt' else x == y
                                except TypeError:
                                    return None
                            if op in ('__lt__', '__eq__') and (f.op == 'lt') == (op == '__lt__'):
                                return None
                            p, q = (side(z) for z in f.args)
                            if {p, q} != {'a', 'b'} or any(z.op not in ('self', 'param', 'inst', 'call', 'ite', 'ver') for z in f.args):
                                return None
                            if f.op == 'eq':
                                return rel == 0
                            return rel < 0 if p == 'a' else rel > 0
                        return base(f, s)

                    env = {T('attr', me, 'fields'): list(A), T('attr', me, '_vs'): a}
                    if kind == 'Version':
                        env[T('attr', OTHER, 'fields')] = list(B)
                        env[T('attr', OTHER, '_vs')] = b
                    else:
                        env[OTHER] = b if kind == 'str' else B
                    sh = Shape(env, facts)
                    want = OPS[op](A, B)
                    got = sh.truth(tobool(v))
                    hit = [e for e in rs if sh.truth(e.guard) is not False]
                    r.ok(got is want and not hit, hit[0] if hit else an.entry, '%s %s %s (%s)' % (a or "''", op, b or "''", kind),
                         "%r %s %r (given as %s) is %s" % (a, op.strip('_'), b, kind, 'refused' if hit else 'not known' if got is None else got))
