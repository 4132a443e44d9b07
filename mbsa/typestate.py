"""
A typestate analysis: which class an object has after a function has run on it, and which of its fields were set.

The abstract state of an object is its class and the set of fields assigned to it; classes, booleans and constants are tracked
through variables, everything else is unknown.  A branch on an unknown condition is followed both ways.  Calls into the package are
followed; calls of anything else return an unknown value and change nothing.
"""
import ast
from .program import ClassInfo, FuncInfo

UNK = ('unknown',)
MAXPATHS = 4000


class Obj(object):
    def __init__(self, cls):
        self.cls = cls              # ClassInfo, or the name of a class outside of the package
        self.fields = ()            # names in order of assignment
        self.called = ()


class State(object):
    def __init__(self, objs=()):
        self.objs = [self._cp(o) for o in objs]
        self.why = ()
        self.forked = ()

    @staticmethod
    def _cp(o):
        n = Obj(o.cls)
        n.fields, n.called = o.fields, o.called
        return n

    def copy(self):
        s = State(self.objs)
        s.why, s.forked = self.why, self.forked
        return s


def names_of(cls):
    if isinstance(cls, ClassInfo):
        return [c.name if isinstance(c, ClassInfo) else c.split('.')[-1] for c in cls.mro] + ['object']
    return [cls, 'object']


class Types(object):
    def __init__(self, prog):
        self.prog = prog
        self.n = 0

    # every ev_/run function yields (state, value) pairs; statements yield (state, env, outcome)
    def isinstance_(self, st, v, k):
        if k[0] == 'tuple':
            rs = [self.isinstance_(st, v, x) for x in k[1]]
            return True if True in rs else (None if None in rs else False)
        if k[0] != 'cls':
            return None
        name = k[1].name if isinstance(k[1], ClassInfo) else k[1]
        if v[0] == 'obj':
            return name in names_of(st.objs[v[1]].cls)
        if v[0] == 'const':
            return type(v[1]).__name__ == name or name == 'object'
        if v[0] == 'cls':
            return name in ('type', 'object')
        return None

    def truth(self, st, v):
        if v[0] == 'const':
            return bool(v[1])
        if v[0] == 'tuple':
            return bool(v[1])
        if v[0] == 'dict':
            return bool(v[1])
        if v[0] in ('cls', 'func'):
            return True
        return None

    def name(self, fn, env, n):
        if n in env:
            return env[n]
        r = self.prog.resolve(fn.module, n)
        if r and r[0] == 'class':
            return ('cls', r[1])
        if r and r[0] == 'func':
            return ('func', r[1], None)
        if r and r[0] == 'ext':
            return ('ext', r[1])
        if r and r[0] == 'mod':
            return ('mod', r[1])
        if r and r[0] == 'expr':
            try:
                return ('const', ast.literal_eval(r[1]))
            except Exception:
                if isinstance(r[1], ast.Name):
                    return self.name(fn, {}, r[1].id)
                if isinstance(r[1], ast.Tuple):
                    return ('tuple', tuple(self.name(fn, {}, x.id) if isinstance(x, ast.Name) else UNK for x in r[1].elts))
                return UNK
        if n in ('True', 'False', 'None'):
            return ('const', {'True': True, 'False': False, 'None': None}[n])
        s = self.prog.star_name(fn.module, n)
        return ('ext', s or n)

    def as_class(self, v):
        if v[0] == 'ext':
            return ('cls', v[1].split('.')[-1])
        if v[0] == 'tuple':
            return ('tuple', tuple(self.as_class(x) for x in v[1]))
        return v

    def evs(self, fn, env, st, exprs):
        """evaluates the expressions in turn"""
        if not exprs:
            yield st, env, ()
            return
        for s, e, v in self.ev(fn, env, st, exprs[0]):
            if v is RAISED:
                yield s, e, RAISED
                continue
            for s2, e2, vs in self.evs(fn, e, s, exprs[1:]):
                yield (s2, e2, RAISED) if vs is RAISED else (s2, e2, (v,) + vs)

    def fork(self, st, why):
        for b in (True, False):
            s = st.copy()
            s.forked += ((why, b),)
            yield s, b

    def cond(self, fn, env, st, x):
        """yields (state, env, True/False or RAISED)"""
        for s, e, v in self.ev(fn, env, st, x):
            if v is RAISED:
                yield s, e, RAISED
                continue
            t = self.truth(s, v)
            if t is not None:
                yield s, e, t
            else:
                key = ast.dump(x)
                old = [b for k, b in s.forked if k == key]
                if old and v == UNK:
                    yield s, e, old[-1]
                else:
                    for s2, b in self.fork(s, key):
                        yield s2, e, b

    def ev(self, fn, env, st, x):
        if isinstance(x, ast.Constant):
            yield st, env, ('const', x.value)
        elif isinstance(x, ast.Name):
            yield st, env, self.name(fn, env, x.id)
        elif isinstance(x, (ast.Tuple, ast.List, ast.Set)):
            for s, e, vs in self.evs(fn, env, st, x.elts):
                yield s, e, (RAISED if vs is RAISED else ('tuple', vs))
        elif isinstance(x, ast.Dict) and all(k is not None for k in x.keys):
            for s, e, vs in self.evs(fn, env, st, list(x.keys) + list(x.values)):
                n = len(x.keys)
                yield s, e, (RAISED if vs is RAISED else ('dict', tuple(zip(vs[:n], vs[n:]))))
        elif isinstance(x, ast.NamedExpr):
            for s, e, v in self.ev(fn, env, st, x.value):
                if v is not RAISED:
                    e = dict(e)
                    e[x.target.id] = v
                yield s, e, v
        elif isinstance(x, ast.BoolOp):
            def go(s, e, i):
                for s2, e2, v in self.ev(fn, e, s, x.values[i]):
                    if v is RAISED or i == len(x.values) - 1:
                        yield s2, e2, v
                        continue
                    t = self.truth(s2, v)
                    alts = [(s2, t)] if t is not None else list(self.fork(s2, ast.dump(x.values[i])))
                    for s3, b in alts:
                        if b == isinstance(x.op, ast.Or):
                            yield s3, e2, (v if t is not None else ('const', b))
                        else:
                            for r in go(s3, e2, i + 1):
                                yield r
            for r in go(st, env, 0):
                yield r
        elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            for s, e, b in self.cond(fn, env, st, x.operand):
                yield s, e, (b if b is RAISED else ('const', not b))
        elif isinstance(x, ast.IfExp):
            for s, e, b in self.cond(fn, env, st, x.test):
                if b is RAISED:
                    yield s, e, b
                    continue
                for r in self.ev(fn, e, s, x.body if b else x.orelse):
                    yield r
        elif isinstance(x, ast.Compare) and len(x.ops) == 1:
            for s, e, vs in self.evs(fn, env, st, [x.left, x.comparators[0]]):
                if vs is RAISED:
                    yield s, e, RAISED
                    continue
                a, b = [self.as_class(v) for v in vs]
                r = None
                op = x.ops[0]
                if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                    if a[0] == b[0] == 'const' or a[0] == b[0] == 'cls' or a[0] == b[0] == 'obj':
                        r = a[1] == b[1] if a[0] != 'cls' else names_of(a[1])[0] == names_of(b[1])[0]
                    elif ('const', None) in (a, b) and (a[0] in ('obj', 'cls') or b[0] in ('obj', 'cls')):
                        r = False
                    if r is not None and isinstance(op, (ast.IsNot, ast.NotEq)):
                        r = not r
                elif isinstance(op, (ast.In, ast.NotIn)) and b[0] == 'tuple' and a[0] in ('cls', 'const') and all(y[0] == a[0] for y in b[1]):
                    r = any((names_of(y[1])[0] == names_of(a[1])[0]) if a[0] == 'cls' else y == a for y in b[1])
                    if isinstance(op, ast.NotIn):
                        r = not r
                yield s, e, (UNK if r is None else ('const', r))
        elif isinstance(x, ast.Attribute):
            for s, e, v in self.ev(fn, env, st, x.value):
                yield s, e, (v if v is RAISED else self.attr(s, v, x.attr))
        elif isinstance(x, ast.Subscript):
            for s, e, vs in self.evs(fn, env, st, [x.value, x.slice]):
                if vs is RAISED:
                    yield s, e, RAISED
                    continue
                got = UNK
                if vs[0][0] == 'dict':
                    k = self.as_class(vs[1])
                    for a, b in vs[0][1]:
                        if self.as_class(a) == k or (k[0] == 'cls' == self.as_class(a)[0] and names_of(k[1])[0] == names_of(self.as_class(a)[1])[0]):
                            got = b
                elif vs[0][0] == 'tuple' and vs[1][0] == 'const' and isinstance(vs[1][1], (int, bool)) and -len(vs[0][1]) <= vs[1][1] < len(vs[0][1]):
                    got = vs[0][1][int(vs[1][1])]
                yield s, e, got
        elif isinstance(x, ast.Call):
            for r in self.call(fn, env, st, x):
                yield r
        elif isinstance(x, ast.Starred):
            for r in self.ev(fn, env, st, x.value):
                yield r
        else:
            subs = [c for c in ast.iter_child_nodes(x) if isinstance(c, ast.expr)]
            if isinstance(x, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.DictComp, ast.SetComp)):
                subs = []
            for s, e, vs in self.evs(fn, env, st, subs):
                yield s, e, (RAISED if vs is RAISED else UNK)

    def attr(self, st, v, a):
        if v[0] == 'obj':
            o = st.objs[v[1]]
            if a == '__class__':
                return ('cls', o.cls)
            if isinstance(o.cls, ClassInfo):
                f = o.cls.find(a)
                if f:
                    return ('func', f, v)
                p = o.cls.find(a, 'attrs')
                if isinstance(p, ast.Constant):
                    return ('const', p.value)
            return ('meth', v, a)
        if v[0] == 'cls' and isinstance(v[1], ClassInfo):
            if a == '__name__':
                return ('const', v[1].name)
            f = v[1].find(a)
            return ('func', f, None) if f else UNK
        if v[0] == 'super':
            o = st.objs[v[1]]
            if isinstance(o.cls, ClassInfo):
                mro = o.cls.mro
                if v[2] in mro:
                    for c in mro[mro.index(v[2]) + 1:]:
                        if not isinstance(c, ClassInfo):
                            return UNK          # a class of the library: what comes after it is not reached from here
                        if a in c.methods:
                            return ('func', c.methods[a], ('obj', v[1]))
            return UNK
        if v[0] == 'mod':
            r = self.prog.resolve(v[1], a)
            if r and r[0] == 'class':
                return ('cls', r[1])
            if r and r[0] == 'func':
                return ('func', r[1], None)
            return ('ext', v[1].name + '.' + a)
        if v[0] == 'ext':
            return ('ext', v[1] + '.' + a)
        return UNK

    def call(self, fn, env, st, x):
        self.n += 1
        if self.n > 200000:
            raise RuntimeError('too many paths')
        if isinstance(x.func, ast.Name) and x.func.id == 'super' and 'super' not in env:
            if x.args:
                for s, e, vs in self.evs(fn, env, st, x.args):
                    if vs is RAISED or len(vs) < 2 or vs[0][0] != 'cls' or vs[1][0] != 'obj':
                        yield s, e, (RAISED if vs is RAISED else UNK)
                    else:
                        yield s, e, ('super', vs[1][1], vs[0][1])
            else:
                me = env.get((fn.node.args.args or [ast.arg('self')])[0].arg, UNK)
                yield st, env, (('super', me[1], fn.cls) if me[0] == 'obj' and fn.cls else UNK)
            return
        for s, e, f in self.ev(fn, env, st, x.func):
            if f is RAISED:
                yield s, e, f
                continue
            for s2, e2, vs in self.evs(fn, e, s, list(x.args) + [k.value for k in x.keywords]):
                if vs is RAISED:
                    yield s2, e2, RAISED
                    continue
                n = len(x.args)
                pos, kw = list(vs[:n]), dict((k.arg, v) for k, v in zip(x.keywords, vs[n:]))
                star = any(isinstance(a, ast.Starred) for a in x.args) or None in kw
                for s3, v in self.apply(fn, s2, f, pos, kw, star):
                    yield s3, e2, v

    def apply(self, fn, st, f, pos, kw, star):
        if f[0] == 'ext':
            b = f[1].split('.')[-1]
            if b == 'isinstance' and len(pos) == 2:
                r = self.isinstance_(st, pos[0], self.as_class(pos[1]))
                yield st, (UNK if r is None else ('const', r))
                return
            if b == 'issubclass' and len(pos) == 2:
                k, c = self.as_class(pos[1]), self.as_class(pos[0])
                ks = k[1] if k[0] == 'tuple' else (k,)
                if c[0] == 'cls' and all(y[0] == 'cls' for y in ks):
                    yield st, ('const', any(names_of(y[1])[0] in names_of(c[1]) for y in ks))
                    return
            if b == 'type' and len(pos) == 1 and pos[0][0] == 'obj':
                yield st, ('cls', st.objs[pos[0][1]].cls)
                return
            if b == 'hasattr' and len(pos) == 2 and pos[0][0] == 'obj' and pos[1][0] == 'const':
                o = st.objs[pos[0][1]]
                yes = pos[1][1] in o.fields or isinstance(o.cls, ClassInfo) and any(o.cls.find(pos[1][1], t) for t in ('methods', 'props', 'attrs'))
                yield st, (('const', True) if yes else UNK)
                return
            if b == 'bool' and len(pos) == 1:
                t = self.truth(st, pos[0])
                yield st, (UNK if t is None else ('const', t))
                return
            if b == 'setattr' and len(pos) == 3 and pos[0][0] == 'obj' and pos[1][0] == 'const':
                s = st.copy()
                self.set_attr(s, pos[0], pos[1][1], pos[2])
                yield s, ('const', None)
                return
            if b in ('any', 'all') and len(pos) == 1 and pos[0][0] == 'tuple':
                ts = [self.truth(st, v) for v in pos[0][1]]
                if None not in ts:
                    yield st, ('const', any(ts) if b == 'any' else all(ts))
                    return
            yield st, UNK
            return
        if f[0] == 'func':
            g = f[1]
            args = ([f[2]] if f[2] is not None and g.kind not in ('static',) else []) + pos
            for r in self.run(g, st, args, kw, star):
                yield r
            return
        if f[0] == 'meth':
            s = st.copy()
            s.objs[f[1][1]].called += (f[2],)
            if f[2] == '__setattr__' and len(pos) == 2 and pos[0][0] == 'const':
                self.set_attr(s, f[1], pos[0][1], pos[1])
            yield s, UNK
            return
        if f[0] == 'cls' and isinstance(f[1], ClassInfo):
            s = st.copy()
            s.objs.append(Obj(f[1]))
            me = ('obj', len(s.objs) - 1)
            i = f[1].find('__init__')
            if i is None:
                yield s, me
                return
            for s2, v in self.run(i, s, [me] + pos, kw, star):
                yield s2, (v if v is RAISED else me)
            return
        yield st, UNK

    def set_attr(self, s, v, a, val):
        o = s.objs[v[1]]
        if a == '__class__':
            o.cls = self.as_class(val)[1] if self.as_class(val)[0] == 'cls' else '?'
        else:
            o.fields += (a,)

    def run(self, g, st, args, kw, star=False, depth=[0]):
        """yields (state, value) for every path through the function"""
        a = g.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        extra = {}
        for k, v in kw.items():
            if k in names or k in [p.arg for p in a.kwonlyargs]:
                env[k] = v
            elif k:
                extra[k] = v
        for p, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if p not in env:
                env[p] = UNK if star else (('const', d.value) if isinstance(d, ast.Constant) else UNK)
        for p in names:
            env.setdefault(p, UNK)
        if a.vararg:
            env[a.vararg.arg] = UNK if star else ('tuple', tuple(rest))
        if a.kwarg:
            env[a.kwarg.arg] = UNK if star else ('dict', tuple((('const', k), v) for k, v in extra.items()))
        depth[0] += 1
        try:
            if depth[0] > 30 or g.is_gen:
                yield st, UNK
                return
            for s, e, out in self.block(g, env, st, g.node.body):
                if out is None:
                    yield s, ('const', None)
                elif out[0] == 'ret':
                    yield s, out[1]
                elif out[0] == 'raise':
                    s = s.copy()
                    s.why = (out[1],)
                    yield s, RAISED
                else:
                    yield s, UNK
        finally:
            depth[0] -= 1

    def block(self, fn, env, st, body):
        if not body:
            yield st, env, None
            return
        for s, e, out in self.stmt(fn, env, st, body[0]):
            if out is not None:
                yield s, e, out
            else:
                for r in self.block(fn, e, s, body[1:]):
                    yield r

    def assign(self, s, e, target, v):
        if isinstance(target, ast.Name):
            e[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            vs = v[1] if v[0] == 'tuple' and len(v[1]) == len(target.elts) else [UNK] * len(target.elts)
            for t, w in zip(target.elts, vs):
                self.assign(s, e, t, w)
        elif isinstance(target, ast.Attribute):
            got = [w for _, _, w in self.ev(self.fn, e, s, target.value)]
            if got and got[0] is not RAISED and got[0][0] == 'obj':
                self.set_attr(s, got[0], target.attr, v)

    def stmt(self, fn, env, st, n):
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            if n.value is None:
                yield st, env, None
                return
            for s, e, v in self.ev(fn, env, st, n.value):
                if v is RAISED:
                    yield s, e, ('raise', s.why[-1] if s.why else '?')
                    continue
                s, e = s.copy(), dict(e)
                self.fn = fn
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    self.assign(s, e, t, v)
                yield s, e, None
        elif isinstance(n, ast.Expr):
            for s, e, v in self.ev(fn, env, st, n.value):
                yield s, e, (('raise', s.why[-1] if s.why else '?') if v is RAISED else None)
        elif isinstance(n, ast.Return):
            if n.value is None:
                yield st, env, ('ret', ('const', None))
                return
            for s, e, v in self.ev(fn, env, st, n.value):
                yield s, e, (('raise', s.why[-1] if s.why else '?') if v is RAISED else ('ret', v))
        elif isinstance(n, ast.If):
            for s, e, b in self.cond(fn, env, st, n.test):
                if b is RAISED:
                    yield s, e, ('raise', s.why[-1] if s.why else '?')
                    continue
                for r in self.block(fn, e, s, n.body if b else n.orelse):
                    yield r
        elif isinstance(n, ast.Raise):
            x = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            yield st, env, ('raise', ast.unparse(x) if x is not None else 'again')
        elif isinstance(n, ast.Assert):
            for s, e, b in self.cond(fn, env, st, n.test):
                yield s, e, (None if b is True else ('raise', 'AssertionError'))
        elif isinstance(n, ast.With):
            for s, e, vs in self.evs(fn, env, st, [i.context_expr for i in n.items]):
                if vs is RAISED:
                    yield s, e, ('raise', s.why[-1] if s.why else '?')
                    continue
                for r in self.block(fn, e, s, n.body):
                    yield r
        elif isinstance(n, ast.Try):
            for s, e, out in self.block(fn, env, st, n.body):
                if out and out[0] == 'raise' and n.handlers:
                    done = False
                    for h in n.handlers:
                        t = ast.unparse(h.type) if h.type is not None else 'Exception'
                        if t in ('Exception', 'BaseException') or out[1] in t:
                            for r in self.block(fn, e, s, h.body + n.finalbody):
                                yield r
                            done = True
                            break
                    if not done:
                        for s2, e2, o2 in self.block(fn, e, s, n.finalbody):
                            yield s2, e2, o2 or out
                    continue
                tail = (n.orelse if out is None else []) + n.finalbody
                for s2, e2, o2 in self.block(fn, e, s, tail):
                    yield s2, e2, o2 or out
        elif isinstance(n, (ast.For, ast.While)):
            # not at all, or once
            if isinstance(n, ast.For):
                for s, e, v in self.ev(fn, env, st, n.iter):
                    if v is RAISED:
                        yield s, e, ('raise', s.why[-1] if s.why else '?')
                        continue
                    seq = v[1] if v[0] == 'tuple' else None
                    if seq is None:
                        yield s, e, None
                        seq = (UNK,)
                    for r in self.loop(fn, e, s, n, seq):
                        yield r
            else:
                yield st, env, None
                for s, e, out in self.block(fn, env, st, n.body):
                    yield s, e, (None if out and out[0] in ('break', 'continue') else out)
        elif isinstance(n, (ast.Break, ast.Continue)):
            yield st, env, ('break' if isinstance(n, ast.Break) else 'continue',)
        elif isinstance(n, ast.FunctionDef):
            e = dict(env)
            e[n.name] = ('func', FuncInfo(n, fn.module, None, 'func'), None)
            yield st, e, None
        else:
            yield st, env, None

    def loop(self, fn, env, st, n, seq):
        if not seq:
            for r in self.block(fn, env, st, n.orelse):
                yield r
            return
        s, e = st.copy(), dict(env)
        self.fn = fn
        self.assign(s, e, n.target, seq[0])
        for s2, e2, out in self.block(fn, e, s, n.body):
            if out is None or out[0] == 'continue':
                for r in self.loop(fn, e2, s2, n, seq[1:]):
                    yield r
            elif out[0] == 'break':
                yield s2, e2, None
            else:
                yield s2, e2, out


RAISED = ('raised!',)


def outcomes(prog, func, cls, kw=None):
    """the outcomes of calling func on an object of class cls: (state, value or RAISED)"""
    t = Types(prog)
    st = State([Obj(cls)])
    return list(t.run(func, st, [('obj', 0)], kw or {}))


def ctor_fields(prog, cls):
    """fields that constructing an object of the class sets on every path that succeeds"""
    if not isinstance(cls, ClassInfo):
        return set()
    i = cls.find('__init__')
    if i is None:
        return set()
    t = Types(prog)
    got = [set(s.objs[0].fields) for s, v in t.run(i, State([Obj(cls)]), [('obj', 0), UNK], {}) if v is not RAISED]
    return set.intersection(*got) if got else set()
