"""rewritings of the syntax tree into one of several equivalent forms, so that the analysis sees the same program for each:

 - statements that do nothing go away;
 - a last handler that only raises the same exception again is no handler;
 - it = iter(S); while True: try: x = next(it) except StopIteration: break; ...   is   for x in S: ...
 - i = 0; while i < len(S): ... i += 1                                           is   for i in range(len(S)): ...
 - for i in range(len(S)): x = S[i]; ... (no other use of i)                     is   for x in S: ...
 - L.extend([a, b]) and L += [a, b]                                              are  L.append(a); L.append(b)
 - (A if c else B).m(x)                                                          is   if c: A.m(x) else: B.m(x)
 - F.writelines(e for x in S if c) and F.write(''.join(e for x in S if c))       are  for x in S: if c: F.write(e)
 - d = {}; for x in S: if c: d[k] = v (d not changed elsewhere)                  is   d = {k: v for x in S if c} (so for sets)
 - L.append(e), L.extend(e), L += e (L a new list, read only afterwards)          are  L = L + [e], L = L + e
 - dict.fromkeys(S, v)                                                           is   {k: v for k in S}
 - map(f, S)                                                                     is   (f(x) for x in S)
 - return self._gen(..) in every return of a function                            is   for x in self._gen(..): yield x
 - dict(k=v)                                                                     is   {'k': v}
"""
import ast

MUTATORS = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'add', 'discard', 'setdefault', 'popitem')


def dump(n):
    return ast.dump(n).replace('Store()', 'Load()').replace('Del()', 'Load()')


def used(name, nodes):
    return [n for s in nodes for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == name]


def own(body):
    """nodes of the statements that belong to the same loop body: not those of nested loops or functions"""
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)


def has_continue(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Continue):
            return True
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.For, ast.While)):
                todo.append(c)
    return False


def changed(expr, body):
    """may the statements change which list the expression is, or the list?"""
    d = dump(expr)
    names = set(n.id for n in ast.walk(expr) if isinstance(n, ast.Name))
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if dump(n) == d or isinstance(n, ast.Name) and n.id in names or isinstance(n, ast.Subscript) and dump(n.value) == d:
                    return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and dump(n.func.value) == d:
                return True
            if isinstance(n, ast.AugAssign) and dump(n.target) == d:
                return True
    return False


def simple(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def is_call(n, name, nargs):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == name and len(n.args) == nargs and not n.keywords


def only_raises(h):
    b = [s for s in h.body if not isinstance(s, ast.Pass) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(b) != 1 or not isinstance(b[0], ast.Raise) or b[0].cause is not None:
        return False
    x = b[0].exc
    return x is None or h.name is not None and isinstance(x, ast.Name) and x.id == h.name


def growth(s):
    """(name, list added) for name.append(x), name.extend(x), name += x"""
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name):
        return s.target.id, s.value
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and \
            len(s.value.args) == 1 and not s.value.keywords and not isinstance(s.value.args[0], ast.Starred):
        x = s.value.args[0]
        if s.value.func.attr == 'append':
            return s.value.func.value.id, ast.List([x], ast.Load())
        if s.value.func.attr == 'extend':
            if not isinstance(x, (ast.List, ast.ListComp)) and not is_call(x, 'list', 1):
                x = ast.Call(ast.Name('list', ast.Load()), [x], [])
            return s.value.func.value.id, x
    return None


class Normal(object):
    def __init__(self, fn):
        self.fn = fn

    def run(self):
        self.read = set(n.id for n in ast.walk(self.fn) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store))
        self.read |= set(x for n in ast.walk(self.fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names)
        self.grown()
        self.local = any(isinstance(n, ast.Name) and n.id == 'locals' for n in ast.walk(self.fn))
        doc = self.fn.body[:1] if ast.get_docstring(self.fn, clean=False) is not None else []
        self.fn.body = doc + self.block(self.fn.body[len(doc):])
        if not self.fn.body:
            self.fn.body = [ast.copy_location(ast.Pass(), self.fn)]

    def grown(self):
        """a list of this function that starts with elements and is only read when complete"""
        inits, muts, loops = {}, {}, set()

        def look(body, inloop):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    continue
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    v = s.value
                    if isinstance(v, ast.List) and v.elts and not any(isinstance(x, ast.Starred) for x in v.elts) or isinstance(v, ast.ListComp) or is_call(v, 'list', 1):
                        inits.setdefault(s.targets[0].id, []).append((s, inloop))
                m = growth(s)
                if m is not None:
                    muts.setdefault(m[0], []).append((s, inloop, body, m[1]))
                for f in ('body', 'orelse', 'finalbody'):
                    look(getattr(s, f, None) or [], inloop or isinstance(s, (ast.For, ast.While)))
                for h in getattr(s, 'handlers', None) or []:
                    look(h.body, inloop)
        look(self.fn.body, False)
        for name in inits:
            ms = muts.get(name)
            if not ms or len(inits[name]) != 1 or inits[name][0][1] or any(m[1] for m in ms):
                continue
            if any(x.arg == name for x in ast.walk(self.fn) if isinstance(x, ast.arg)):
                continue
            known = set(id(n) for n in ast.walk(inits[name][0][0].targets[0]))
            for m in ms:
                t = m[0].target if isinstance(m[0], ast.AugAssign) else m[0].value.func.value
                known.add(id(t))
            rest = [n for n in used(name, [self.fn]) if id(n) not in known]
            last = max(m[0].lineno for m in ms)
            if any(not isinstance(n.ctx, ast.Load) or n.lineno <= last for n in rest):
                continue
            for s, _, body, v in ms:
                new = ast.Assign([ast.Name(name, ast.Store())], ast.BinOp(ast.Name(name, ast.Load()), ast.Add(), v))
                body[body.index(s)] = self.at(new, s)

    def nothing(self, s):
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.Name)):
            return not isinstance(s, ast.Expr) or isinstance(s.value, ast.Constant) or s.value.id in ('None', 'self')
        if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) and t.id not in self.read for t in s.targets) and not self.local:
            return all(isinstance(n, (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.Load)) for n in ast.walk(s.value))
        if isinstance(s, ast.If) and isinstance(s.test, ast.Constant) and not s.test.value and not s.orelse:
            return not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s))
        if isinstance(s, ast.If) and isinstance(s.test, ast.Constant) and all(self.nothing(x) for x in s.body + s.orelse):
            return True
        return isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and bool(s.test.value)

    def block(self, body):
        out = []
        body = [s for s in body if not self.nothing(s)] or body[:1]
        for s in body:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    setattr(s, f, self.block(b))
            for h in getattr(s, 'handlers', None) or []:
                h.body = self.block(h.body)
            out += self.stmt(s)
        out = self.pairs(out)
        return out

    def stmt(self, s):
        if isinstance(s, ast.Try) and s.handlers:
            while s.handlers and only_raises(s.handlers[-1]):
                s.handlers.pop()
            if not s.handlers:
                s.body += s.orelse
                s.orelse = []
                if not s.finalbody:
                    return s.body
            return [s]
        if isinstance(s, ast.For):
            self.position(s)
            return [s]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
            r = self.chosen(s) or self.written(s)
            if r:
                return r
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == 'extend' and len(s.value.args) == 1 and not s.value.keywords and simple(s.value.func.value):
            return self.appends(s, s.value.func.value, s.value.args[0])
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and simple(s.target) and isinstance(s.value, ast.List):
            return self.appends(s, s.target, s.value)
        return [s]

    def chosen(self, s):
        f = s.value.func
        if not isinstance(f.value, ast.IfExp) or not simple(f.value.body) or not simple(f.value.orelse):
            return None
        arms = []
        for o in (f.value.body, f.value.orelse):
            c = ast.parse(ast.unparse(s.value), mode='eval').body
            c.func.value = o
            arms.append(self.at(ast.Expr(c), s))
        return [self.at(ast.If(f.value.test, [arms[0]], [arms[1]]), s)]

    def written(self, s):
        f, a = s.value.func, s.value.args
        if s.value.keywords or len(a) != 1 or not isinstance(f.value, ast.Name):
            return None
        g = a[0]
        if f.attr == 'write' and isinstance(g, ast.Call) and isinstance(g.func, ast.Attribute) and g.func.attr == 'join' and \
                isinstance(g.func.value, ast.Constant) and g.func.value.value == '' and len(g.args) == 1 and not g.keywords:
            g = g.args[0]
        elif f.attr != 'writelines':
            return None
        if not isinstance(g, (ast.GeneratorExp, ast.ListComp)) or any(x.is_async for x in g.generators):
            return None
        bound = set(n.id for x in g.generators for n in ast.walk(x.target) if isinstance(n, ast.Name))
        if f.value.id in bound:
            return None
        first = g.generators[0].iter
        g.generators[0].iter = ast.Constant(None)
        for n in ast.walk(g):
            if isinstance(n, ast.Name) and n.id in bound:
                n.id = '%s@%d' % (n.id, s.lineno)
        g.generators[0].iter = first
        body = ast.Expr(ast.Call(ast.Attribute(ast.Name(f.value.id, ast.Load()), 'write', ast.Load()), [g.elt], []))
        for x in reversed(g.generators):
            for c in reversed(x.ifs):
                body = ast.If(c, [body], [])
            body = ast.For(x.target, x.iter, [body], [])
        return [self.at(body, s)]

    def at(self, new, s):
        for n in ast.walk(new):
            if not hasattr(n, 'lineno'):
                ast.copy_location(n, s)
        return ast.fix_missing_locations(new)

    def appends(self, s, target, val):
        if not isinstance(val, (ast.List, ast.Tuple)) or not val.elts or any(isinstance(e, ast.Starred) for e in val.elts):
            return [s]
        if len(val.elts) > 1 and any(isinstance(n, (ast.Call, ast.Await, ast.Yield)) for e in val.elts for n in ast.walk(e)):
            return [s]      # what the later ones call could see the list
        out = []
        for e in val.elts:
            t = ast.parse(ast.unparse(target), mode='eval').body
            c = ast.Expr(ast.Call(ast.Attribute(t, 'append', ast.Load()), [e], []))
            for n in ast.walk(t):
                ast.copy_location(n, s)
            for n in (c, c.value, c.value.func):
                ast.copy_location(n, s)
            out.append(c)
        return out

    def position(self, s):
        """for i in range(len(S)): x = S[i]; ..."""
        it = s.iter
        if not (is_call(it, 'range', 1) and is_call(it.args[0], 'len', 1) and isinstance(s.target, ast.Name) and s.body):
            return
        seq, k = it.args[0].args[0], s.target.id
        a = s.body[0]
        if not simple(seq) or changed(seq, s.body):
            return
        if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.Subscript) and
                dump(a.value.value) == dump(seq) and isinstance(a.value.slice, ast.Name) and a.value.slice.id == k):
            return
        if len(used(k, [self.fn])) != 2 or any(n is not a.targets[0] and isinstance(n, ast.Name) and n.id == getattr(seq, 'id', None)
                                               for n in ast.walk(a.targets[0])):
            return
        s.target, s.iter = a.targets[0], seq
        del s.body[0]
        if not s.body:
            s.body.append(ast.copy_location(ast.Pass(), a))

    def pairs(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.While) and not s.orelse and out and isinstance(out[-1], ast.Assign) and len(out[-1].targets) == 1 and \
                    isinstance(out[-1].targets[0], ast.Name):
                f = self.iterator(out[-1], s) or self.counter(out[-1], s)
                if f is not None:
                    out[-1] = f
                    self.position(f)
                    continue
            if isinstance(s, ast.For) and out and self.filled(out[-1], s):
                continue
            out.append(s)
        return out

    def filled(self, a, s):
        """d = {}; for x in S: if c: d[k] = v"""
        if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and not s.orelse and
                (isinstance(a.value, ast.Dict) and not a.value.keys or is_call(a.value, 'dict', 0) or is_call(a.value, 'OrderedDict', 0) or
                 is_call(a.value, 'set', 0))):
            return False
        isset = is_call(a.value, 'set', 0)
        d, conds, b = a.targets[0].id, [], s.body
        while len(b) == 1 and isinstance(b[0], ast.If) and not b[0].orelse:
            conds.append(b[0].test)
            b = b[0].body
        b = b[0] if len(b) == 1 else None
        if isset:
            if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == 'add' and
                    isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == d and len(b.value.args) == 1 and not b.value.keywords):
                return False
            k = v = b.value.args[0]
        elif not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript) and
                isinstance(b.targets[0].value, ast.Name) and b.targets[0].value.id == d):
            return False
        else:
            k, v = b.targets[0].slice, b.value
        if used(d, [k, v, s.iter, s.target] + conds) or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.NamedExpr)) for n in ast.walk(s)):
            return False
        if [n for n in used(d, [self.fn]) if isinstance(n.ctx, ast.Store)] != [a.targets[0]]:
            return False
        bound = [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)]
        inside = set(id(n) for n in ast.walk(s))
        for n in ast.walk(self.fn):
            if id(n) in inside:
                continue
            if isinstance(n, ast.Name) and n.id in bound and isinstance(n.ctx, ast.Load):
                return False
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == d:
                return False
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == d and n.attr in MUTATORS:
                return False
        g = ast.comprehension(s.target, s.iter, conds, 0)
        a.value = ast.copy_location(ast.SetComp(k, [g]) if isset else ast.DictComp(k, v, [g]), b)
        return True

    def iterator(self, a, w):
        v = a.targets[0].id
        if not (is_call(a.value, 'iter', 1) and isinstance(w.test, ast.Constant) and w.test.value and w.body and isinstance(w.body[0], ast.Try)):
            return None
        t = w.body[0]
        if t.orelse or t.finalbody or len(t.handlers) != 1 or len(t.body) != 1:
            return None
        h, b = t.handlers[0], t.body[0]
        if not (isinstance(h.type, ast.Name) and h.type.id == 'StopIteration' and len(h.body) == 1 and isinstance(h.body[0], ast.Break)):
            return None
        if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and is_call(b.value, 'next', 1) and isinstance(b.value.args[0], ast.Name) and
                b.value.args[0].id == v and len(used(v, [self.fn])) == 2):
            return None
        f = ast.For(b.targets[0], a.value.args[0], w.body[1:] or [ast.copy_location(ast.Pass(), b)], [])
        return ast.copy_location(f, w)

    def counter(self, a, w):
        v = a.targets[0].id
        t = w.test
        if not (isinstance(a.value, ast.Constant) and a.value.value == 0 and isinstance(a.value.value, int) and isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, o, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(o, (ast.Gt, ast.NotEq)) and is_call(l, 'len', 1):
            l, r = r, l
        elif not isinstance(o, (ast.Lt, ast.NotEq)):
            return None
        if not (isinstance(l, ast.Name) and l.id == v and is_call(r, 'len', 1) and simple(r.args[0])):
            return None
        seq = r.args[0]
        steps = [i for i, s in enumerate(w.body) if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and
                 s.target.id == v and isinstance(s.value, ast.Constant) and s.value.value == 1]
        if len(steps) != 1:
            return None
        i = steps[0]
        before, after = w.body[:i], w.body[i + 1:]
        if [n for n in used(v, before + after) if not isinstance(n.ctx, ast.Load)] or used(v, after) or has_continue(before) or changed(seq, before + after):
            return None
        if [n for n in used(v, [self.fn]) if not any(n is m for m in used(v, [a, w]))]:
            return None         # it is used elsewhere
        body = before + after
        f = ast.For(ast.Name(v, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [r], []), body or [ast.Pass()], [])
        for n in (f.target, f.iter, f.iter.func):
            ast.copy_location(n, w)
        return ast.fix_missing_locations(ast.copy_location(f, w))


class Expressions(ast.NodeTransformer):
    """dict.fromkeys(S, v) is {k: v for k in S}"""

    def only_read(self, v):
        """X or [], where only the elements or the length of it are looked at"""
        if isinstance(v, ast.BoolOp) and isinstance(v.op, ast.Or) and isinstance(v.values[-1], ast.List) and not v.values[-1].elts:
            v.values[-1] = ast.copy_location(ast.Tuple([], ast.Load()), v.values[-1])

    def visit_For(self, n):
        self.generic_visit(n)
        self.only_read(n.iter)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        self.only_read(n.iter)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('len', 'sorted', 'enumerate', 'reversed', 'any', 'all', 'sum') and n.args:
            self.only_read(n.args[0])
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'fromkeys' and isinstance(n.func.value, ast.Name) and n.func.value.id == 'dict' and \
                len(n.args) == 2 and not n.keywords:
            k = 'key@%d' % n.lineno
            new = ast.DictComp(ast.Name(k, ast.Load()), n.args[1], [ast.comprehension(ast.Name(k, ast.Store()), n.args[0], [], 0)])
            return ast.fix_missing_locations(ast.copy_location(new, n))
        if isinstance(n.func, ast.Name) and n.func.id == 'dict' and not n.args and n.keywords and all(k.arg for k in n.keywords):
            new = ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords])
            return ast.fix_missing_locations(ast.copy_location(new, n))
        if is_call(n, 'map', 2) and isinstance(n.args[0], (ast.Name, ast.Attribute)) and simple(n.args[0]) and not isinstance(n.args[1], ast.Starred):
            k = 'each@%d' % n.lineno
            new = ast.GeneratorExp(ast.Call(n.args[0], [ast.Name(k, ast.Load())], []), [ast.comprehension(ast.Name(k, ast.Store()), n.args[1], [], 0)])
            return ast.fix_missing_locations(ast.copy_location(new, n))
        return n


def is_generator(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn.body))


def delegating(tree):
    """return self._lines(...), of a generator of the same module, in every return of a function: it is a generator as well"""
    defs = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            defs.setdefault(n.name, []).append(n)
    gens = set(k for k, v in defs.items() if k.startswith('_') and all(is_generator(f) for f in v))

    def delegate(v):
        return isinstance(v, ast.Call) and (isinstance(v.func, ast.Name) and v.func.id in gens or
                                            isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == 'self' and v.func.attr in gens)

    def rewrite(body):
        for i in range(len(body) - 1, -1, -1):
            s = body[i]
            if isinstance(s, ast.Return):
                k = 'each@%d' % s.lineno
                f = ast.For(ast.Name(k, ast.Store()), s.value, [ast.Expr(ast.Yield(ast.Name(k, ast.Load())))], [])
                body[i:i + 1] = [ast.fix_missing_locations(ast.copy_location(x, s)) for x in (f, ast.Return(None))]
                continue
            for f in ('body', 'orelse', 'finalbody'):
                rewrite(getattr(s, f, None) or [])
            for h in getattr(s, 'handlers', None) or []:
                rewrite(h.body)
    for fs in defs.values():
        for f in fs:
            rets = [n for n in own(f.body) if isinstance(n, ast.Return)]
            if rets and not is_generator(f) and all(n.value is not None and delegate(n.value) for n in rets) and \
                    not any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for b in f.body for n in ast.walk(b)):
                rewrite(f.body)


def collecting(tree):
    """L = [e for x in self._lines(...) if c], of a generator of the same module: the loop that makes the list"""
    defs = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            defs.setdefault(n.name, []).append(n)
    gens = set(k for k, v in defs.items() if k.startswith('_') and all(is_generator(f) for f in v))

    def loop(s):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and
                len(s.value.generators) == 1):
            return None
        g, k = s.value.generators[0], s.targets[0].id
        f = g.iter.func if isinstance(g.iter, ast.Call) else None
        if not (isinstance(f, ast.Name) and f.id in gens or
                isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and f.attr in gens):
            return None
        if g.is_async or used(k, [s.value]) or any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.NamedExpr, ast.Yield))
                                                   for x in [s.value.elt] + g.ifs for n in ast.walk(x)):
            return None
        bound = set(n.id for n in ast.walk(g.target) if isinstance(n, ast.Name))
        for x in [s.value.elt, g.target] + g.ifs:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and n.id in bound:
                    n.id = '%s@%d' % (n.id, s.lineno)
        b = ast.Expr(ast.Call(ast.Attribute(ast.Name(k, ast.Load()), 'append', ast.Load()), [s.value.elt], []))
        for c in reversed(g.ifs):
            b = ast.If(c, [b], [])
        new = [ast.Assign(s.targets, ast.List([], ast.Load())), ast.For(g.target, g.iter, [b], [])]
        for m in new:
            for n in ast.walk(m):
                if not hasattr(n, 'lineno'):
                    ast.copy_location(n, s)
        return [ast.fix_missing_locations(m) for m in new]

    def rewrite(body):
        for i in range(len(body) - 1, -1, -1):
            s = body[i]
            new = loop(s)
            if new:
                body[i:i + 1] = new
                continue
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list):
                    rewrite(b)
            for h in getattr(s, 'handlers', None) or []:
                rewrite(h.body)
    rewrite(tree.body)


def normalise(tree):
    Expressions().visit(tree)
    delegating(tree)
    collecting(tree)
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            Normal(fn).run()
    return tree
