#!/usr/bin/env python3
"""development aid: behaviour-preserving rewritings of every function of the package, made automatically one function at a
time, on which no check may raise an alarm.

    refac.py [-x transform,... | -c number] [-f function-substring] [-p] [-t]    -p: print the rewritten function, -t: run the tests too,
    -c: so many mixtures of four rewritings for each function
"""
import ast, sys, os, copy, shutil, tempfile, warnings, symtable, subprocess
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
FILES = ['split.py', 'restore.py', 'amend.py', 'constants.py', 'access/bagit.py', 'access/extended.py', 'access/multibag.py',
         'validate/base.py', 'validate/bag.py', 'validate/member.py', 'validate/headbag.py']
FUNC = (ast.FunctionDef,)


def names_in(node, ctx=None):
    return [n for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))]


def own_nodes(body):
    """nodes of the statements, not those of functions or classes defined in them"""
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)


def fn_params(fn):
    a = fn.args
    return set(x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y])


def fn_locals(fn):
    out = set(fn_params(fn))
    for n in own_nodes(fn.body):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out -= set(n.names)
    return out


class Fresh(object):
    def __init__(self):
        self.n = 0

    def __call__(self, base='tmp'):
        self.n += 1
        return '_%s%d' % (base, self.n)


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


def setv(i, v):
    return ast.Assign([name(i, ast.Store())], v)


def no(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.UnaryOp(ast.Not(), t)


def boolean(t):
    return t


def blocks(fn):
    """all statement lists of a function, innermost last (not of nested functions)"""
    out = []

    def go(body):
        out.append(body)
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and b:
                    go(b)
            for h in getattr(s, 'handlers', []):
                go(h.body)
    go(fn.body)
    return out


def t_rename(fn, ctx):
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) for n in ast.walk(fn) if n is not fn):
        return False
    loc = fn_locals(fn) - fn_params(fn)
    for n in ast.walk(fn):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return False
    if not loc:
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in loc:
            n.id = 'v_' + n.id
        if isinstance(n, ast.ExceptHandler) and n.name in loc:
            n.name = 'v_' + n.name
    return True


def t_cond(fn, ctx):
    """if C -> c = C; if c"""
    done = False
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                v = ctx.fresh('cond')
                b.insert(i, setv(v, s.test))
                s.test = name(v)
                i += 1
                done = True
            i += 1
    return done


def t_invert(fn, ctx):
    done = False
    for n in list(own_nodes(fn.body)):
        if isinstance(n, ast.If):
            n.test = no(n.test)
            n.body, n.orelse = (n.orelse or [ast.Pass()]), n.body
            done = True
    return done


def t_continue(fn, ctx):
    """a last `if` of a loop or of a function becomes a guard"""
    done = False

    def last(body, word):
        nonlocal done
        while body and isinstance(body[-1], ast.If) and not body[-1].orelse:
            s = body[-1]
            body[-1:] = [ast.If(no(s.test), [word()], [])] + s.body
            done = True
    for n in list(own_nodes(fn.body)):
        if isinstance(n, (ast.For, ast.While)):
            last(n.body, ast.Continue)
    if not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fn.body)):
        if not any(isinstance(n, ast.Return) and n.value is not None for n in own_nodes(fn.body)):
            last(fn.body, lambda: ast.Return(None))
    return done


def t_ret(fn, ctx):
    done = False
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                v = ctx.fresh('result')
                b.insert(i, setv(v, s.value))
                s.value = name(v)
                i += 1
                done = True
            i += 1
    return done


def t_comp(fn, ctx):
    """x = [E for v in S if C] -> loop"""
    done = False
    loc = fn_locals(fn)
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp) and not any(g.is_async for g in v.generators):
                tg = set(n.id for g in v.generators for n in names_in(g.target))
                out = ctx.fresh('list')
                ren = {}
                for t in tg:
                    ren[t] = ctx.fresh('it')
                v = copy.deepcopy(v)
                first = v.generators[0].iter
                skip = set(id(n) for n in ast.walk(first))
                for n in ast.walk(v):
                    if isinstance(n, ast.Name) and n.id in ren and id(n) not in skip:
                        n.id = ren[n.id]
                body = [ast.Expr(ast.Call(ast.Attribute(name(out), 'append', ast.Load()), [v.elt], []))]
                for g in reversed(v.generators):
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    body = [ast.For(g.target, g.iter, body, [])]
                b[i:i] = [setv(out, ast.List([], ast.Load()))] + body
                i += 2
                s.value = name(out)
                done = True
            i += 1
    return done


def t_args(fn, ctx):
    """arguments of a call statement or assignment taken out into variables"""
    done = False
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            c = getattr(s, 'value', None)
            if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(c, ast.Call) and \
                    not any(isinstance(a, ast.Starred) for a in c.args) and simple(c.func):
                new = []
                for k, a in enumerate(c.args):
                    if not isinstance(a, (ast.Name, ast.Constant, ast.GeneratorExp)):
                        v = ctx.fresh('arg')
                        new.append(setv(v, a))
                        c.args[k] = name(v)
                for kw in c.keywords:
                    if kw.arg and not isinstance(kw.value, (ast.Name, ast.Constant)):
                        v = ctx.fresh('arg')
                        new.append(setv(v, kw.value))
                        kw.value = name(v)
                if new:
                    b[i:i] = new
                    i += len(new)
                    done = True
            i += 1
    return done


def simple(e):
    return isinstance(e, ast.Name) or isinstance(e, ast.Attribute) and simple(e.value)


def t_iter(fn, ctx):
    done = False
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
                v = ctx.fresh('seq')
                b.insert(i, setv(v, s.iter))
                s.iter = name(v)
                i += 1
                done = True
            i += 1
    return done


def t_merge(fn, ctx):
    done = False
    for n in list(own_nodes(fn.body)):
        while isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            m = n.body[0]
            n.test = ast.BoolOp(ast.And(), [n.test, m.test])
            n.body = m.body
            done = True
    return done


def t_nest(fn, ctx):
    done = False
    for n in list(own_nodes(fn.body)):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for t in reversed(n.test.values[1:]):
                body = [ast.If(t, body, [])]
            n.test, n.body = n.test.values[0], body
            done = True
    return done


def t_any(fn, ctx):
    """if any(..): -> a loop with a flag"""
    done = False
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If):
                t, neg = s.test, False
                if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    t, neg = t.operand, True
                if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ('any', 'all') and len(t.args) == 1 and \
                        isinstance(t.args[0], (ast.GeneratorExp, ast.ListComp)):
                    g = copy.deepcopy(t.args[0])
                    tg = set(n.id for x in g.generators for n in names_in(x.target))
                    ren = dict((x, ctx.fresh('it')) for x in tg)
                    skip = set(id(n) for n in ast.walk(g.generators[0].iter))
                    for n in ast.walk(g):
                        if isinstance(n, ast.Name) and n.id in ren and id(n) not in skip:
                            n.id = ren[n.id]
                    flag = ctx.fresh('flag')
                    isany = t.func.id == 'any'
                    body = [ast.If(g.elt if isany else no(g.elt), [setv(flag, ast.Constant(isany))] + ([ast.Break()] if len(g.generators) == 1 else []), [])]
                    for x in reversed(g.generators):
                        for c in reversed(x.ifs):
                            body = [ast.If(c, body, [])]
                        body = [ast.For(x.target, x.iter, body, [])]
                    b[i:i] = [setv(flag, ast.Constant(not isany))] + body
                    i += 2
                    s.test = no(name(flag)) if neg else name(flag)
                    done = True
            i += 1
    return done


def t_ifexp(fn, ctx):
    """x = A if C else B  <->  if C: x = A else: x = B"""
    done = False
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.value, ast.IfExp):
                v = s.value
                b[i] = ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
                done = True
            elif isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and \
                    ast.dump(ast.Module(s.body[0].targets, [])) == ast.dump(ast.Module(s.orelse[0].targets, [])) and isinstance(s.body[0].targets[0], ast.Name):
                b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
                done = True
            i += 1
    return done


def t_format(fn, ctx):
    """'%s' % (a, b) -> f-string; '{0}'.format(a) -> concatenation by f-string"""
    done = False

    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            nonlocal done
            self.generic_visit(n)
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple):
                parts = n.left.value.split('%s')
                if '%' in ''.join(parts) or len(parts) != len(n.right.elts) + 1:
                    return n
                done = True
                vs = []
                for i, p in enumerate(parts):
                    if p:
                        vs.append(ast.Constant(p))
                    if i < len(n.right.elts):
                        vs.append(ast.FormattedValue(n.right.elts[i], -1, None))
                return ast.JoinedStr(vs)
            return n

        def visit_Call(self, n):
            nonlocal done
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and not n.keywords:
                import re
                ps = re.split(r'\{(\d+)\}', n.func.value.value)
                if '{' in ''.join(ps[::2]) or '}' in ''.join(ps[::2]):
                    return n
                vs = []
                for i, p in enumerate(ps):
                    if i % 2:
                        vs.append(ast.FormattedValue(copy.deepcopy(n.args[int(p)]), -1, None))
                    elif p:
                        vs.append(ast.Constant(p))
                done = True
                return ast.JoinedStr(vs)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and isinstance(n.func.value, ast.Constant) and len(n.args) == 1 and \
                    isinstance(n.args[0], (ast.List, ast.Tuple)) and len(n.args[0].elts) >= 2 and not any(isinstance(e, ast.Starred) for e in n.args[0].elts):
                vs = []
                for i, e in enumerate(n.args[0].elts):
                    if i:
                        vs.append(n.func.value)
                    vs.append(e)
                out = vs[0]
                for v in vs[1:]:
                    out = ast.BinOp(out, ast.Add(), v)
                done = True
                return out
            return n
    V().visit(fn)
    return done


def t_append(fn, ctx):
    done = False
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'append' and \
                    len(s.value.args) == 1 and isinstance(s.value.func.value, (ast.Name, ast.Attribute)):
                b[i] = ast.Expr(ast.Call(ast.Attribute(s.value.func.value, 'extend', ast.Load()), [ast.List([s.value.args[0]], ast.Load())], []))
                done = True
    return done


def t_demorgan(fn, ctx):
    done = False
    for n in list(own_nodes(fn.body)):
        if isinstance(n, (ast.If, ast.While)) and isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [no(v) for v in n.test.values]))
            done = True
    return done


def t_noop(fn, ctx):
    for b in blocks(fn):
        k = 0
        if b is fn.body and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
            k = 1
        b.insert(k, setv(ctx.fresh('unused'), ast.Constant(None)))
    return True


def t_trywrap(fn, ctx):
    """the whole body in a try whose handler raises again"""
    body = fn.body
    k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
    if len(body) <= k:
        return False
    fn.body = body[:k] + [ast.Try(body[k:], [ast.ExceptHandler(name('Exception'), None, [ast.Raise(None, None)])], [], [])]
    return True


def t_else(fn, ctx):
    """if C: return/raise/continue; rest  ->  if C: ... else: rest"""
    done = False
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and b[i + 1:]:
                s.orelse = b[i + 1:]
                del b[i + 1:]
                done = True
                break
    return done


def t_selfvar(fn, ctx):
    """chains such as self.a.b() get the object in a variable first: obj = self.a; obj.b()"""
    done = False
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            c = getattr(s, 'value', None)
            if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                    isinstance(c.func.value, ast.Attribute) and simple(c.func.value):
                v = ctx.fresh('obj')
                b.insert(i, setv(v, c.func.value))
                c.func.value = name(v)
                i += 1
                done = True
            i += 1
    return done


def extractable(stmts, fn, rest_names):
    for s in stmts:
        for n in [s] + list(ast.walk(s)):
            if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.Delete)):
                return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
                return None
            if isinstance(n, ast.Raise) and n.exc is None:
                return None

    def jumps(body, inloop):
        for s in body:
            if isinstance(s, (ast.Break, ast.Continue)) and not inloop:
                return True
            for f in ('body', 'orelse', 'finalbody'):
                sub = getattr(s, f, None)
                if isinstance(sub, list) and sub and jumps(sub, inloop or isinstance(s, (ast.For, ast.While)) and f == 'body'):
                    return True
            for h in getattr(s, 'handlers', []):
                if jumps(h.body, inloop):
                    return True
        return False
    if jumps(stmts, False):
        return None
    loc = fn_locals(fn)
    stores = set(n.id for s in stmts for n in names_in(s, (ast.Store, ast.Del)))
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.ExceptHandler) and n.name:
                stores.add(n.name)
    # comprehension variables do not count
    comp = set(n.id for s in stmts for c in ast.walk(s) if isinstance(c, ast.comprehension) for n in names_in(c.target))
    if (stores - comp) & rest_names:
        return None
    reads = [n for s in stmts for n in names_in(s, ast.Load)]
    args = []
    for n in reads:
        if n.id in loc and n.id not in args and not (n.id in comp and n.id not in fn_params(fn) and n.id not in rest_names):
            args.append(n.id)
    # something both read and stored inside: a parameter only if it may be read before
    return args, stores


def t_extract(fn, ctx, which='body'):
    """bodies of loops, withs and ifs become helper functions"""
    done = False
    method = ctx.cls is not None and fn.args.args and fn.args.args[0].arg == 'self'
    if ctx.cls is not None and not method:
        return False
    cands = []
    for n in own_nodes(fn.body):
        if isinstance(n, (ast.For, ast.With, ast.While, ast.If)):
            for f in ('body', 'orelse'):
                b = getattr(n, f, [])
                if b and sum(1 for s in b for _ in ast.walk(s)) > 14 and not (f == 'orelse' and isinstance(b[0], ast.If) and len(b) == 1):
                    cands.append(b)
    # largest first
    cands.sort(key=lambda b: -sum(1 for s in b for _ in ast.walk(s)))
    if which == 'small':
        cands.reverse()
    for b in cands:
        inside = set(id(n) for s in b for n in ast.walk(s))
        if not inside <= set(id(n) for n in ast.walk(fn)):
            continue
        rest = set(n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and id(n) not in inside)
        x = extractable(b, fn, rest)
        if x is None:
            continue
        args, stores = x
        outer = [a for a in args if a in rest or a in fn_params(fn)]
        if method and 'self' in outer:
            outer.remove('self')
        h = ctx.fresh('part') + '_' + fn.name.strip('_')
        new = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in (['self'] if method else []) + outer], None, [], [], None, []), list(b), decos(fn), None, None)
        new.type_params = []
        call = ast.Expr(ast.Call(ast.Attribute(name('self'), h, ast.Load()) if method else name(h), [name(a) for a in outer], []))
        b[:] = [call]
        ctx.added.append(new)
        done = True
        if which == 'small':
            break
        break
    return done


def t_extract_small(fn, ctx):
    return t_extract(fn, ctx, 'small')


def t_extract_cond(fn, ctx):
    """the tests of ifs become predicate methods"""
    done = False
    method = ctx.cls is not None and fn.args.args and fn.args.args[0].arg == 'self'
    if ctx.cls is not None and not method:
        return False
    loc = fn_locals(fn)
    for n in list(own_nodes(fn.body)):
        if isinstance(n, ast.If) and sum(1 for _ in ast.walk(n.test)) > 5 and not any(isinstance(m, (ast.NamedExpr, ast.Lambda)) for m in ast.walk(n.test)):
            comp = set(v.id for c in ast.walk(n.test) if isinstance(c, ast.comprehension) for v in names_in(c.target))
            args = []
            for v in names_in(n.test, ast.Load):
                if v.id in loc and v.id not in args and v.id not in comp and not (method and v.id == 'self'):
                    args.append(v.id)
            h = ctx.fresh('is') + '_' + fn.name.strip('_')
            new = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in (['self'] if method else []) + args], None, [], [], None, []), [ast.Return(n.test)], decos(fn), None, None)
            new.type_params = []
            n.test = ast.Call(ast.Attribute(name('self'), h, ast.Load()) if method else name(h), [name(a) for a in args], [])
            ctx.added.append(new)
            done = True
    return done


def t_extract_value(fn, ctx):
    """the values of assignments become helper functions"""
    done = False
    method = ctx.cls is not None and fn.args.args and fn.args.args[0].arg == 'self'
    if ctx.cls is not None and not method:
        return False
    loc = fn_locals(fn)
    for n in list(own_nodes(fn.body)):
        if isinstance(n, ast.Assign) and sum(1 for _ in ast.walk(n.value)) > 7 and \
                not any(isinstance(m, (ast.NamedExpr, ast.Lambda, ast.Yield)) or isinstance(m, ast.Name) and m.id == 'super' for m in ast.walk(n.value)):
            comp = set(v.id for c in ast.walk(n.value) if isinstance(c, ast.comprehension) for v in names_in(c.target))
            args = []
            for v in names_in(n.value, ast.Load):
                if v.id in loc and v.id not in args and v.id not in comp and not (method and v.id == 'self'):
                    args.append(v.id)
            h = ctx.fresh('val') + '_' + fn.name.strip('_')
            new = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in (['self'] if method else []) + args], None, [], [], None, []), [ast.Return(n.value)], decos(fn), None, None)
            new.type_params = []
            n.value = ast.Call(ast.Attribute(name('self'), h, ast.Load()) if method else name(h), [name(a) for a in args], [])
            ctx.added.append(new)
            done = True
    return done


def t_while(fn, ctx):
    """for x in S -> it = iter(S); while True: try: x = next(it) except StopIteration: break"""
    done = False
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not s.orelse:
                it = ctx.fresh('iter')
                tr = ast.Try([ast.Assign([s.target], ast.Call(name('next'), [name(it)], []))], [ast.ExceptHandler(name('StopIteration'), None, [ast.Break()])], [], [])
                b[i:i + 1] = [setv(it, ast.Call(name('iter'), [s.iter], [])), ast.While(ast.Constant(True), [tr] + s.body, [])]
                i += 1
                done = True
            i += 1
    return done


def t_index(fn, ctx):
    """for x in S -> for i in range(len(S))  over a list copy"""
    done = False
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range'):
                it, k = ctx.fresh('all'), ctx.fresh('k')
                b[i:i + 1] = [setv(it, ast.Call(name('list'), [s.iter], [])),
                              ast.For(name(k, ast.Store()), ast.Call(name('range'), [ast.Call(name('len'), [name(it)], [])], []),
                                      [setv(s.target.id, ast.Subscript(name(it), name(k), ast.Load()))] + s.body, [])]
                i += 1
                done = True
            i += 1
    return done


def t_closewith(fn, ctx):
    """with open(..) as fd: B -> fd = open(..); try: B finally: fd.close()"""
    done = False
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].optional_vars, ast.Name):
                v = s.items[0].optional_vars.id
                b[i:i + 1] = [setv(v, s.items[0].context_expr),
                              ast.Try(s.body, [], [], [ast.Expr(ast.Call(ast.Attribute(name(v), 'close', ast.Load()), [], []))])]
                i += 1
                done = True
            i += 1
    return done


def decos(fn):
    return [name(d.id) for d in fn.decorator_list if isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod')]


def t_swap(fn, ctx):
    """neighbouring assignments to plain variables that do not depend on each other change places"""
    done = False

    def ok(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
            all(isinstance(c.func, ast.Name) and c.func.id in ('len', 'str', 'list', 'dict', 'OrderedDict', 'isinstance', 'set') or
                isinstance(c.func, ast.Attribute) and c.func.attr in ('join', 'strip', 'split', 'startswith', 'endswith', 'format', 'get', 'basename', 'dirname')
                for c in ast.walk(s.value) if isinstance(c, ast.Call))
    for b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            s, u = b[i], b[i + 1]
            if ok(s) and ok(u) and s.targets[0].id != u.targets[0].id and \
                    s.targets[0].id not in [n.id for n in names_in(u.value)] and u.targets[0].id not in [n.id for n in names_in(s.value)]:
                b[i], b[i + 1] = u, s
                done = True
                i += 1
            i += 1
    return done


def t_hoist(fn, ctx):
    """string constants become names of the module"""
    done = False
    doc = fn.body[0].value if fn.body and isinstance(fn.body[0], ast.Expr) else None

    class V(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            return n

        def visit_FunctionDef(self, n):
            return n

        def visit_Constant(self, n):
            if isinstance(n.value, str) and n is not doc and len(n.value) > 1:
                h = ctx.fresh('STR')
                ctx.top.append(setv(h, ast.Constant(n.value)))
                return name(h)
            return n
    n0 = len(ctx.top)
    for i, s in enumerate(fn.body):
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
            fn.body[i] = V().visit(s)
    return len(ctx.top) > n0


def t_member(fn, ctx):
    """x == a or x == b  <->  x in (a, b)"""
    done = [0]

    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.List)) and \
                    isinstance(n.left, (ast.Name, ast.Attribute)):
                done[0] = 1
                inn = isinstance(n.ops[0], ast.In)
                vs = [ast.Compare(copy.deepcopy(n.left), [ast.Eq() if inn else ast.NotEq()], [e]) for e in n.comparators[0].elts]
                return ast.BoolOp(ast.Or() if inn else ast.And(), vs) if len(vs) > 1 else vs[0]
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and isinstance(n.comparators[0], ast.Constant) and isinstance(n.comparators[0].value, str):
                done[0] = 1
                return ast.Compare(n.left, [ast.In() if isinstance(n.ops[0], ast.Eq) else ast.NotIn()], [ast.Tuple([n.comparators[0]], ast.Load())])
            return n
    fn.body = [V().visit(s) for s in fn.body]
    return done[0]


def t_get(fn, ctx):
    """d.get(k) -> (d[k] if k in d else None)  and  v = d.get(..)"""
    done = [0]

    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == 'get' and 1 <= len(n.args) <= 2 and not n.keywords and isinstance(n.args[0], (ast.Constant, ast.Name)) and \
                    (isinstance(f.value, ast.Name) or isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name)) and \
                    not any(isinstance(m, ast.Call) for a in n.args[1:] for m in ast.walk(a)):
                done[0] = 1
                return ast.IfExp(ast.Compare(copy.deepcopy(n.args[0]), [ast.In()], [copy.deepcopy(f.value)]),
                                 ast.Subscript(f.value, n.args[0], ast.Load()), n.args[1] if len(n.args) > 1 else ast.Constant(None))
            return n
    fn.body = [V().visit(s) for s in fn.body]
    return done[0]


def t_unpack(fn, ctx):
    """for a, b in S -> for t in S: a = t[0]; b = t[1]"""
    done = False
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in s.target.elts):
                v = ctx.fresh('pair')
                s.body[:0] = [setv(e.id, ast.Subscript(name(v), ast.Constant(i), ast.Load())) for i, e in enumerate(s.target.elts)]
                s.target = name(v, ast.Store())
                done = True
    return done


def t_items(fn, ctx):
    """for k in D: uses D[k] -> for k, v in D.items()"""
    done = False
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, (ast.Name, ast.Attribute)):
                d = ast.dump(s.iter)
                uses = [n for x in s.body for n in ast.walk(x) if isinstance(n, ast.Subscript) and ast.dump(n.value) == d and
                        isinstance(n.slice, ast.Name) and n.slice.id == s.target.id]
                if not uses or any(not isinstance(n.ctx, ast.Load) for n in uses):
                    continue
                v = ctx.fresh('val')

                class V(ast.NodeTransformer):
                    def visit_Subscript(self, n):
                        if any(n is u for u in uses):
                            return name(v)
                        return self.generic_visit(n)
                s.body = [V().visit(x) for x in s.body]
                s.target = ast.Tuple([s.target, name(v, ast.Store())], ast.Store())
                s.iter = ast.Call(ast.Attribute(s.iter, 'items', ast.Load()), [], [])
                done = True
    return done


def t_keys(fn, ctx):
    """for k, v in D.items() -> for k in D: v = D[k]"""
    done = False
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name) and \
                    isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr in ('items', 'iteritems') and not s.iter.args:
                d = s.iter.func.value
                s.body[:0] = [ast.Assign([s.target.elts[1]], ast.Subscript(copy.deepcopy(d), name(s.target.elts[0].id), ast.Load()))]
                s.target, s.iter = s.target.elts[0], d
                done = True
    return done


def t_alias(fn, ctx):
    """attributes of self that the function only reads are read into a variable before"""
    if not (fn.args.args and fn.args.args[0].arg == 'self') or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fn.body)):
        return False
    done = False
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and getattr(s, 'value', None) is not None and not isinstance(s.value, ast.Constant):
                at = [n for n in ast.walk(s.value) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load) and
                      not any(isinstance(c, ast.Call) and c.func is n for c in ast.walk(s.value))]
                if len(at) == 1 and not any(isinstance(m, (ast.BoolOp, ast.IfExp, ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.DictComp)) for m in ast.walk(s.value)):
                    v = ctx.fresh('mine')

                    class V(ast.NodeTransformer):
                        def visit_Attribute(self, n):
                            if n is at[0]:
                                return name(v)
                            return self.generic_visit(n)
                    s.value = V().visit(s.value)
                    b.insert(i, setv(v, at[0]))
                    done = True
                    break
    return done


def t_elif(fn, ctx):
    """elif -> else: if, and a value for the test"""
    done = False
    for b in blocks(fn):
        for s in b:
            if isinstance(s, ast.If) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                s.orelse.insert(0, ast.Pass())
                done = True
    return done


def t_boolret(fn, ctx):
    """return A and B -> if not A: return A..."""
    done = False
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.BoolOp):
                v = ctx.fresh('v')
                out = [setv(v, s.value.values[0])]
                for x in s.value.values[1:]:
                    out.append(ast.If(name(v) if isinstance(s.value.op, ast.And) else no(name(v)), [setv(v, x)], []))
                b[i:i + 1] = out + [ast.Return(name(v))]
                done = True
                break
    return done


def t_modfunc(fn, ctx):
    """the body of a method moves to a function of the module, which is given self"""
    if ctx.cls is None or not (fn.args.args and fn.args.args[0].arg == 'self') or fn.decorator_list or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs:
        return False
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) or isinstance(n, ast.Name) and n.id in ('super', '__class__') for n in own_nodes(fn.body)):
        return False
    k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
    if len(fn.body) <= k or any(isinstance(n, ast.Attribute) and n.attr.startswith('__') and not n.attr.endswith('__') for n in ast.walk(fn)):
        return False
    h = '_do_' + fn.name.strip('_') + ctx.fresh('f')
    new = ast.FunctionDef(h, ast.arguments([], [ast.arg(a.arg) for a in fn.args.args], None, [], [], None, []), fn.body[k:], [], None, None)
    new.type_params = []
    ctx.top.append(new)
    fn.body = fn.body[:k] + [ast.Return(ast.Call(name(h), [name(a.arg) for a in fn.args.args], []))]
    return True


def t_walrus(fn, ctx):
    """v = E; if v...: -> if (v := E)..."""
    done = False
    for b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            s, u = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(u, ast.If):
                first = u.test
                while isinstance(first, (ast.BoolOp, ast.UnaryOp, ast.Compare)):
                    par = first
                    first = first.values[0] if isinstance(first, ast.BoolOp) else first.operand if isinstance(first, ast.UnaryOp) else first.left
                if isinstance(first, ast.Name) and first.id == s.targets[0].id:
                    w = ast.NamedExpr(name(first.id, ast.Store()), s.value)
                    if first is u.test:
                        u.test = w
                    elif isinstance(par, ast.BoolOp):
                        par.values[0] = w
                    elif isinstance(par, ast.UnaryOp):
                        par.operand = w
                    else:
                        par.left = w
                    del b[i]
                    done = True
                    continue
            i += 1
    return done


def t_ternary(fn, ctx):
    """x = A if C else B -> if C: x = A else: x = B;  x = A or B -> x = A; if not x: x = B"""
    done = False
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v = s.value
                if isinstance(v, ast.IfExp):
                    b[i] = ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
                    done = True
                elif isinstance(v, ast.BoolOp) and len(v.values) == 2:
                    x = s.targets[0].id
                    if any(n.id == x for n in names_in(v.values[1])):
                        continue
                    b[i:i + 1] = [setv(x, v.values[0]), ast.If(no(name(x)) if isinstance(v.op, ast.Or) else name(x), [setv(x, v.values[1])], [])]
                    done = True
                    break
    return done


def t_default(fn, ctx):
    """x = A before; if C: x = B   ->   if C: x = B else: x = A (A a constant)"""
    done = False
    for b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            s, u = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(u, ast.If) and not u.orelse and \
                    isinstance(s.value, (ast.Constant, ast.Name)) and s.targets[0].id not in [n.id for n in names_in(u.test)] and \
                    any(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == s.targets[0].id for x in u.body) and \
                    not any(n.id == s.targets[0].id for n in names_in(u.body[0], ast.Load)):
                k = [isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == s.targets[0].id for x in u.body].index(True)
                if any(n.id == s.targets[0].id for x in u.body[:k + 1] for n in names_in(x, ast.Load)):
                    i += 1
                    continue
                u.orelse = [s]
                del b[i]
                done = True
                continue
            i += 1
    return done


def t_genlist(fn, ctx):
    """the sequence a loop runs over is made a list first"""
    done = False
    for b in blocks(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not isinstance(s.iter, ast.Call):
                v = ctx.fresh('seq')
                b.insert(i, setv(v, s.iter))
                s.iter = name(v)
                done = True
                i += 1
            i += 1
    return done


T = dict((k[2:], v) for k, v in sorted(globals().items()) if k.startswith('t_'))


class Ctx_(object):
    def __init__(self, cls):
        self.cls = cls
        self.fresh = Fresh()
        self.added = []
        self.top = []


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield None, n
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield n, m


def variants(tsel, fsel):
    for f in FILES:
        src = open('/repo/multibag/' + f).read()
        k = len(list(functions(ast.parse(src))))
        for i in range(k):
            for t in sorted(T):
                if tsel and t not in tsel:
                    continue
                tree = ast.parse(src)
                cls, fn = list(functions(tree))[i]
                q = (cls.name + '.' if cls else '') + fn.name
                if fsel and fsel not in q:
                    continue
                ctx = Ctx_(cls)
                if not T[t](fn, ctx):
                    continue
                home = cls.body if cls else tree.body
                for a in ctx.added:
                    home.insert(home.index(fn) if not cls else home.index(fn) + 1, a)
                at = tree.body.index(cls or fn)
                tree.body[at:at] = ctx.top
                ast.fix_missing_locations(tree)
                new = ast.unparse(tree) + '\n'
                if t == 'None':
                    continue
                yield (f, q, t, new, ast.unparse(fn) + ''.join('\n' + ast.unparse(a) for a in ctx.added + ctx.top))


def mixed(n, fsel):
    """several rewritings after each other, on all functions of a file at a time if it has no selection"""
    import random
    for f in FILES:
        src = open('/repo/multibag/' + f).read()
        k = len(list(functions(ast.parse(src))))
        for i in range(k):
            cls, fn = list(functions(ast.parse(src)))[i]
            q = (cls.name + '.' if cls else '') + fn.name
            if fsel and fsel not in q or len(fn.body) < 2:
                continue
            for seed in range(n):
                rnd = random.Random('%s %s %d' % (f, q, seed))
                names = sorted(T)
                rnd.shuffle(names)
                tree = ast.parse(src)
                done, txt = [], ''
                fresh = Fresh()
                for t in names:
                    cls, fn = [(c, x) for c, x in functions(tree) if (c.name + '.' if c else '') + x.name == q][0]
                    ctx = Ctx_(cls)
                    ctx.fresh = fresh
                    keep = ast.unparse(tree)
                    if T[t](fn, ctx):
                        home = cls.body if cls else tree.body
                        for a in ctx.added:
                            home.insert(home.index(fn) if not cls else home.index(fn) + 1, a)
                        at = tree.body.index(cls or fn)
                        tree.body[at:at] = ctx.top
                        ast.fix_missing_locations(tree)
                        new = ast.unparse(tree) + '\n'
                        try:
                            compile(new, f, 'exec')
                        except SyntaxError:
                            tree = ast.parse(keep)
                            continue
                        tree = ast.parse(new)
                        done.append(t)
                        txt = ast.unparse(fn) + ''.join('\n' + ast.unparse(a) for a in ctx.added + ctx.top)
                        if len(done) == 4:
                            break
                if done:
                    yield (f, q, '+'.join(done), ast.unparse(tree) + '\n', txt)


def one(v):
    import check
    from mbsa.query import Ctx, RULES
    f, q, t, new, txt = v
    d = tempfile.mkdtemp(prefix='mbref')
    try:
        shutil.copytree('/repo/multibag', d + '/multibag')
        p = os.path.join(d, 'multibag', f)
        open(p, 'w').write(new)
        try:
            compile(new, p, 'exec')
        except SyntaxError as e:
            return v, None, str(e)
        hit = {}
        try:
            ctx = Ctx(d)
            for p in sorted(set(x[0] for x in RULES)):
                rep = check.decide(ctx, p)
                kn = [(k['rule'], k['construct']) for k in check.known(p)]
                b = [o for o in rep.obligations if not o[2] and (o[0], o[1]) not in kn]
                if b:
                    hit[p] = b
        except Exception as e:
            import traceback
            hit['CRASH'] = [('crash', '', False, traceback.format_exc()[-300:], '')]
        return v, hit, None
    finally:
        shutil.rmtree(d)


def test(v):
    f, q, t, new, txt = v
    d = tempfile.mkdtemp(prefix='mbtst')
    try:
        shutil.copytree('/repo', d + '/r', symlinks=True)
        open(os.path.join(d, 'r', 'multibag', f), 'w').write(new)
        r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '--no-header', '-p', 'no:cacheprovider', 'tests'],
                           cwd=d + '/r', env=dict(os.environ, PYTHONPATH=d + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.stdout.decode().strip().splitlines()[-1]
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    ts = set(a[a.index('-x') + 1].split(',')) if '-x' in a else None
    fs = a[a.index('-f') + 1] if '-f' in a else None
    vs = list(mixed(int(a[a.index('-c') + 1]), fs)) if '-c' in a else list(variants(ts, fs))
    from multiprocessing import Pool
    n = 0
    with Pool(8) as pool:
        for v, hit, err in pool.imap(one, vs, 4):
            if err:
                print('ERROR', v[:3], err)
                continue
            if hit:
                n += 1
                print('FALSE', v[0], v[1], v[2], ' '.join(sorted(hit)), test(v) if '-t' in a else '')
                for p in hit:
                    for o in hit[p][:2]:
                        print('        ', p, o[0], '|', o[1], '|', o[4], '|', o[3][:300])
            if '-p' in a:
                print(v[4])
    print('%d variants, %d with alarms' % (len(vs), n))


if __name__ == '__main__':
    main()
