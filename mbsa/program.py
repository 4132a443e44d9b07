"""
Load the package source: modules, classes (with MRO), functions, module-level names.
"""
from .normal import normalise
import ast
import os
import hashlib


class AnalysisBroken(Exception):
    """an anchor the analysis needs is not in the source"""


class FuncInfo(object):
    def __init__(self, node, module, cls=None, kind='func', parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.kind = kind            # func | static | class | property | setter
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        if parent is not None:
            self.qualname = parent.qualname + '.' + self.name
        elif cls is not None:
            self.qualname = cls.name + '.' + self.name
        else:
            self.qualname = self.name
        self.is_gen = _has_yield(node)
        self.abstract = any('abstract' in ast.dump(d) for d in getattr(node, 'decorator_list', []))

    @property
    def where(self):
        return "%s:%s" % (self.module.relpath, self.qualname)


def _each(n):
    """for x in VALUE: yield x"""
    loop = ast.parse("for _each in _: yield _each").body[0]
    loop.iter = n.value
    for x in ast.walk(loop):
        if not hasattr(x, 'lineno') or x.lineno == 1:
            if 'lineno' in x._attributes:
                x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = n.lineno, n.col_offset, n.end_lineno, n.end_col_offset
    return loop


def _has_yield(node):
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            if isinstance(n, ast.GeneratorExp):
                stack.extend(ast.iter_child_nodes(n))
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo(object):
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.base_exprs = node.bases
        self.methods = {}
        self.props = {}
        self.setters = {}
        self.attrs = {}
        self.mro = None           # list of ClassInfo | str (external)

    def find(self, name, table='methods', after=None):
        mro = self.mro
        if after is not None:
            if after in mro:
                mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassInfo) and name in getattr(c, table):
                return getattr(c, table)[name]
        return None

    def ext_bases(self):
        return [c for c in self.mro if not isinstance(c, ClassInfo)]

    def is_subclass_of(self, name):
        return any((c.name if isinstance(c, ClassInfo) else c.split('.')[-1]) == name for c in self.mro)


# private attributes that rules name: (method whose only private attribute it is, name the rules use)
CANONICAL = [('deleted_paths', '_deleted')]


def canonical_attr(tree, fn, attr):
    """if the attribute goes by another name, use the canonical one"""
    attrs = [n for n in ast.walk(tree) if isinstance(n, ast.Attribute)]
    if any(n.attr == attr for n in attrs):
        return
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and f.name == fn:
            used = set(n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and
                       n.attr.startswith('_') and not n.attr.startswith('__'))
            if len(used) == 1:
                old = used.pop()
                for n in attrs:
                    if n.attr == old:
                        n.attr = attr
                return


class Module(object):
    def __init__(self, name, path, relpath, src):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.src = src
        self.tree = normalise(ast.parse(src, path))
        for fn, attr in CANONICAL:
            canonical_attr(self.tree, fn, attr)
        self.names = {}            # name -> ('func',FuncInfo)|('class',ClassInfo)|('mod',name)|('from',mod,name)|('expr',node)
        self.star = []


class Program(object):
    def __init__(self, root, pkg='multibag'):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.classes = {}
        self.funcs = []
        self.digest = hashlib.sha256()
        base = os.path.join(root, pkg)
        for d, subs, files in sorted(os.walk(base)):
            subs.sort()
            if '__pycache__' in d:
                continue
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                mod = rel[:-3].replace(os.sep, '.')
                if mod.endswith('.__init__'):
                    mod = mod[:-9]
                with open(p, encoding='utf-8') as fd:
                    src = fd.read()
                self.digest.update(rel.encode() + b'\0' + src.encode())
                self.modules[mod] = Module(mod, p, rel, src)
        if not self.modules:
            raise AnalysisBroken("no source found under %s" % base)
        for m in self.modules.values():
            self._scan(m, m.tree.body)
        for m in self.modules.values():
            for k, v in m.names.items():
                if v[0] == 'class':
                    self.classes.setdefault(v[1].name, v[1])
        for c in self.classes.values():
            self._mro(c)
        self._delegated()

    def _delegated(self):
        """write `yield from X` as a loop, and a function that only returns the generator of another as a generator itself"""
        class Loops(ast.NodeTransformer):
            def visit_Expr(self, n):
                return _each(n.value) if isinstance(n.value, ast.YieldFrom) else n
        for f in self.funcs:
            if f.is_gen and isinstance(f.node.body, list):
                f.node.body = [Loops().visit(s) for s in f.node.body]
        again = True
        while again:
            again = False
            for f in self.funcs:
                if f.is_gen or not isinstance(f.node.body, list) or f.kind not in ('func', 'static', 'class'):
                    continue
                body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Call):
                    g = self._callee(f, body[0].value.func)
                    if g is not None and g.is_gen:
                        f.node.body = [_each(body[0])]
                        f.is_gen = again = True

    def _callee(self, f, fn):
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and f.cls is not None and f.node.args.args and \
                fn.value.id == f.node.args.args[0].arg:
            return f.cls.find(fn.attr)
        if isinstance(fn, ast.Name):
            v = f.module.names.get(fn.id)
            if v is not None and v[0] == 'func':
                return v[1]
        return None

    # ------------------------------------------------------------------ scanning
    def _scan(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(n, m)
                m.names[n.name] = ('func', fi)
                self.funcs.append(fi)
            elif isinstance(n, ast.ClassDef):
                ci = ClassInfo(n, m)
                m.names[n.name] = ('class', ci)
                self._scan_class(ci)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.names[a.asname] = ('ext', a.name)
                    else:
                        m.names[a.name.split('.')[0]] = ('ext', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                src = self._absmod(m, n)
                for a in n.names:
                    if a.name == '*':
                        m.star.append(src)
                    else:
                        m.names[a.asname or a.name] = ('from', src, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if t.id in m.names and m.names[t.id][0] == 'expr' and isinstance(n.value, ast.Name) \
                           and n.value.id == 'unicode':
                            continue
                        m.names[t.id] = ('expr', n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.names[n.target.id] = ('expr', n.value)
            elif isinstance(n, ast.If):
                # python version switches: the Python 3 arm is the one that runs
                txt = ast.dump(n.test)
                if 'version_info' in txt:
                    py3 = any(isinstance(o, (ast.Gt, ast.GtE)) for o in getattr(n.test, 'ops', []))
                    self._scan(m, n.body if py3 else n.orelse)
                else:
                    self._scan(m, n.body)
                    self._scan(m, n.orelse)
            elif isinstance(n, ast.Try):
                for h in n.handlers:
                    self._scan(m, h.body)
                self._scan(m, n.body)
            elif isinstance(n, ast.With):
                self._scan(m, n.body)

    def _scan_class(self, ci):
        for n in ci.node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = 'func'
                for d in n.decorator_list:
                    s = ast.unparse(d)
                    if s in ('property', 'abc.abstractproperty', 'abstractproperty') or s.endswith('cached_property'):
                        kind = 'property'
                    elif s.endswith('.setter'):
                        kind = 'setter'
                    elif s.endswith('.deleter'):
                        kind = 'deleter'
                    elif s == 'staticmethod':
                        kind = 'static'
                    elif s == 'classmethod':
                        kind = 'class'
                fi = FuncInfo(n, ci.module, ci, kind)
                self.funcs.append(fi)
                if kind == 'property':
                    ci.props[n.name] = fi
                elif kind == 'setter':
                    ci.setters[n.name] = fi
                elif kind != 'deleter':
                    ci.methods[n.name] = fi
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        # aliasing of a method:  b = a
                        if isinstance(n.value, ast.Name) and n.value.id in ci.methods:
                            ci.methods[t.id] = ci.methods[n.value.id]
                        elif isinstance(n.value, ast.Call) and getattr(n.value.func, 'id', '') == 'property' \
                                and n.value.args and isinstance(n.value.args[0], ast.Name) \
                                and n.value.args[0].id in ci.methods:
                            ci.props[t.id] = ci.methods[n.value.args[0].id]
                        else:
                            ci.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                ci.attrs[n.target.id] = n.value

    def _absmod(self, m, n):
        if not n.level:
            return n.module
        parts = m.name.split('.')
        is_pkg = m.path.endswith('__init__.py')
        up = n.level - (1 if is_pkg else 0)
        base = parts[:len(parts) - up] if up else parts
        if n.module:
            base = base + n.module.split('.')
        return '.'.join(base)

    # ------------------------------------------------------------------ resolution
    def resolve(self, m, name, _seen=None):
        """-> ('func',fi) | ('class',ci) | ('ext',dotted) | ('expr',node,module) | ('mod',Module) | None"""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        v = m.names.get(name)
        if v is None:
            for s in m.star:
                if s in self.modules:
                    r = self.resolve(self.modules[s], name, _seen)
                    if r:
                        return r
            return None
        if v[0] == 'from':
            src, nm = v[1], v[2]
            if src in self.modules:
                r = self.resolve(self.modules[src], nm, _seen)
                if r:
                    return r
                if src + '.' + nm in self.modules:
                    return ('mod', self.modules[src + '.' + nm])
                if self.modules[src].star:
                    return ('ext', self.modules[src].star[0] + '.' + nm)
                return ('ext', src + '.' + nm)
            if src is not None and (src + '.' + nm) in self.modules:
                return ('mod', self.modules[src + '.' + nm])
            return ('ext', "%s.%s" % (src, nm))
        if v[0] == 'expr':
            return ('expr', v[1], m)
        return v

    def star_name(self, m, name):
        """an unresolved name in a module with an external star import"""
        for s in m.star:
            if s not in self.modules:
                return s + '.' + name
        return None

    def _resolve_base(self, m, e):
        if isinstance(e, ast.Name):
            r = self.resolve(m, e.id)
            if r and r[0] == 'class':
                return r[1]
            if r and r[0] == 'ext':
                return r[1]
            s = self.star_name(m, e.id)
            return s or e.id
        return ast.unparse(e)

    def _mro(self, c, stack=()):
        if c.mro is not None:
            return c.mro
        if c in stack:
            return [c]
        seqs = []
        bases = []
        for e in c.base_exprs:
            b = self._resolve_base(c.module, e)
            if b == 'object':
                continue
            bases.append(b)
            seqs.append(list(self._mro(b, stack + (c,))) if isinstance(b, ClassInfo) else [b])
        seqs.append(list(bases))
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h and x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        c.mro = out
        return out

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken("class %s is not defined in the package" % name)
        return c

    def method(self, clsname, name):
        c = self.cls(clsname)
        f = c.find(name) or c.find(name, 'props')
        if f is None:
            raise AnalysisBroken("%s.%s is not defined" % (clsname, name))
        return f

    def function(self, modname, name):
        m = self.modules.get(modname)
        r = self.resolve(m, name) if m else None
        if not r or r[0] != 'func':
            raise AnalysisBroken("function %s.%s is not defined" % (modname, name))
        return r[1]
