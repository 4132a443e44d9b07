"""
queries over the guarded value-flow facts that engine.Analysis derives from the source.
A rule asks for events (call sites with resolved values and guards) and states obligations about them.
"""
from .terms import *
from .terms import TRUE, FALSE, NONE
from .engine import Analysis, under, path_root, path_parts, strip_copy, mk_path, mk_concat, tobool, f_isnone, f_eq, f_in
from .program import Program, AnalysisBroken
from .api import PUBLIC

MISSING = object()


class Ctx(object):
    """the program under analysis and a cache of per-entry analyses"""

    def __init__(self, root):
        self.prog = Program(root)
        self._cache = {}
        self.analyses = []

    def an(self, qual, inline=(), assume=None, args=None, opaque=(), exact=False):
        """analyse a function: 'Class.method' or 'module:function'"""
        k = (qual, tuple(sorted(inline)), assume, tuple(sorted((args or {}).items(), key=lambda x: x[0])),
             tuple(sorted(opaque)), exact)
        a = self._cache.get(k)
        if a is None:
            if ':' in qual:
                m, f = qual.split(':')
                a = Analysis(self.prog, self.prog.function(m, f), inline=inline, api=PUBLIC, assume=assume,
                             args=args, opaque=opaque, exact=exact)
            else:
                c, f = qual.rsplit('.', 1)
                a = Analysis(self.prog, self.prog.method(c, f), self.prog.cls(c), inline=inline, api=PUBLIC,
                             assume=assume, args=args, opaque=opaque, exact=exact)
            a.qual = qual
            self._cache[k] = a
            self.analyses.append(a)
        return a

    def attr_of_prop(self, cls, prop):
        """the term a property getter returns (its backing attribute)"""
        return self.an('%s.%s' % (cls, prop)).retval()


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.obligations = []        # (rule, construct, ok, message, where)
        self.rule = None
        self.counts = {}

    def ok(self, cond, where, construct, msg):
        """state one obligation: cond must hold at `where`"""
        if hasattr(where, 'where'):
            where = where.where
            if callable(where):
                where = where()
        self.obligations.append((self.rule, construct, bool(cond), msg, where))
        self.counts[self.rule] = self.counts.get(self.rule, 0) + 1
        return bool(cond)

    def fail(self, where, construct, msg):
        return self.ok(False, where, construct, msg)


RULES = []


def rule(prop, name, text, floor=1):
    """register a rule for property `prop`"""
    props = [prop] if isinstance(prop, str) else list(prop)

    def deco(fn):
        for p in props:
            RULES.append((p, name, text, floor, fn))
        return fn
    return deco


# ------------------------------------------------------------------ terms

def call_of(t, *names):
    """t is a call (value or truth value) to one of the named functions/methods"""
    return isinstance(t, Term) and t.op in ('call', 'bcall') and t.args and t.args[0] in names


def attr_of(t, name, base=None):
    return isinstance(t, Term) and t.op == 'attr' and t.args[1] == name and (base is None or t.args[0] is base)


def has(t, pred):
    return any(pred(s) for s in subterms(t) if isinstance(s, Term))


def has_call(t, *names):
    return has(t, lambda s: call_of(s, *names))


def uncopy(t):
    """look through order-preserving/dropping copies: list(x), reversed(x), sorted(x), set(x)"""
    while True:
        if t.op == 'copy':
            t = t.args[1]
        elif t.op == 'call' and t.args[0] in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'iter', '.keys', '.copy') \
                and len(t.args) == 2:
            t = t.args[1]
        else:
            return t


def cases(t, g=TRUE):
    """[(guard, value)] alternatives of a gated value"""
    if t.op == 'ite':
        return cases(t.args[1], f_and(g, t.args[0])) + cases(t.args[2], f_and(g, f_not(t.args[0])))
    return [(g, t)] if g is not FALSE else []


def leaves(t):
    return [v for g, v in cases(t)]


OPAQUE = ('comp', 'accum', 'pick', 'first', 'loopout', 'phi', 'loopvar', 'F', 'existsq', 'closure')


def find_ite(t, seen=None, keep=()):
    """a gated value inside t that is not below a binder"""
    seen = set() if seen is None else seen
    if t in seen or t in keep:
        return None
    seen.add(t)
    if t.op == 'ite':
        return t
    if t.op in OPAQUE:
        return None
    for a in t.args:
        if isinstance(a, Term):
            r = find_ite(a, seen, keep)
            if r is not None:
                return r
    return None


def rebuild(t, old, new, memo=None):
    """t with every occurrence of the term old replaced by new"""
    memo = {} if memo is None else memo
    if t is old:
        return new
    r = memo.get(t)
    if r is None:
        if t.op in OPAQUE or not contains(t, old):
            r = t
        else:
            args = [rebuild(a, old, new, memo) if isinstance(a, Term) else a for a in t.args]
            if t.op == 'concat':
                r = mk_concat(args) if args[0].op == 'path' else cat(*args)
            elif t.op == 'path':
                r = mk_path(args)
            else:
                r = T(t.op, *args)
        memo[t] = r
    return r


def lift(t, g=TRUE, limit=32, keep=()):
    """[(guard, ungated term)]: the alternatives of a term with gated parts"""
    out, todo = [], [(g, t)]
    while todo:
        g, t = todo.pop()
        if g is FALSE:
            continue
        i = find_ite(t, None, keep)
        if i is None or len(out) + len(todo) > limit:
            out.append((g, t))
            continue
        c = simplify_by(i.args[0], g)
        if c is not FALSE:
            todo.append((f_and(g, c), rebuild(t, i, i.args[1])))
        if c is not TRUE:
            todo.append((f_and(g, f_not(c)), rebuild(t, i, i.args[2])))
    return out


# ------------------------------------------------------------------ guards

def assign(node, fn):
    """fix the atoms for which fn(atom) is not None"""
    asg = {}
    for a in support(node):
        v = fn(a)
        if v is not None:
            asg[a] = v
    return restrict(node, asg)


def under_normal(node, fn):
    """evaluate a guard with the expected values for its atoms; -> (bool or None, leftover atoms)"""
    n = assign(node, fn)
    if n is TRUE:
        return True, ()
    if n is FALSE:
        return False, ()
    return None, sorted(support(n), key=lambda a: a.uid)


def normal_guard(an):
    g = FALSE
    for r in an.returns:
        g = f_or(g, r[0])
    return g


def fatoms(t):
    """atoms of formulas nested in a term (comprehension conditions etc.)"""
    out = set()
    for s in subterms(t):
        if isinstance(s, Term) and s.op == 'F':
            out |= support(s.args[0])
    return out


def fatoms_g(node):
    """atoms of a guard, including those of quantified conditions inside it"""
    out = set()
    for a in support(node):
        out.add(a)
        out |= fatoms(a)
    return out


# ------------------------------------------------------------------ file-system effects

class Effect(object):
    __slots__ = ('kind', 'target', 'event', 'src')

    def __init__(self, kind, target, event, src=None):
        self.kind, self.target, self.event, self.src = kind, target, event, src

    def __repr__(self):
        return "%s(%s)" % (self.kind, show(self.target))


ONE_PATH = {'os.mkdir': 'mkdir', 'os.makedirs': 'mkdir', 'os.remove': 'remove', 'os.unlink': 'remove',
            'os.rmdir': 'remove', 'os.removedirs': 'remove', 'shutil.rmtree': 'rmtree', 'os.utime': 'utime',
            'os.chmod': 'chmod', 'os.chown': 'chmod', 'os.truncate': 'write', 'os.mkfifo': 'write',
            'os.mknod': 'write', 'shutil.chown': 'chmod', 'os.lchown': 'chmod', 'os.lchmod': 'chmod'}
COPIERS = {'shutil.copy', 'shutil.copy2', 'shutil.copyfile', 'shutil.copytree', 'os.link', 'os.symlink',
           'shutil.copymode', 'shutil.copystat', 'shutil.copyfileobj'}
MOVERS = {'os.rename', 'os.renames', 'os.replace', 'shutil.move'}
FS_METHODS = {'makedir', 'makedirs', 'removetree', 'removedir', 'copydir', 'movedir', 'writetext', 'writebytes',
              'setbytes', 'settext', 'upload', 'unlink', 'rmdir', 'touch', 'write_text', 'write_bytes', 'symlink_to',
              'hardlink_to', 'setinfo', 'rmtree'}


def mode_of(e):
    m = e.kw.get('mode')
    if m is None and len(e.args) > 1:
        m = e.args[1]
    if m is None:
        return 'r'
    return cval(m) if is_const(m) else None


def effects(an):
    """every file-system effect in the analysed code with its (symbolic) target path"""
    out = []
    for e in an.events:
        if e.kind == 'open':
            m = mode_of(e)
            if m is None or any(c in m for c in 'wax+'):
                out.append(Effect('write', e.args[0], e))
        elif e.kind == 'call':
            n = e.name
            if n in ONE_PATH and e.args:
                out.append(Effect(ONE_PATH[n], e.args[0], e))
            elif n in COPIERS and len(e.args) > 1:
                out.append(Effect('copy' if n != 'os.link' else 'link', e.args[1], e, e.args[0]))
            elif n in MOVERS and len(e.args) > 1:
                out.append(Effect('remove', e.args[0], e))
                out.append(Effect('move', e.args[1], e, e.args[0]))
            elif n in ('replicate', 'replicate_with_hardlink') and e.recv is not None and len(e.args) > 1:
                out.append(Effect('copy', mk_path([e.args[1], e.args[0]]), e, T('in_bag', e.recv, e.args[0])))
            elif n == 'save' and e.recv is not None:
                out.append(Effect('save', T('attr', e.recv, 'path'), e))
            elif e.recv is not None and n in FS_METHODS:
                out.append(Effect('write', e.args[0] if e.args else e.recv, e))
            elif n.startswith('os.') and n.split('.')[-1] in ('fdopen', 'open', 'system', 'popen'):
                out.append(Effect('write', e.args[0] if e.args else const('?'), e))
    return out


def is_empty_obj(an, t):
    """a fresh container that nothing is ever put into"""
    if t.op != 'obj' or t.args[0] not in ('dict', 'list', 'set', 'OrderedDict'):
        return False
    return not any(e.kind in ('store', 'mutate') and e.recv is not None and contains(e.recv, t) for e in an.events)


def effects_split(an, known=lambda p: False, keep=()):
    """effects with gated targets taken apart; the event of each is restricted to its alternative"""
    out = []
    for f in effects(an):
        if known(f.target) or find_ite(f.target, None, keep) is None:
            out.append(f)
            continue
        bases = T('bases', *[l.base for l in f.event.loops])
        for g, x in lift(T('alt', f.target, bases), f.event.guard, keep=keep):
            if any(is_empty_obj(an, b) for b in x.args[1].args):
                continue
            out.append(Effect(f.kind, x.args[0], EventView(f.event, g, reloop(f.event.loops, x.args[1].args)), f.src))
    return out


def reloop(loops, bases):
    from .engine import Loop
    out = []
    for l, b in zip(loops, bases):
        if b is not l.base:
            l2 = Loop(b, l.order, l.line, l.func, l.kind)
            l2.exits = l.exits
            l = l2
        out.append(l)
    return tuple(out)


class EventView(object):
    """an event under a stronger guard"""

    def __init__(self, e, guard, loops=None):
        self.__dict__['_e'] = e
        self.__dict__['guard'] = guard
        self.__dict__['loops'] = e.loops if loops is None else loops

    def __getattr__(self, n):
        return getattr(self._e, n)


def calls(an, *names, **kw):
    recv = kw.get('recv', MISSING)
    return [e for e in an.events if e.kind == 'call' and e.name in names and
            (recv is MISSING or e.recv is recv)]


def raises(an):
    return [e for e in an.events if e.kind == 'raise']


def writes_to(an, pred, keep=()):
    """.write()/.writelines()/print(file=) events on files whose path satisfies pred"""
    out = []
    for e in an.events:
        if e.kind == 'call' and e.name in ('write', 'writelines') and e.recv is not None:
            f = e.recv
            for g, v in ([(TRUE, f)] if f.op == 'file' and pred(f.args[0]) else lift(f, keep=keep)):
                if v.op == 'file' and pred(v.args[0]):
                    out.append(e)
                    break
        elif e.kind == 'call' and e.name == 'print' and 'file' in e.kw:
            f = e.kw['file']
            if f.op == 'file' and pred(f.args[0]):
                out.append(e)
    return out


def ends_with_name(p, name):
    """the last component of path term p is the constant name"""
    parts = path_parts(p)
    return bool(parts) and is_const(parts[-1]) and cval(parts[-1]) == name


def loop_breaks(e):
    """feasible early exits of the loops around an event"""
    out = []
    for l in e.loops:
        for k, g, ln in l.exits:
            if g is not FALSE:
                out.append((l, k, g, ln))
    return out


def prunes(an):
    """events that take subdirectories out of a directory walk while it goes on (reordering them is harmless)"""
    out = []
    for e in an.events:
        if e.kind not in ('mutate', 'store', 'aug') or e.recv is None or e.guard is FALSE:
            continue
        rc = e.recv
        if rc.op == 'index' and rc.args[1] is const(1) and rc.args[0].op == 'elem' and call_of(uncopy(rc.args[0].args[0]), '.walk', 'os.walk'):
            if e.name in ('sort', 'reverse'):
                continue
            if e.name == 'setslice' and e.args and uncopy(e.args[-1]) is rc:
                continue
            out.append(e)
    return out


def sliced(e, allow=()):
    """loops around an event that run over only part of their sequence"""
    return [l for l in e.loops if l not in allow and any(o.startswith('slice') for o in l.order)]


def first(xs):
    for x in xs:
        return x
    return None


def describe(at):
    return show(at)[:200]


# ------------------------------------------------------------------ text written to files

class Line(object):
    """a line (or piece of text) written to a file: its template, the loops it is repeated by and its guard"""
    __slots__ = ('path', 'mode', 'enc', 'text', 'guard', 'loops', 'event', 'file')

    def __init__(self, fterm, text, guard, loops, event):
        self.file = fterm
        self.path, self.mode = fterm.args[0], fterm.args[1]
        self.enc = fterm.args[2] if len(fterm.args) > 2 else NONE
        self.text, self.guard, self.loops, self.event = text, guard, tuple(loops), event

    @property
    def where(self):
        return self.event.where

    def parts(self):
        return list(self.text.args) if self.text.op == 'concat' else [self.text]

    def bases(self):
        return [l.base for l in self.loops]

    def __repr__(self):
        return "Line(%s: %s over %s)" % (show(self.path)[-60:], show(self.text), [show(b) for b in self.bases()])


def cat(*ts):
    """concatenation of text terms"""
    out = []
    for t in ts:
        for p in (t.args if t.op == 'concat' else (t,)):
            if is_const(p) and isinstance(cval(p), str):
                if cval(p) == '':
                    continue
                if out and is_const(out[-1]) and isinstance(cval(out[-1]), str):
                    out[-1] = const(cval(out[-1]) + cval(p))
                    continue
            out.append(p)
    if not out:
        return const('')
    return out[0] if len(out) == 1 else T('concat', *out)


def _comp_loops(comp, e):
    from .engine import Loop
    out = []
    gens = comp.args[2]
    for g in gens if isinstance(gens, tuple) else (gens,):
        out.append(Loop(g.args[0], list(g.args[1].args) if len(g.args) > 1 and isinstance(g.args[1], Term) and
                        g.args[1].op == 'order' else [], e.line, e.func, 'comp'))
    return out


def producers(an, seqt):
    """[(element, guard, loops, event)] appended to a locally built list, or None if it is built in another way"""
    out = []
    if seqt.op != 'obj':
        return None
    for e in an.events:
        if e.recv is None or not contains(e.recv, seqt):
            continue
        if e.kind == 'mutate' or e.kind == 'store':
            if e.name == 'append' and e.recv is seqt and len(e.args) == 1:
                out.append((e.args[0], e.guard, e.loops, e))
            else:
                return None
    return out or None


def _expand(an, t, g, loops, e, depth=0):
    """[(text, guard, loops, event)] of a text expression: joins and collected lists are taken apart"""
    if depth > 3:
        return [(t, g, loops, e)]
    parts = list(t.args) if t.op == 'concat' else [t]
    if parts and parts[0].op == 'join' and all(is_const(p) for p in parts[1:]):
        sep, x = parts[0].args[0], parts[0].args[1]
        tail = ''.join(str(cval(p)) for p in parts[1:])
        if is_const(sep) and (cval(sep) == tail or not tail):
            got = _expand_seq(an, x, g, loops, e, depth + 1)
            if got is not None:
                return [(cat(a, const(cval(sep))), b, c, d) for a, b, c, d in got] + \
                    ([] if cval(sep) == tail else [(const(tail), g, loops, e)] if tail else [])
    el = [p for p in parts if p.op == 'elem' and p.args[0].op == 'obj']
    if len(el) == 1:
        lp = [l for l in loops if l.base is el[0].args[0]]
        if lp:
            got = producers(an, el[0].args[0])
            if got:
                out = []
                for v, pg, pl, pe in got:
                    tx = cat(*[v if p is el[0] else p for p in parts])
                    out.append((tx, f_and(g, pg), tuple(l for l in loops if l is not lp[0]) +
                                tuple(l for l in pl if l not in loops), pe))
                return out
    return [(t, g, loops, e)]


def _expand_seq(an, x, g, loops, e, depth):
    if x.op == 'comp':
        cond = x.args[3].args[0] if x.args[3].op == 'F' else TRUE
        return _expand(an, x.args[1], f_and(g, cond), tuple(loops) + tuple(_comp_loops(x, e)), e, depth)
    if x.op == 'obj':
        got = producers(an, x)
        if got:
            return [(v, f_and(g, pg), tuple(loops) + tuple(l for l in pl if l not in loops), pe) for v, pg, pl, pe in got]
    if x.op in ('list', 'tuple'):
        return [(v, g, loops, e) for v in x.args if isinstance(v, Term)]
    return None


def _write_views(an, e, pred, keep):
    """the ungated alternatives of a write event"""
    f = e.recv if e.name != 'print' else e.kw['file']
    # values of the text stay gated unless the file or a loop depends on the same condition
    out = []
    fs = [(TRUE, f)] if f.op == 'file' and pred(f.args[0]) else None
    bt = T('bases', *[l.base for l in e.loops])
    for g, x in lift(T('alt', bt) if fs else T('alt', bt, f), e.guard, keep=keep):
        ff = f if fs else x.args[1]
        if ff.op != 'file' or not pred(ff.args[0]):
            continue
        bases = x.args[0].args
        if any(is_empty_obj(an, b) for b in bases):
            continue
        loops = reloop(e.loops, bases)
        args = [_resolve_guard(a, g) for a in e.args]
        if e.name == 'writelines':
            for g2, a2 in lift(args[0], g):
                out.append((EventView(e, g2, tuple(loops)), ff, [a2]))
        else:
            out.append((EventView(e, g, tuple(loops)), ff, args))
    return out


def _resolve_guard(t, g):
    """drop the alternatives of gated parts that the guard excludes"""
    while True:
        hit = None
        seen, todo = set(), [t]
        while todo and hit is None:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'ite':
                c = simplify_by(x.args[0], g)
                if c is TRUE:
                    hit = (x, x.args[1])
                    break
                if c is FALSE:
                    hit = (x, x.args[2])
                    break
            if x.op in OPAQUE:
                continue
            todo.extend(a for a in x.args if isinstance(a, Term))
        if hit is None:
            return t
        t = rebuild(t, *hit)


def text_lines(an, pred, keep=()):
    """the lines written to the files whose path satisfies pred, in program order"""
    pieces = []
    for e in writes_to(an, pred, keep):
        for e, f, eargs in _write_views(an, e, pred, keep):
            g = e.guard
            if e.name == 'print':
                parts = []
                for i, a in enumerate(eargs):
                    if i:
                        parts.append(e.kw.get('sep', const(' ')))
                    parts.append(a)
                got = _expand(an, cat(*(parts + [e.kw.get('end', const('\n'))])), g, e.loops, e)
            elif e.name == 'writelines':
                got = _expand_seq(an, eargs[0], g, e.loops, e, 0)
                if got is None:
                    from .engine import Loop
                    got = [(T('elem', eargs[0]), g, tuple(e.loops) + (Loop(eargs[0], (), e.line, e.func),), e)]
            else:
                got = _expand(an, eargs[0], g, e.loops, e)
            for t, gg, ll, ee in got:
                if gg is not FALSE:
                    pieces.append((f, t, gg, tuple(ll), ee))
    out = []
    for f, t, g, ll, e in pieces:
        if out:
            p = out[-1]
            last = p.parts()[-1]
            ended = is_const(last) and str(cval(last)).endswith('\n')
            if p.file is f and p.guard is g and [l.base for l in p.loops] == [l.base for l in ll] and not ended:
                p.text = cat(p.text, t)
                continue
        out.append(Line(f, t, g, ll, e))
    return out


def as_pick(t):
    """(sequence, condition, element, 'first'|'last'|'?') if t selects an element of a sequence by a condition"""
    from .engine import pick_dir
    if t.op == 'pick':
        return t.args[0], t.args[1].args[0], t.args[2], cval(t.args[3])
    d = None
    if t.op == 'first' and t.args[0].op == 'comp':
        d, cp = 'first', t.args[0]
    elif t.op == 'index' and t.args[0].op == 'comp' and is_const(t.args[1]) and cval(t.args[1]) in (0, -1):
        d, cp = ('first' if cval(t.args[1]) == 0 else 'last'), t.args[0]
    if d is None or len(cp.args[2]) != 1:
        return None
    g = cp.args[2][0]
    return g.args[0], cp.args[3].args[0] if cp.args[3].op == 'F' else TRUE, cp.args[1], \
        pick_dir([(g.args[0], g.args[1].args if len(g.args) > 1 else ())], d)


def pick_cond(p):
    """the selection condition with the 'not found yet' conditions on the result variable left out"""
    return p[1]
