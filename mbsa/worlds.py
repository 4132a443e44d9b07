"""
Constant propagation through loops and locally built collections.  A *world* is one canonical element of a class of
inputs (a bag whose member list has a blank line; one whose bag-info repeats a field ...), described by values for
the opaque inputs of an analysed function.  The values are propagated through the extracted terms, the loops' carried
values and the recorded mutations of local collections.  Nothing of the analysed program is executed; anything
without a transfer function is UNKNOWN, which no rule accepts.
"""
from .shapes import Shape, UNKNOWN, PURE
from .terms import *
from .terms import TRUE, FALSE, NONE


class World(Shape):
    def __init__(self, env, facts=None, ext=None, an=None, at=None, inloop=(), root=None):
        Shape.__init__(self, env, facts, ext)
        self.cache = {}
        self.root = root or self      # the world outside all loops
        self.an = an
        self.at = at                  # sequence number of the event whose terms are evaluated (None: the end)
        self.inloop = tuple(inloop)   # (loop base, iteration) stack

    def child(self, more, at=None, inloop=None):
        env = dict(self.env)
        env.update(more)
        return World(env, self.facts, self.ext, self.an, self.at if at is None else at,
                     self.inloop if inloop is None else inloop, self.root)

    # ---------------------------------------------------------------- loops
    def seq(self, base):
        v = self.val(base)
        if isinstance(v, (dict, str, tuple)):
            v = list(v)
        if isinstance(v, (set, frozenset)):
            v = sorted(v)
        return v if isinstance(v, list) else None

    def iterations(self, loop, upto=None, at=None):
        """the states at the start of each iteration of a loop ([] + UNKNOWN marker None when not known)"""
        key = (loop.n, self.inloop, at)
        if upto is None and key in self.cache:
            return self.cache[key]
        xs = self.seq(loop.base)
        if xs is None or any(o not in ('rev', 'copy', 'list', 'tuple', 'iter', 'enumerate', 'sorted', 'keys') for o in loop.order):
            return None
        if 'sorted' in loop.order and all(isinstance(x, str) for x in xs):
            xs = sorted(xs)
        if loop.reversed():
            xs = xs[::-1]
        ph = {}
        for p in loop.carried:
            ph[p] = self.val(p.args[2]) if isinstance(p.args[2], Term) else UNKNOWN
        out = []
        for i, x in enumerate(xs):
            if upto is not None and i >= upto:
                break
            more = {T('elem', loop.base): x, T('pos', loop.base): i}
            more.update(ph)
            s = self.child(more, at, self.inloop + ((loop.base, i),))
            out.append(s)
            nxt = {}
            for p, (e, g) in loop.carried.items():
                nxt[p] = UNKNOWN if e is None else s.val(e)
            ph = nxt
            stop = False
            for k, g, ln in loop.exits:
                if k in ('break', 'return', 'raise') and s.truth(g):
                    stop = True
            if stop:
                break
        if upto is None:
            self.cache[key] = out
        return out

    def loop_of(self, base, phi=None):
        for l in self.an.loops:
            if l.base is base and (phi is None or phi in l.carried):
                return l
        return None

    def states(self, e, upto=None):
        """the states in which event e is reached, guard not yet considered"""
        sts = [self]
        for l in e.loops:
            nx = []
            for s in sts:
                cur = [i for b, i in s.inloop if b is l.base]
                if cur:
                    nx.append(s)
                    continue
                it = s.iterations(l)
                if it is None:
                    return None
                nx.extend(it)
            sts = nx
        return [s.at_event(e) for s in sts]

    def at_event(self, e):
        key = ('at', e.seq)
        s = self.cache.get(key)
        if s is None:
            s = self.cache[key] = self.child({}, at=e.seq)
        return s

    # ---------------------------------------------------------------- collections
    def contents(self, o):
        """the contents of a collection made by the function, at this point"""
        evs = [e for e in self.an.events if e.recv is o and e.kind in ('mutate', 'store', 'del')]
        key = (o, self.inloop, self.at is None or sum(1 for e in evs if e.seq < self.at))
        v = self.root.cache.get(key)
        if v is None:
            v = self.root.cache[key] = self._contents(o, evs)
        return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v

    def _contents(self, o, evs):
        kind = o.args[0]
        if kind not in ('list', 'set', 'dict', 'deque', 'OrderedDict', 'counter'):
            return UNKNOWN
        cur = dict(self.inloop)
        out = {} if kind in ('dict', 'OrderedDict', 'counter') else []
        todo = []                                # (order, state, event)
        for e in evs:
            if not any(l.base in cur for l in e.loops) and self.at is not None and e.seq >= self.at:
                continue
            sts = self.root.states(e)
            if sts is None:
                if self.root.truth(e.guard) is False:
                    continue
                return UNKNOWN
            for s in sts:
                # in the current loop, only earlier iterations count (a test for what was seen before)
                if all(i < cur[b] for b, i in s.inloop if b in cur):
                    todo.append((first_seq(self.an, e), [i for b, i in s.inloop], e.seq, s, e))
        todo.sort(key=lambda t: (t[0], t[1], t[2]))
        for _, _, _, s, e in todo:
            g = s.truth(e.guard)
            if g is None:
                return UNKNOWN
            if not g:
                continue
            v = s.vals(e.args)
            if v is None:
                return UNKNOWN
            n = e.name
            if isinstance(out, dict):
                if n in ('[]', 'store') and len(v) == 2:
                    out[v[0]] = v[1]
                elif n == 'setdefault' and len(v) == 2:
                    out.setdefault(v[0], v[1])
                elif n == 'update' and len(v) == 1 and isinstance(v[0], dict):
                    out.update(v[0])
                else:
                    return UNKNOWN
                continue
            if n in ('append', 'add', 'appendleft') and len(v) == 1:
                if kind == 'set' and v[0] in out:
                    continue
                out.insert(0, v[0]) if n == 'appendleft' else out.append(v[0])
            elif n == 'insert' and len(v) == 2:
                out.insert(v[0], v[1])
            elif n in ('extend', '+=', 'update', '|=') and len(v) == 1 and isinstance(v[0], list):
                out.extend(v[0])
            elif n == '[]' and len(v) == 2 and isinstance(v[0], int):
                if not -len(out) <= v[0] < len(out):
                    return UNKNOWN
                out[v[0]] = v[1]
            elif n == '[]' and len(v) == 2:
                return UNKNOWN
            elif n in ('discard', 'remove') and len(v) == 1:
                if v[0] in out:
                    out.remove(v[0])
            elif n == 'clear':
                out = []
            else:
                return UNKNOWN
        return out

    # ---------------------------------------------------------------- values
    def _val(self, t):
        o, a = t.op, t.args
        if o == 'obj' and self.an is not None:
            return self.contents(t)
        if o in ('pick', 'accum', 'loopout') and self.an is not None:
            l = self.loop_of(a[0])
            if l is None and o == 'accum':
                xs, v = self.seq(a[0]), self.val(a[3])
                for x in xs if xs is not None else [UNKNOWN]:
                    s = self.child({T('elem', a[0]): x})
                    c = s.truth(a[1].args[0])
                    if c is None or v is UNKNOWN:
                        return UNKNOWN
                    if c:
                        y = s.val(a[2])
                        if type(y) is not type(v):
                            return UNKNOWN
                        v = v + y
                return v
            if l is None:
                return UNKNOWN
            if o == 'loopout':
                ls = [x for x in self.an.loops if x.base is a[0] and any(e is a[1] for e, g in x.carried.values())]
                l = ls[0] if ls else l
            it = self.iterations(l)
            if it is None:
                return UNKNOWN
            if o == 'pick':
                hit = []
                for s in it:
                    c = s.truth(a[1].args[0])
                    if c is None:
                        return UNKNOWN
                    if c:
                        hit.append(s)
                if not hit:
                    return UNKNOWN
                d = cval(a[3])
                if len(hit) > 1 and d not in ('first', 'last'):
                    return UNKNOWN
                if l.reversed():
                    hit = hit[::-1]
                return hit[0 if d == 'first' else -1].val(a[2])
            if o == 'accum':
                v = self.val(a[3])
                for s in it:
                    c = s.truth(a[1].args[0])
                    if c is None or v is UNKNOWN:
                        return UNKNOWN
                    if c:
                        x = s.val(a[2])
                        if type(x) is not type(v):
                            return UNKNOWN
                        v = v + x
                return v
            if not it:
                return self.val(a[2])
            return it[-1].val(a[1])
        if o == 'loopvar' and self.an is not None:
            l = self.loop_of(a[0])
            it = self.iterations(l) if l is not None else None
            return it[-1].val(a[1]) if it else UNKNOWN
        if o == 'dict':
            out = {}
            for k in a:
                if k.op != 'pair' and not (k.op == 'tuple' and len(k.args) == 2):
                    return UNKNOWN
                v = self.vals(k.args)
                if v is None:
                    return UNKNOWN
                out[v[0]] = v[1]
            return out
        if o == 'cat':
            v = self.vals(a)
            return UNKNOWN if v is None else ''.join(str(x) for x in v)
        if o == 'pos':
            return UNKNOWN
        return Shape._val(self, t)

    def truth_atom(self, a):
        if a.op == 'existsq' and self.facts is not None:
            v = self.facts(a, self)
            if v is not None:
                return v
        if a.op == 'existsq' and self.an is not None:
            l = self.loop_of(a.args[0])
            it = self.iterations(l) if l is not None else None
            if it is not None and a.args[1].op == 'F':
                res = False
                for s in it:
                    c = s.truth(a.args[1].args[0])
                    if c is None:
                        return None
                    res = res or c
                return res
        return Shape.truth_atom(self, a)


def first_seq(an, e):
    """where the outermost loop of an event starts, in event order"""
    if not e.loops:
        return e.seq
    b = e.loops[0]
    return min(x.seq for x in an.events if x.loops and x.loops[0] is b)
