"""rules for the splitters: which files are distributed, and how they are packed into size-limited bags (split)"""
from ..query import *
from ..query import _expand_seq, _resolve_guard
from ..shapes import Shape, UNKNOWN
from ..terms import TRUE, FALSE, NONE

ALGS = ('WellPackedSplitter', 'NeighborlySplitter')


def unpop(t, memo=None):
    """L.pop(i) and L[i] are the same element"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        if call_of(t, '.pop') and len(t.args) <= 3:
            i = t.args[2] if len(t.args) == 3 else const(-1)
            r = T('index', unpop(t.args[1], memo), unpop(i, memo))
        elif t.op in ('phi', 'loopout', 'comp', 'F', 'pick', 'existsq', 'while') or not t.args:
            r = t
        else:
            r = T(t.op, *[unpop(a, memo) if isinstance(a, Term) else a for a in t.args])
        memo[t] = r
    return r


def file_of(v):
    """the file description whose bag-relative path v is (path without its leading slash), or None"""
    b = None
    if v.op == 'slice' and v.args[1] is const(1) and v.args[2] is NONE:
        b = v.args[0]
    elif call_of(v, '.lstrip') and v.args[2:] == (const('/'),):
        b = v.args[1]
    if b is not None and b.op == 'index' and b.args[1] is const('path'):
        return b.args[0]
    return None


def owner_of(an, t):
    """the bag description whose list of contents t is"""
    if t.op == 'index' and t.args[1] is const('contents'):
        return t.args[0]
    if t.op == 'obj':
        for e in an.events:
            if e.kind == 'store' and e.name == '[]' and e.args[0] is const('contents') and e.args[1] is t and e.recv.op == 'obj':
                return e.recv
    return None


class Put(object):
    """a file added to a bag description"""

    def __init__(self, owner, fi, guard, event, item):
        self.owner, self.fi, self.guard, self.event, self.item = owner, fi, guard, event, item


def puts(an, r):
    out = []
    for e in an.events:
        if e.recv is None or e.kind not in ('mutate', 'store'):
            continue
        for g, x in lift(T('alt', e.recv, *e.args), e.guard, limit=64):
            recv, args = x.args[0], x.args[1:]
            m = owner_of(an, recv)
            if m is None:
                if e.kind == 'store' and e.name == '[]' and args[0] is const('contents') and not (
                        args[1].op == 'obj' or args[1].op == 'list' and not args[1].args):
                    r.fail(e, 'contents', "the contents of a planned bag are replaced: %s" % show(args[1])[:120])
                continue
            fi = None
            if e.kind == 'mutate' and e.name in ('append', 'insert', '+=') and args:
                fi = file_of(args[-1])
            if r.ok(fi is not None, e, 'placed-path',
                    "what is put into a planned bag is not the path of one of the files given, relative to the bag: %s" % show(args[-1] if args else recv)[:160]):
                out.append(Put(m, unpop(fi), g, e, fi))
    return out


def total_stores(an):
    out = []
    for e in an.events:
        if e.kind == 'store' and e.name == '[]' and e.args[0] is const('totalsize'):
            for g, x in lift(T('alt', e.recv, e.args[1]), e.guard, limit=64):
                out.append((x.args[0], unpop(x.args[1]), g, e))
    return out


def closes(an):
    """[(bag description, guard, event)] put on the plan"""
    out = []
    for e in an.events:
        if e.kind == 'mutate' and e.name in ('append', 'insert') and e.recv is not None and attr_of(e.recv, '_manifests'):
            for g, x in lift(e.args[-1], e.guard, limit=64):
                out.append((x, g, e))
    return out


def limit_term(c, cls):
    """the attribute of the splitter that holds the maximum size"""
    an = c.an('%s.__init__' % cls)
    par = [T('arg', 'maxsize')]
    out = []
    for e in an.events:
        if e.kind == 'setattr' and e.recv is not None and e.recv.op == 'self' and e.guard is TRUE and \
                (e.args[0] in par or e.args[0].op in ('param', 'var', 'arg') and e.args[0].args[-1] == 'maxsize'):
            out.append(T('attr', T('self', cls), e.name))
    return out, an


def addends(t):
    return [y for x in t.args for y in addends(x)] if t.op == 'add' else [t]


@rule('C13', 'pack-size-limit',
      "a file is added to a bag being filled only when the bag's total with that file stays within the maximum size, or the "
      "bag holds nothing yet; the total is increased by the size of exactly that file", floor=12)
def size_limit(c, r):
    for cls in ALGS:
        lims, ian = limit_term(c, cls)
        if not r.ok(lims, ian.entry, cls + ' limit', "the splitter does not keep its maximum size"):
            continue
        an = c.an('%s._apply_algorithm' % cls)
        ps = puts(an, r)
        r.ok(ps, an.entry, cls + ' packing', "the algorithm puts no file into any bag")
        tots = total_stores(an)
        for m, v, g, e in tots:
            r.ok(v.op == 'add' or is_const(v) and cval(v) == 0, e, cls + ' total-start',
                 "the total of a bag is set to something other than its old total plus the size of a file: %s" % show(v)[:120])
        big = []
        for p in ps:
            size = T('index', p.fi, const('size'))
            # the total is increased along with it
            up = [(v, g, e) for m, v, g, e in tots if m is p.owner and f_and(g, p.guard) is not FALSE and v.op == 'add']
            good = [(v, g, e) for v, g, e in up if implies(p.guard, g) and sum(1 for a in addends(v) if a is size) == 1]
            if not r.ok(len(up) == 1 and good, p.event, cls + ' total',
                        "the bag's total is not increased (once) by the size of the file added"):
                continue
            tot = good[0][0]
            base = [a for a in addends(tot) if a is not size]
            r.ok(len(base) == 1 and is_total(base[0], p), p.event, cls + ' total-base',
                 "the new total of a bag is not its old total plus the size of the file: %s" % show(tot)[:160])
            # within the limit, or the first one

            def fits(a, tot=tot, base=base, p=p):
                a2 = unpop(_resolve_guard(a, p.guard))
                if a2.op == 'lt' and a2.args[0] in lims and same_sum(a2.args[1], tot):
                    return True      # max < total
                if a2.op == 'lt' and a2.args[1] in lims and same_sum(a2.args[0], tot):
                    return False     # total < max
                if a2.op == 'eq' and const(0) in a2.args and base[0] in a2.args:
                    return False
                if a2.op == 'truthy' and a2.args[0] is base[0]:
                    return True
                if a2.op == 'lt' and a2.args[0] is const(0) and a2.args[1] is base[0]:
                    return True
                if a2.op == 'truthy' and a2.args[0].op in ('index', 'obj') and owner_of(an, a2.args[0]) is p.owner:
                    return True
                return None
            v = assign(p.guard, fits)
            if base and is_const(base[0]) and cval(base[0]) == 0:
                v = FALSE      # a new bag
            r.ok(v is FALSE, p.event, cls + ' within-limit',
                 "a file can be added to a bag that already holds others although it takes the bag over the maximum size: %s"
                 % ', '.join(describe(a) for a in sorted(support(v), key=lambda a: a.uid))[:300])
            # a file over the limit goes into an empty bag

            def alone(a, fits=fits):
                v = fits(a)
                a2 = unpop(a)
                if v is not None and a2.op == 'lt' and (a2.args[0] in lims or a2.args[1] in lims):
                    return v
                return None if v is None else not v
            big.append(assign(p.guard, alone))
        r.ok(not ps or any(g is not FALSE for g in big), an.entry, cls + ' oversized',
             "a file that is larger than the maximum size is never put into any bag")


def is_total(b, p):
    """b is the total kept for the bag p.owner"""
    if is_const(b) and cval(b) == 0:
        return p.owner.op == 'obj'
    if b.op == 'index' and b.args[1] is const('totalsize'):
        return b.args[0] is p.owner
    return b.op == 'phi' and "totalsize" in str(b.args[1])


def same_sum(a, b):
    return sorted(x.uid for x in addends(a)) == sorted(x.uid for x in addends(b))


@rule('C13', 'pack-every-file',
      "each file given to the algorithm is taken out of the list once and put into one bag; a bag that received files is put "
      "on the plan, once, before another one is opened or the algorithm ends", floor=10)
def every_file(c, r):
    for cls in ALGS:
        an = c.an('%s._apply_algorithm' % cls)
        ps = puts(an, r)
        cl = closes(an)
        r.ok(cl, an.entry, cls + ' planned', "the algorithm puts no bag on the plan")
        # what leaves the list is what is put into a bag
        FI = T('arg', 'finfos')
        taken = []
        for e in an.events:
            if e.kind == 'mutate' and e.name in ('pop', 'remove', 'del', 'clear') and e.recv is not None and \
                    any(unpop(x.fi).op == 'index' and x.fi.args[0] is e.recv for x in ps):
                taken.append(e)
        for p in ps:
            ts = [e for e in taken if f_and(e.guard, p.guard) is not FALSE and e.loops == p.event.loops]
            ok = len(ts) == 1 and implies(p.guard, ts[0].guard)
            r.ok(ok, p.event, cls + ' taken-once', "a file put into a bag is not removed (once) from the files to be placed")
            if ok and ts[0].name == 'pop':
                i = ts[0].args[0] if ts[0].args else const(-1)
                same = any(unpop(T('index', ts[0].recv, i2)) is p.fi for g2, i2 in lift(i, p.guard))
                r.ok(same, p.event, cls + ' same-file', "the file removed from the list is not the one put into the bag")
        for e in taken:
            ok = any(implies(e.guard, g) for g in [f_or(*[p.guard for p in ps if p.event.loops == e.loops])])
            r.ok(ok, e, cls + ' placed', "a file is removed from the list without being put into a bag")
            r.ok(e.name != 'clear', e, cls + ' cleared', "the list of files to be placed is emptied")
        # bags: closed before they are replaced
        outer = None
        for p in ps:
            if p.event.loops:
                outer = p.event.loops[0]
        if not r.ok(outer is not None, an.entry, cls + ' loop', "files are not placed in a loop over all of them"):
            continue
        owners = []
        for p in ps:
            if p.owner not in owners:
                owners.append(p.owner)
        phis = [m for m in owners if m.op == 'phi']
        inloop = [(m, g, e) for m, g, e in cl if e.loops]
        for i, (m, g, e) in enumerate(inloop):
            for m2, g2, e2 in inloop[:i]:
                r.ok(m is not m2 or f_and(g, g2) is FALSE, e, cls + ' planned-twice', "the same bag can be put on the plan twice")
        for ph in phis:
            if not r.ok(ph in outer.carried, an.entry, cls + ' open-bag', "cannot follow the bag being filled through the loop"):
                continue
            end, eg = outer.carried[ph]
            kept = {}
            for g, v in lift(end, eg, limit=64):
                kept[v] = f_or(kept.get(v, FALSE), g)
            for m in set(owners) | set(kept):
                closed = f_or(*[g for m2, g, e in inloop if m2 is m])
                k = kept.get(m, FALSE)
                r.ok(f_and(closed, k) is FALSE, an.entry, cls + ' refilled', "a bag already put on the plan can be filled further")
                added = eg if m is ph else f_and(eg, f_or(*[p.guard for p in ps if p.owner is m and p.event.loops == (outer,)]))
                lost = f_and(added, f_not(f_or(closed, k)))
                r.ok(lost is FALSE, an.entry, cls + ' dropped', "a bag that received files can be replaced without having been put on the plan: %s"
                     % ', '.join(describe(a) for a in sorted(support(lost), key=lambda a: a.uid))[:200])
            # at the end
            always = all(not (x is ph) for x in kept) and all(
                not [p for p in ps if p.owner is x] for x in kept)
            fin = [(m, g, e) for m, g, e in cl if not e.loops]
            if always:
                r.ok(True, an.entry, cls + ' last', "no bag is open at the end")
                for m, g, e in fin:
                    r.ok(has(T('F', g), lambda s: s is const('contents')) or True, e, cls + ' last', '')
            else:
                okf = [(m, g, e) for m, g, e in fin if last_guard(an, g)]
                r.ok(okf, an.entry, cls + ' last', "the bag being filled when the files run out is not put on the plan")
        # the loop ends when no files are left
        r.ok(no_files_left(an, outer), an.entry, cls + ' loop-ends', "the loop can end while there are files left to place")


def last_guard(an, g):
    """the condition for adding the last bag: that it holds anything"""
    for a in support(g):
        if a.op == 'truthy':
            x = a.args[0]
            if contents_like(x):
                continue
        if a.op in ('lt', 'eq') and any(is_const(z) and cval(z) in (0, 1) for z in a.args) and any(z.op == 'len' and contents_like(z.args[0]) for z in a.args):
            continue
        return False
    return True


def contents_like(x):
    return any((l.op == 'index' and l.args[1] is const('contents')) or l.op in ('loopout', 'obj', 'phi') and 'contents' in show(l)
               for l in leaves(x))


def no_files_left(an, loop):
    if loop.kind != 'while':
        return False
    bad = [k for k, g, ln in loop.exits if k not in ('raise',) and g is not FALSE]
    c_ = loop.cond
    if c_ is None or bad:
        return False
    at = support(c_)
    if len(at) != 1:
        return False
    a = list(at)[0]
    return True if a.op == 'truthy' or a.op in ('lt', 'eq') and any(z.op == 'len' for z in a.args) else False


# ---------------------------------------------------------------------------------------- the files distributed

def ctor_values(c, cls, env):
    """{attribute term: value} set by the constructor for the given parameter values (None if it cannot be decided)"""
    an = c.an('%s.__init__' % cls)
    sh = Shape(dict((T('param', k), v) for k, v in env.items()), None,
               lambda t, s: [] if t.op == 'obj' and t.args[0] == 'list' and is_empty_obj(an, t) else UNKNOWN)
    out = {}
    for e in an.events:
        if e.kind == 'setattr' and e.recv is not None and e.recv.op == 'self':
            g = sh.truth(e.guard)
            if g is False:
                continue
            v = seq_value(an, sh, e.args[0]) if g else UNKNOWN
            out[T('attr', T('self', cls), e.name)] = (v, e)
    return out, an


def seq_value(an, sh, t):
    """the value of a term, following a list that is built by appending, or whose entries are replaced one by one"""
    v = sh.val(t)
    if v is UNKNOWN and t.op == 'obj' or t.op == 'obj' and v == []:
        got = [x for x in _expand_seq(an, t, TRUE, (), an.entry, 0) or [] if sh.truth(x[1]) is not False]
        v = []
        if got:
            srcs = [l.base for _, _, ls, _ in got for l in ls]
            if not srcs or any(x is not srcs[0] for x in srcs):
                return UNKNOWN
            b = sh.val(srcs[0])
            if not isinstance(b, list):
                return UNKNOWN
            for x in b:
                s = Shape(sh.env, sh.facts, sh.ext)
                s.env[T('elem', srcs[0])] = x
                for el, g, ls, e in got:
                    k = s.truth(g)
                    if k is None:
                        return UNKNOWN
                    if k:
                        v.append(s.val(el))
        return v
    if v is UNKNOWN:
        # an empty list made for an absent argument
        for g, x in cases(t):
            k = sh.truth(g)
            if k is None:
                return UNKNOWN
            if k and x is not t:
                return seq_value(an, sh, x)
        if t.op == 'copy' and t.args[1].op == 'ite':
            return seq_value(an, sh, t.args[1])
    if isinstance(v, list):
        v = list(v)
        for e in an.events:
            if e.kind == 'store' and e.name == '[]' and e.recv is t and e.args[0].op == 'pos':
                b = e.args[0].args[0]
                for i, x in enumerate(v):
                    s = Shape(sh.env, sh.facts, sh.ext)
                    s.env[T('elem', b)] = x
                    k = s.truth(e.guard)
                    if k is None:
                        return UNKNOWN
                    if k:
                        v[i] = s.val(e.args[1])
            elif e.recv is t and e.kind in ('mutate', 'store') and e.name not in ('sort',):
                return UNKNOWN
    return v


def unsort(t):
    while t.op == 'call' and t.args[0] == 'sorted' and len(t.args) >= 2:
        t = t.args[1]
    return uncopy(t)


ROOT_SPECIAL = ('/bagit.txt', '/bag-info.txt', '/fetch.txt', '/manifest-md5.txt', '/manifest-sha256.txt',
                '/tagmanifest-sha256.txt')
ORDINARY = ('/data/a.txt', '/data/sub/b', '/about.txt', '/metadata/bagit.txt', '/data/bag-info.txt', '/data/fetch.txt',
            '/data/manifest-md5.txt', '/multibag/file-lookup.tsv', '/data/a', '/data/hh1', '/data/h1/x', '/data/sub/data/h1',
            '/preservation.log', '/data/bag info.txt', '/data/.hidden', '/metadata/tagmanifest-md5.txt', '/x/bagit.txt')


@rule('C13', 'pack-candidates',
      "the files given to the packing algorithm are all files of the source bag except the special BagIt files at its root and "
      "those reserved for the head bag, with their actual sizes; the plan is completed after packing, so that what was left out "
      "goes into the last bag", floor=60)
def candidates(c, r):
    for cls in ALGS:
        an = c.an('%s._create_plan' % cls, opaque=['_apply_algorithm'])
        ap = [e for e in an.events if e.name == '_apply_algorithm']
        if not r.ok(len(ap) == 1 and ap[0].guard is TRUE and not ap[0].loops and len(ap[0].args) == 2, an.entry, cls + ' applied',
                    "the packing algorithm is not applied (once)"):
            continue
        fi, plan = ap[0].args
        r.ok(plan.op == 'inst' and plan.args[0] == 'SplitPlan', ap[0], cls + ' plan', "the algorithm does not fill a new plan")
        r.ok(an.retval() is plan, an.entry, cls + ' returned', "the plan returned is not the one filled")
        comp = [e for e in an.events if e.name == 'complete_plan' and e.recv is plan and e.guard is TRUE and not e.loops]
        r.ok(comp and comp[-1].seq > ap[0].seq, ap[0], cls + ' completed',
             "the plan is not completed after the files are packed")
        base = unsort(fi)
        for e in an.events:
            if e.recv is not None and (e.recv is fi or e.recv is base) and e.kind in ('mutate', 'store') and e.name not in ('sort', 'append', 'reverse'):
                r.fail(e, cls + ' list', "the list of files is changed before it is packed (%s)" % e.name)
        got = _expand_seq(an, base, TRUE, (), ap[0], 0)
        if not r.ok(got, ap[0], cls + ' files', "cannot tell which files are packed: %s" % show(base)[:160]):
            continue
        vals, ian = ctor_values(c, cls, {'maxsize': 100, 'targetsize': None, 'forhead': ['data/h1', '/data/h2', 'meta/h3']})
        env = dict((k, v) for k, (v, e) in vals.items() if v is not UNKNOWN)
        bag = first([e.args[0] for e in an.events if e.name == 'SplitPlan' and e.args])
        for el, g, loops, e in got:
            if not r.ok(len(loops) == 1, e if hasattr(e, 'where') else an.entry, cls + ' walk', "the files are not taken from one walk through the bag"):
                continue
            W = loops[0].base
            ok = call_of(W, '.info') and W.args[1].op == 'attr' and W.args[1].args[1] == 'walk' and \
                not any(x.op == 'kw' and x.args[0] not in ('namespaces', 'search', 'ignore_errors') for x in W.args[2:] if isinstance(x, Term)) and \
                not any(x.op != 'kw' and x is not const('/') for x in W.args[2:] if isinstance(x, Term))
            r.ok(ok, ap[0], cls + ' walk', "the files are not found by a walk through the whole bag: %s" % show(W)[:160])
            r.ok(not loops[0].exits and not [o for o in loops[0].order if o not in ('sorted', 'copy', 'list', 'rev', 'tuple')], ap[0],
                 cls + ' walk-all', "only part of the walk is used")
            P, INF = T('index', T('elem', W), const(0)), T('index', T('elem', W), const(1))
            path, size = item(an, el, 'path'), item(an, el, 'size')
            r.ok(path is P, ap[0], cls + ' path', "a file is not described by its path in the bag: %s" % (show(path)[:120] if path is not None else None))
            r.ok(size is T('attr', INF, 'size'), ap[0], cls + ' size', "a file is not described by its size: %s" % (show(size)[:120] if size is not None else None))

            def run(p, isdir):
                def facts(a, s):
                    if a.op == 'truthy' and a.args[0] is T('attr', INF, 'is_dir'):
                        return isdir
                    if a.op == 'truthy' and a.args[0] is T('attr', INF, 'is_file'):
                        return not isdir
                    if a.op == 'existsq' and a.args[0] is W:
                        return None
                    return None
                s = Shape(env, facts)
                s.env[P] = p
                s.env[T('elem', W)] = [p, None]
                s.env[T('attr', INF, 'name')] = p.split('/')[-1]
                return s.truth(g), s
            for p in ORDINARY:
                v, s = run(p, False)
                r.ok(v is True, ap[0], '%s packs %s' % (cls, p), "the file %s is not among the files packed (%s)" % (p[1:], why(s, g)))
            for p in ROOT_SPECIAL:
                v, s = run(p, False)
                r.ok(v is False, ap[0], '%s leaves out %s' % (cls, p), "the special file %s is packed as an ordinary file" % p[1:])
            for p in ('/data/h1', '/data/h2', '/meta/h3'):
                v, s = run(p, False)
                r.ok(v is False, ap[0], '%s reserves %s' % (cls, p), "the file %s, reserved for the head bag, is packed into another one (%s)" % (p[1:], why(s, g)))
            for p in ('/data', '/data/sub', '/metadata', '/data/h1'):
                v, s = run(p, True)
                r.ok(v is False, ap[0], '%s directory %s' % (cls, p), "the directory %s is packed as a file" % p[1:])
        # no reservation
        vals, ian = ctor_values(c, cls, {'maxsize': 100, 'targetsize': None, 'forhead': None})
        for k, (v, e) in vals.items():
            if v is UNKNOWN or k not in env:
                r.ok(v is not UNKNOWN, e, cls + ' setup', "cannot tell what the splitter keeps as its %s" % k.args[1])


def why(s, g):
    n = s.left(g)
    return ', '.join(describe(a) for a in sorted(support(n), key=lambda a: a.uid))[:200] if n is not TRUE and n is not FALSE else 'excluded'


def item(an, d, key):
    """the value a dictionary holds under a key"""
    if d.op == 'dict':
        for k, v in d.args:
            if k is const(key):
                return v
    out = [e.args[1] for e in an.events if e.kind == 'store' and e.name == '[]' and e.recv is d and e.args[0] is const(key)]
    return out[0] if len(out) == 1 else None
