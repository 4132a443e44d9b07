"""amending an aggregation (C21) and converting a single bag (C22)"""
from ..query import *
from ..query import Ctx
from .headbag import settle

SELF = T('self', 'Amender')
MAKER = T('self', 'SingleMultibagMaker')
OLD, NEW = T('attr', SELF, '_oldhead'), T('attr', SELF, '_newhead')
NEWDIR = T('attr', SELF, '_newheaddir')

PARAMS = {'add_member_bag': ('name', 'uri', 'comment', 'info', 'override'),
          'update_for_member': ('bag', 'include', 'exclude', 'make_member', 'member_name'),
          'add_file_lookup': ('filepath', 'bagname'),
          'update_info': ('version', 'profver'),
          'convert': ('version', 'pid'),
          'write_member_bags': ('pid', 'comment'),
          'write_file_lookup': ('include', 'exclude', 'trunc')}
STATE = ('add_member_bag', 'remove_member_bag', 'set_member_bags', 'add_file_lookup', 'remove_file_lookup', 'clear_file_lookup',
         'set_deleted', 'unset_deleted', 'update_for_member')
SAVES = ('save_member_bags', 'save_file_lookup', 'save_deleted')


def named(c, e):
    """the arguments of a call by parameter name, as the callee declares them"""
    out = {}
    ps = PARAMS.get(e.name)
    for cls in ('HeadBag', 'SingleMultibagMaker', 'Amender'):
        try:
            f = c.prog.method(cls, e.name)
        except Exception:
            continue
        a = f.node.args
        got = [x.arg for x in a.posonlyargs + a.args][0 if f.kind == 'static' else 1:]
        if got:
            ps = got
            break
    ps = list(ps or ())
    for i, a in enumerate(e.args):
        if i < len(ps):
            out[ps[i]] = a
    for k, v in e.kw.items():
        out[k] = v
    return out


def unext(t):
    """a bag as the same bag with its extended interface"""
    while call_of(t, 'as_extended', 'as_headbag') and len(t.args) == 2:
        t = t.args[1]
    return t


def opened(v, p, where, r, q):
    """v is the bag given as p: opened if it is given by its path"""
    for val, want in ((True, p), (False, T('call', 'open_bag', p))):
        for head in (True, False):
            def fn(a):
                if a.op == 'isinstance' and a.args[0] is p and a.args[1] == 'Bag':
                    return val
                if a.op == 'bcall' and a.args[0] == '.is_head_multibag':
                    return head
                return None
            x, prev = v, None
            while prev is not x:
                prev = x
                x = unext(settle(x, fn))
            r.ok(x is want, where, q, "%s is used for the bag given %s" % (show(x)[:80], "as an object" if val else "by its path"))


def same_bag(a, b):
    """the two terms denote the same bag"""
    def bags(t):
        t = unext(t)
        return set(x for v in leaves(t) for x in ([unext(v)] if unext(v).op != 'ite' else bags(unext(v))))
    return bags(a) == bags(b)


def const_false(t):
    return t is not None and is_const(t) and not cval(t)


def default_arg(t, name):
    """the argument is left at its default or passed as such"""
    return t is None or t is NONE


@rule('C21', 'amendment-set-up', "an amendment works on the given aggregation (opened if given by its path; with its multibag data if it is a head "
      "bag) and makes the given bag the new head, whose address, comment and extra fields are kept", floor=7)
def setup(c, r):
    an = c.an('Amender.__init__')
    q = 'Amender.__init__'

    def fin(name):
        return an.final_heap.get(('attr', SELF, name), NONE)
    old = fin('_oldhead')
    opened(old, T('param', 'amendee'), an.entry, r, q)
    ext = [e for e in calls(an, 'as_extended') if e.guard is TRUE]
    r.ok(ext and all(same_bag(old, e.args[0]) for e in ext), an.entry, q, "the aggregation's bag is not always given the extended interface")
    hd = calls(an, 'as_headbag')
    ok = False
    for e in hd:
        n = assign(e.guard, lambda a: True if a.op == 'bcall' and a.args[0] == '.is_head_multibag' else None)
        z = assign(e.guard, lambda a: False if a.op == 'bcall' and a.args[0] == '.is_head_multibag' else None)
        ok = ok or (n is TRUE and same_bag(e.args[0], old) and z is FALSE)
    r.ok(ok, hd[0] if hd else an.entry, q, "the multibag data of the old head bag are not made accessible exactly if it is a head bag")
    new, d = fin('_newhead'), fin('_newheaddir')
    r.ok(new.op == 'inst' and new.args[0] == 'HeadBag' and new.args[1] is T('param', 'amendment'), an.entry, q, "the new head is %s" % show(new)[:80])
    r.ok(d is T('param', 'amendment'), an.entry, q, "the new head's directory is %s" % show(d)[:80])
    for a, p in (('_pid', 'pid'), ('_comm', 'comment'), ('_info', 'info')):
        v = fin(a)
        b = uncopy(v)
        if b.op == 'ite':
            b = uncopy(settle(b, lambda x: True if x.op == 'truthy' and x.args[0] is T('param', p) else (False if x.op == 'isnone' and x.args[0] is T('param', p) else None)))
        r.ok(b is T('param', p), an.entry, q, "%s is kept as %s" % (p, show(v)[:80]))


@rule('C21', 'one-call-amendment', "amending in one call takes the aggregation over, adds every amending bag in the order given, and then finalises with "
      "the given version", floor=4)
def one_call(c, r):
    an = c.an('multibag.amend:amend_bag_with')
    q = 'amend_bag_with'
    ins = [e for e in an.events if e.kind == 'call' and e.name == 'Amender']
    if not r.ok(len(ins) == 1, an.entry, q, "%d amendments are set up" % len(ins)):
        return
    a = ins[0]
    got = list(a.args)
    kw = dict(a.kw)
    r.ok((got[0] if got else kw.get('amendee')) is T('param', 'amendee') and
         (got[1] if len(got) > 1 else kw.get('amendment')) is T('param', 'amendment_head'), a, q, "it amends %s with %s" % tuple([show(x)[:40] for x in (got + [NONE, NONE])[:2]]))
    seq = [e for e in an.events if e.kind == 'call' and e.name in ('init_from_amendee', 'add_amending_bag', 'finalize')]
    names = [e.name for e in seq]
    if not r.ok(names == ['init_from_amendee', 'add_amending_bag', 'finalize'] and all(e.recv.op == 'inst' for e in seq), an.entry, q, "it calls %s" % names):
        return
    i, b, f = seq
    g0 = normal_guard(an)
    for e in (i, f):
        r.ok(assign(e.guard, lambda x: None) is TRUE and not e.loops, e, q, "%s is done only if %s" % (e.name, fshow(e.guard)[:80]))
    r.ok(all(const_false(x) or x is NONE for x in list(i.args) + list(i.kw.values())), i, q, "the old profile version is kept unasked")
    base = [uncopy(l.base) for l in b.loops]
    r.ok(base == [T('param', 'amendment')] and b.args and b.args[0] is T('elem', b.loops[0].base) and len(b.args) == 1 and not b.kw, b, q,
         "it adds %s for %s" % ([show(x)[:40] for x in b.args], [show(x)[:60] for x in base]))
    r.ok(not [o for l in b.loops for o in l.order if o in ('rev', 'sorted', 'set')] and not sliced(b) and not loop_breaks(b), b, q, "the order or number of the amending bags is changed")
    r.ok(under_normal(b.guard, lambda x: True if x.op == 'truthy' and x.args[0] is T('param', 'amendment') else None)[0] is True, b, q,
         "a bag is added only if %s" % fshow(b.guard)[:80])
    r.ok((f.args[0] if f.args else f.kw.get('version')) is T('param', 'version') and len(f.args) + len(f.kw) == 1, f, q, "it is finalised with %s" % [show(x)[:40] for x in f.args])


def head_is(val, also=None):
    def fn(a):
        if a.op == 'bcall' and a.args[0] == '.is_head_multibag' and a.args[1] is OLD:
            return val
        if a.op == 'isinstance' and a.args[0] is OLD and a.args[1] in ('HeadBagReadMixin', 'HeadBag'):
            return val
        return also(a) if also else None
    return fn


def over(e, *methods):
    """the event runs once for each item of what a method of the old head returns"""
    if len(e.loops) != 1 or loop_breaks(e) or sliced(e):
        return None
    b = uncopy(e.loops[0].base)
    if b.op == 'call' and b.args[0] in ['.' + m for m in methods] and b.args[1] is OLD:
        return T('elem', e.loops[0].base)
    return None


MEMFILE = [mk_path([NEWDIR, T('attr', NEW, 'multibag_tag_dir'), const('member-bags.tsv')]),
           mk_path([T('attr', NEW, 'path'), T('attr', NEW, 'multibag_tag_dir'), const('member-bags.tsv')])]


def file_atoms(a):
    """the member file of the new head exists"""
    return a.op in ('isfile', 'exists') and a.args[0] in MEMFILE or a.op == 'bcall' and a.args[0] in ('.isfile', '.exists') and a.args[1] is NEW


@rule('C21', 'members-carried-over', "the new head starts from exactly the members of the old head, with all of their information and in their order, "
      "or from the old bag alone if that is no head bag; members that the new head listed before are dropped", floor=6)
def members_carried(c, r):
    an = c.an('Amender.init_from_amendee')
    q = 'Amender.init_from_amendee'
    es = [e for e in calls(an, 'add_member_bag', 'set_member_bags', 'remove_member_bag')]
    r.ok(all(e.recv is NEW for e in es), an.entry, q, "members of another bag are changed")
    for val in (True, False):
        what = "the old head bag's members" if val else "the old bag"
        live = [e for e in es if assign(e.guard, head_is(val)) is not FALSE and e.recv is NEW and not resets(e)]
        if not r.ok(len(live) == 1, live[1] if len(live) > 1 else an.entry, q, "%d places add %s" % (len(live), what)):
            continue
        e = live[0]
        for ex in (True, False):
            b, left = under_normal(e.guard, head_is(val, lambda a: ex if file_atoms(a) else None))
            r.ok(b is True, e, q, "%s are taken over only if %s" % (what, [describe(a) for a in left]))
        if e.name == 'set_member_bags':
            v = settle(uncopy(e.args[0]), head_is(val))
            r.ok(val and v.op == 'call' and v.args[0] in ('.iter_member_bags', '.member_bags') and v.args[1] is OLD, e, q, "the members become %s" % show(v)[:100])
            continue
        n = named(c, e)
        if val:
            el = over(e, 'iter_member_bags', 'member_bags')
            if not r.ok(el is not None, e, q, "the members are taken from %s" % [show(l.base)[:80] for l in e.loops]):
                continue
            r.ok(not [o for o in e.loops[0].order if o in ('rev', 'sorted')], e, q, "the order of the members is changed")
            for k, at in (('name', 'name'), ('uri', 'uri'), ('comment', 'comment'), ('info', 'info')):
                v = uncopy(n.get(k, NONE))
                r.ok(v is T('attr', el, at), e, q, "a member's %s becomes %s" % (k, show(v)[:60]))
        else:
            r.ok(not e.loops and n.get('name') is T('attr', OLD, 'name'), e, q, "the old bag is listed as %s" % show(n.get('name', NONE))[:60])
    # what was there before
    first = min([e.seq for e in es if not resets(e)] or [10 ** 9])
    ok = any(resets(e) and e.guard is TRUE and e.seq < first and not e.loops for e in es)
    if not ok:
        rm = [x for x in effects(an) if x.kind == 'remove' and x.target in MEMFILE and x.event.seq < first]
        rl = [e for e in calls(an, 'member_bags') if e.recv is NEW and e.args and is_const(e.args[0]) and cval(e.args[0]) or
              e.recv is NEW and 'reread' in e.kw and is_const(e.kw['reread']) and cval(e.kw['reread'])]
        ok = any(under_normal(x.event.guard, lambda a: True if file_atoms(a) else None)[0] is True for x in rm) and \
            any(under_normal(e.guard, lambda a: True if file_atoms(a) else None)[0] is True and first > e.seq > rm[0].event.seq for e in rl)
    r.ok(ok, an.entry, q, "members that the new head bag listed before may remain")


def resets(e):
    return e.name == 'set_member_bags' and e.args and (e.args[0].op in ('list', 'tuple') and not e.args[0].args or e.args[0].op == 'obj')


@rule('C21', 'lookup-carried-over', "the new head's lookup starts with exactly the entries of the old head, or with the payload files of the old bag if that is "
      "no head bag; entries the new head had before are dropped", floor=6)
def lookup_carried(c, r):
    an = c.an('Amender.init_from_amendee')
    q = 'Amender.init_from_amendee'
    es = calls(an, 'add_file_lookup', 'update_for_member', 'remove_file_lookup')
    clr = [e for e in calls(an, 'clear_file_lookup') if e.recv is NEW]
    for e in es:
        r.ok(e.recv is NEW, e, q, "the lookup of another bag is changed")
        r.ok(any(k.guard is TRUE and k.seq < e.seq for k in clr), e, q, "the lookup is not cleared before")
    for k in clr:
        r.ok(not any(e.seq < k.seq for e in es), k, q, "the lookup is cleared after entries were added")
    for val in (True, False):
        live = [e for e in es if assign(e.guard, head_is(val)) is not FALSE]
        if not r.ok(len(live) == 1, live[1] if len(live) > 1 else an.entry, q, "%d places fill the lookup" % len(live)):
            continue
        e = live[0]
        b, left = under_normal(e.guard, head_is(val))
        r.ok(b is True, e, q, "the lookup is filled only if %s" % [describe(a) for a in left])
        n = named(c, e)
        if val:
            el = over(e, 'iter_file_lookup')
            ks = list(n.values())
            r.ok(e.name == 'add_file_lookup' and el is not None and len(ks) == 2 and ks[0] is T('index', el, const(0)) and ks[1] is T('index', el, const(1)), e, q,
                 "the entry %s is made for %s" % ([show(x)[:60] for x in ks], [show(l.base)[:60] for l in e.loops]))
        else:
            r.ok(e.name == 'update_for_member' and not e.loops and n.get('bag') is OLD and default_arg(n.get('exclude'), 'exclude') and
                 (default_arg(n.get('include'), 'include') or n['include'].op == 'list' and list(n['include'].args) == [const('data')]), e, q, "it registers %s" % {k: show(v)[:40] for k, v in n.items()})
            r.ok(const_false(n.get('make_member')), e, q, "the old bag is made a member again")
            r.ok(default_arg(n.get('member_name'), '') or n['member_name'] is T('attr', OLD, 'name'), e, q, "its files are registered under %s" % show(n.get('member_name', NONE))[:60])


@rule('C21', 'deletions-carried-over', "every path that the old head lists as deleted is deleted in the new head as well", floor=3)
def deletions_carried(c, r):
    an = c.an('Amender.init_from_amendee')
    q = 'Amender.init_from_amendee'
    es = calls(an, 'set_deleted')
    live = [e for e in es if e.recv is NEW and assign(e.guard, head_is(True)) is not FALSE]
    if r.ok(len(live) == 1, an.entry, q, "%d places carry the deletions over" % len(live)):
        e = live[0]
        el = over(e, 'iter_deleted', 'deleted_paths')
        r.ok(el is not None and e.args[0] is el, e, q, "%s is marked deleted for %s" % (show(e.args[0])[:60], [show(l.base)[:60] for l in e.loops]))
        b, left = under_normal(e.guard, head_is(True))
        r.ok(b is True, e, q, "a deletion is carried over only if %s" % [describe(a) for a in left])
    r.ok(not calls(an, 'unset_deleted'), an.entry, q, "deletions are withdrawn on initialisation")


@rule('C21', 'provided-again-undeleted', "a carried-over deletion is withdrawn exactly if an amending bag, or the new head itself, provides the path", floor=6)
def undeleted(c, r):
    for m, bag in (('add_amending_bag', None), ('finalize', NEW)):
        an = c.an('Amender.' + m)
        q = 'Amender.' + m
        es = calls(an, 'unset_deleted')
        if not r.ok(len(es) == 1 and es[0].recv is NEW, an.entry, q, "%d places withdraw deletions" % len(es)):
            continue
        e = es[0]
        el = over(e, 'iter_deleted', 'deleted_paths')
        if el is None and len(e.loops) == 1 and not loop_breaks(e) and not sliced(e):
            b = e.loops[0].base
            if b.op == 'copy' and call_of(b.args[1], '.deleted_paths', '.iter_deleted') and b.args[1].args[1] is NEW:
                el = T('elem', b)
        if not r.ok(el is not None and e.args[0] is el, e, q, "%s is undeleted for %s" % (show(e.args[0])[:60], [show(l.base)[:60] for l in e.loops])):
            continue

        def fn(prov):
            def f(a):
                if a.op == 'bcall' and a.args[0] == '.exists' and a.args[2] is el:
                    if bag is None:
                        # every alternative is the amending bag
                        vs = [unext(y) for x in leaves(a.args[1]) for y in leaves(unext(x))]
                        ok = all(x is T('param', 'membag') or call_of(x, 'open_bag') and x.args[1] is T('param', 'membag') for x in vs)
                    else:
                        ok = a.args[1] is bag
                    return prov if ok else None
                return None
            return f
        b, left = under_normal(e.guard, head_is(True, fn(True)))
        r.ok(b is True, e, q, "a path that is provided again stays deleted unless %s" % [describe(a) for a in left])
        b, left = under_normal(e.guard, head_is(True, fn(False)))
        r.ok(b is False, e, q, "a path that is not provided is undeleted")


@rule('C21', 'deprecated-versions-chained', "the new head deprecates everything the old head deprecates plus the old head's own version ('1' if it has none), in a "
      "list of its own; its profile version is the current one unless the old one is asked to be kept", floor=6)
def deprecates(c, r):
    an = c.an('Amender.init_from_amendee')
    q = 'Amender.init_from_amendee'
    info, oinfo = T('attr', NEW, 'info'), T('attr', OLD, 'info')
    K = const('Multibag-Head-Deprecates')
    hv = const('Multibag-Head-Version')
    dep = T('index', oinfo, K)
    for isin, islist in ((True, True), (True, False), (False, False)):
        for hasv in (True, False):
            def fn(a):
                if a.op == 'in' and a.args[1] is oinfo and a.args[0] is K:
                    return isin
                if a.op == 'in' and a.args[1] is oinfo and a.args[0] is hv:
                    return hasv
                if a.op == 'isinstance' and a.args[0] is dep:
                    return islist if a.args[1] in ('list', 'tuple') else (not islist if a.args[1] in ('str', 'unicode', 'basestring') else None)
                if a.op == 'truthy' and a.args[0] is dep:
                    return isin
                if a.op == 'isnone' and a.args[0] is dep:
                    return False
                return None
            got, bad = list_stored(an, info, K, fn)
            old = [('all', dep)] if islist else ([('one', dep)] if isin else [])
            ver = T('index', oinfo, hv) if hasv else const('1')
            want = old + [('one', ver)]
            tag = '%s [old deprecates: %s; old version: %s]' % (q, 'list' if islist else ('one' if isin else 'none'), 'set' if hasv else 'unset')
            if got is not None:
                got = [(k, settle_deep(v, fn)) for k, v in got]
            r.ok(got == want, bad or an.entry, tag, "the new head deprecates %s" % ([(k, show(v)[:60]) for k, v in got] if got is not None else 'something unknown'))
    # fresh list
    for e in an.events:
        if e.kind == 'mutate' and e.recv is not None and (e.recv is dep or any(v is dep for v in leaves(e.recv))):
            r.fail(e, q, "the old head's own list is changed")
        if e.kind == 'store' and e.recv is oinfo:
            r.fail(e, q, "the old head's metadata are changed")
        if e.kind == 'store' and e.recv is info and e.args[0] is K:
            for g, v in cases(e.args[1]):
                r.ok(v is not dep or assign(g, lambda a: True if a.op == 'isinstance' and a.args[0] is dep and a.args[1] == 'list' else None) is FALSE, e, q,
                     "the new head shares the old head's list")
    V = const('Multibag-Version')
    st = [e for e in an.events if e.kind == 'store' and e.recv is info and e.args and e.args[0] is V]
    r.ok(len(st) >= 1, an.entry, q, "the profile version is not set")
    for keep in (True, False):
        for isin in (True, False):
            def fn(a):
                if a.op == 'truthy' and a.args[0] is T('param', 'keepprofver'):
                    return keep
                if a.op == 'in' and a.args[0] is V and a.args[1] is oinfo:
                    return isin
                return None
            live = [e for e in st if assign(e.guard, fn) is not FALSE]
            v = settle_deep(live[-1].args[1], fn) if live else NONE
            want = [T('index', oinfo, V)] if keep and isin else [x for x in [const('0.4')]]
            r.ok(live and assign(live[-1].guard, fn) is TRUE and (v in want or not (keep and isin) and is_const(v) and isinstance(cval(v), str)), live[-1] if live else an.entry, q,
                 "the profile version becomes %s" % show(v)[:80])


def settle_deep(t, fn):
    return settle(t, fn)


def list_stored(an, base, key, fn):
    """the content of the list stored under a key of a map when the function ends, for the case given by fn;
    -> (list of ('one', value) | ('all', sequence), event at fault)"""
    cur, objs = None, ()
    for e in an.events:
        if e.recv is None:
            continue
        n = assign(e.guard, fn)
        if n is FALSE:
            continue
        if e.kind == 'store' and e.recv is base and e.name in ('[]', '__setitem__') and e.args[0] is key or \
                e.kind == 'mutate' and e.recv is base and e.name == 'setdefault' and e.args[0] is key:
            if n is not TRUE or e.loops:
                return None, e
            v = settle(e.args[1], fn)
            cur = content(an, v, fn, e)
            objs = (v, T('index', base, key))
            if cur is None:
                return None, e
        elif e.kind == 'mutate' and cur is not None:
            rv = settle(e.recv, fn)
            if rv in objs:
                if n is not TRUE:
                    return None, e
                lp = [l for l in e.loops]
                if e.name == 'append' and not lp:
                    cur = cur + [('one', settle(e.args[0], fn))]
                elif e.name == 'append' and len(lp) == 1 and e.args[0] is T('elem', lp[0].base) and not lp[0].order:
                    cur = cur + [('all', uncopy(lp[0].base))]
                elif e.name in ('extend', '+=') and not lp:
                    x = content(an, settle(e.args[0], fn), fn, e)
                    if x is None:
                        return None, e
                    cur = cur + x
                else:
                    return None, e
    return cur, None


def content(an, v, fn, at, depth=0):
    """the items of a list value"""
    v = settle(v, fn)
    if depth > 6:
        return None
    if v.op in ('list', 'tuple'):
        return [('one', x) for x in v.args]
    if v.op == 'copy' and v.args[0] in ('list', 'tuple'):
        return content(an, v.args[1], fn, at, depth + 1)
    if call_of(v, 'list', '.copy') and len(v.args) == 2:
        return content(an, v.args[1], fn, at, depth + 1)
    if v.op in ('concat', 'add', 'plus', 'binop'):
        out = []
        for x in v.args:
            if isinstance(x, Term):
                k = content(an, x, fn, at, depth + 1)
                if k is None:
                    return None
                out += k
        return out
    if v.op == 'obj':
        out = []
        for e in an.events:
            if e.recv is None or e.seq >= at.seq or e.kind not in ('mutate', 'store') or not contains(e.recv, v):
                continue
            n = assign(e.guard, fn)
            if n is FALSE or settle(e.recv, fn) is not v:
                continue
            if n is not TRUE:
                return None
            if e.name == 'append' and not e.loops:
                out.append(('one', settle(e.args[0], fn)))
            elif e.name == 'append' and len(e.loops) == 1 and e.args[0] is T('elem', e.loops[0].base) and not e.loops[0].order:
                out.append(('all', uncopy(e.loops[0].base)))
            elif e.name in ('extend', '+=') and not e.loops:
                k = content(an, e.args[0], fn, at, depth + 1)
                if k is None:
                    return None
                out += k
            else:
                return None
        return out
    return [('all', v)]


@rule('C21', 'amending-bag-added', "adding an amending bag makes it the last member so far, with the given address, comment and extra fields, and "
      "registers its files as the include and exclude lists say", floor=6)
def bag_added(c, r):
    bag_joined(c, r, 'add_amending_bag', None, [T('param', 'pid'), T('param', 'comment'), T('param', 'info')])


@rule('C21', 'head-added-last-and-saved', "finalising makes the new head the last member and registers its files, then saves members, lookup and deletions, and "
      "records the given version in the metadata after the tag files were written; it does so unconditionally", floor=12)
def head_added(c, r):
    an = c.an('Amender.finalize')
    q = 'Amender.finalize'
    bag_joined(c, r, 'finalize', NEW, [T('attr', SELF, '_pid'), T('attr', SELF, '_comm'), T('attr', SELF, '_info')])
    ch = [e for e in an.events if e.kind == 'call' and e.name in STATE and e.recv is NEW]
    ui = [e for e in calls(an, 'update_info') if e.recv is NEW]
    for s in SAVES:
        es = [e for e in calls(an, s) if e.recv is NEW]
        ok = [e for e in es if assign(e.guard, lambda a: None) is TRUE and not e.loops]
        if r.ok(ok, es[0] if es else an.entry, q, "%s is not always done" % s):
            late = [e for e in ch if e.seq > ok[-1].seq and relevant(e, s)]
            r.ok(not late, late[0] if late else ok[-1], q, "%s comes before the last change" % s)
            r.ok(any(u.seq > ok[-1].seq for u in ui), ok[-1], q, "the metadata are recorded before %s" % s)
    if r.ok(len(ui) >= 1, an.entry, q, "the version is not recorded"):
        u = ui[-1]
        n = named(c, u)
        r.ok(n.get('version') is T('param', 'version'), u, q, "the version recorded is %s" % show(n.get('version', NONE))[:60])
        r.ok(n.get('profver') is T('attr', NEW, 'profile_version') or n.get('profver') is not None and call_of(n['profver'], '.get') or
             n.get('profver') is T('index', T('attr', NEW, 'info'), const('Multibag-Version')), u, q, "the profile version recorded is %s" % show(n.get('profver', NONE))[:60])
        r.ok(u.guard is TRUE and not u.loops, u, q, "the version is recorded only if %s" % fshow(u.guard)[:80])


def relevant(e, save):
    if e.name in ('remove_member_bag', 'add_member_bag'):
        return True
    if e.name == 'update_for_member':
        return save != 'save_deleted'
    if 'deleted' in e.name:
        return save == 'save_deleted'
    if 'lookup' in e.name:
        return save == 'save_file_lookup'
    return True


def bag_joined(c, r, m, bag, extra):
    an = c.an('Amender.' + m)
    q = 'Amender.' + m
    P = T('param', 'membag')

    def isbag(t, where):
        if bag is not None:
            r.ok(t is bag, where, q, "%s is used for the new head" % show(t)[:60])
        else:
            opened(t, P, where, r, q)
    add = calls(an, 'add_member_bag', 'set_member_bags', 'remove_member_bag')
    upd = calls(an, 'update_for_member', 'add_file_lookup', 'remove_file_lookup', 'clear_file_lookup')
    if r.ok(len(add) == 1 and add[0].name == 'add_member_bag' and add[0].recv is NEW, an.entry, q, "members are changed by %s" % [e.name for e in add]):
        e = add[0]
        r.ok(e.guard is TRUE and not e.loops, e, q, "the bag is made a member only if %s" % fshow(e.guard)[:100])
        n = named(c, e)
        nm = n.get('name', NONE)
        if bag is not None:
            r.ok(nm is T('attr', bag, 'name'), e, q, "the member is listed as %s" % show(nm)[:60])
        else:
            for val, want in ((True, P), (False, T('call', 'open_bag', P))):
                v = settle(nm, lambda a: val if a.op == 'isinstance' and a.args[0] is P and a.args[1] == 'Bag' else None)
                r.ok(v.op == 'attr' and v.args[1] == 'name' and unext(settle(v.args[0], lambda a: val if a.op == 'isinstance' and a.args[0] is P else None)) is want, e, q,
                     "the member is listed as %s" % show(v)[:60])
        for k, w in zip(('uri', 'comment', 'info'), extra):
            v = uncopy(n.get(k, NONE))
            r.ok(v is w, e, q, "its %s is recorded as %s" % (k, show(v)[:60]))
        ov = n.get('override')
        r.ok(ov is None or not const_false(ov), e, q, "an earlier entry of the same bag is kept")
    if r.ok(len(upd) == 1 and upd[0].name == 'update_for_member' and upd[0].recv is NEW, an.entry, q, "the lookup is changed by %s" % [e.name for e in upd]):
        e = upd[0]
        r.ok(e.guard is TRUE and not e.loops, e, q, "its files are registered only if %s" % fshow(e.guard)[:100])
        n = named(c, e)
        isbag(n.get('bag', NONE), e)
        for k, p in (('include', 'include_lu'), ('exclude', 'exclude_lu')):
            r.ok(n.get(k, NONE) is T('param', p), e, q, "the files to %s are %s" % (k, show(n.get(k, NONE))[:60]))
        r.ok(const_false(n.get('make_member')) or add and add[0].seq > e.seq, e, q, "the bag is made a member again, without its information")
        mn = n.get('member_name')
        r.ok(mn is None or mn is NONE or mn.op == 'attr' and mn.args[1] == 'name' or all(v.op == 'attr' and v.args[1] == 'name' for v in leaves(mn)), e, q, "its files are registered under %s" % (show(mn)[:60] if mn is not None else ''))
        if add:
            r.ok(add[0].seq < e.seq, e, q, "making the bag a member afterwards drops the files registered with it")


# ------------------------------------------------------------------ a single bag

BAG = T('attr', MAKER, 'bag')


@rule('C22', 'single-bag-opened', "the conversion works on the bag at the given path, which must exist, and uses the given tag directory", floor=4)
def maker_setup(c, r):
    an = c.an('SingleMultibagMaker.__init__')
    q = 'SingleMultibagMaker.__init__'
    P, D = T('param', 'bagdir'), T('param', 'multibag_tagdir')
    b = an.final_heap.get(('attr', MAKER, 'bag'), NONE)
    vs = [v for g, v in cases(b) if f_and(g, normal_guard(an)) is not FALSE]
    r.ok(vs and all(v.op == 'inst' and v.args[0] == 'HeadBag' and v.args[1] is P for v in vs), an.entry, q, "it works on %s" % show(b)[:80])
    ex = lambda a: a.op in ('exists', 'isdir') and a.args[0] is P
    r.ok(any(assign(e.guard, lambda a: False if ex(a) else None) is TRUE for e in raises(an)), an.entry, q, "a missing bag is not an error")
    r.ok(all(assign(e.guard, lambda a: True if ex(a) else None) is FALSE for e in raises(an)), an.entry, q, "an existing bag is refused")
    g = FALSE
    for e in calls(an, 'set_multibag_tag_dir'):
        n = list(e.args) + list(e.kw.values())
        r.ok(n and n[0] is D, e, q, "the tag directory becomes %s" % [show(x)[:60] for x in n])
        g = f_or(g, e.guard)
    b, left = under_normal(g, lambda a: False if a.op == 'eq' and D in a.args and const('multibag') in a.args else (True if ex(a) else None))
    r.ok(b is True, an.entry, q, "another tag directory is used only if %s" % [describe(a) for a in left])


@rule('C22', 'sole-member', "the member list of a converted bag is exactly the bag itself, with the given address, comment and extra fields, and is saved", floor=5)
def sole_member(c, r):
    an = c.an('SingleMultibagMaker.write_member_bags')
    q = 'SingleMultibagMaker.write_member_bags'
    st = [e for e in calls(an, 'set_member_bags', 'add_member_bag', 'remove_member_bag')]
    sv = calls(an, 'save_member_bags')
    if r.ok(len(st) == 1 and st[0].name == 'set_member_bags' and st[0].recv is BAG, an.entry, q, "members are changed by %s" % [e.name for e in st]):
        e = st[0]
        r.ok(e.guard is TRUE and not e.loops, e, q, "the members are set only if %s" % fshow(e.guard)[:80])
        k = content(an, e.args[0], lambda a: None, e)
        ok = k is not None and len(k) == 1 and k[0][0] == 'one' and k[0][1].op == 'inst' and k[0][1].args[0] == 'MemberInfo'
        if r.ok(ok, e, q, "the members become %s" % show(e.args[0])[:80]):
            mi = k[0][1]
            for a, w in (('name', T('attr', BAG, 'name')), ('uri', T('param', 'pid')), ('comment', T('param', 'comment')), ('info', T('param', 'info'))):
                v = uncopy(an.final_heap.get(('attr', mi, a), NONE))
                r.ok(v is w, e, q, "the member's %s becomes %s" % (a, show(v)[:60]))
        r.ok(any(s.recv is BAG and s.guard is TRUE and s.seq > e.seq for s in sv), e, q, "the member list is not saved")


@rule('C22', 'lookup-written', "the lookup gets the files chosen by the include and exclude lists, after the old entries were discarded if and only if asked for, "
      "and is saved", floor=5)
def lookup_written(c, r):
    an = c.an('SingleMultibagMaker.write_file_lookup')
    q = 'SingleMultibagMaker.write_file_lookup'
    up = calls(an, 'update_for_member', 'add_file_lookup', 'remove_file_lookup')
    cl = calls(an, 'clear_file_lookup')
    sv = calls(an, 'save_file_lookup')
    tr = atom(T('truthy', T('param', 'trunc')))
    g = FALSE
    for e in cl:
        g = f_or(g, e.guard)
    r.ok(g is tr and all(e.recv is BAG for e in cl), cl[0] if cl else an.entry, q, "the old entries are discarded if %s" % fshow(g)[:80])
    if r.ok(len(up) == 1 and up[0].name == 'update_for_member' and up[0].recv is BAG, an.entry, q, "the lookup is changed by %s" % [e.name for e in up]):
        e = up[0]
        n = named(c, e)
        r.ok(e.guard is TRUE and not e.loops and n.get('bag') is BAG and n.get('include') is T('param', 'include') and n.get('exclude') is T('param', 'exclude'), e, q,
             "it registers %s if %s" % ({k: show(v)[:40] for k, v in n.items()}, fshow(e.guard)[:80]))
        r.ok(const_false(n.get('make_member')), e, q, "the bag is made a member again, without its information")
        mn = n.get('member_name')
        r.ok(mn is None or mn is NONE or mn is T('attr', BAG, 'name'), e, q, "files are registered under another name")
        r.ok(all(k.seq < e.seq for k in cl), e, q, "the new entries are discarded")
        r.ok(any(s.recv is BAG and s.guard is TRUE and s.seq > e.seq for s in sv), e, q, "the lookup is not saved")


@rule('C22', 'single-bag-converted', "the conversion writes the member list (with the given address) and a fresh lookup of the payload, and records the given "
      "version after both", floor=6)
def converted(c, r):
    an = c.an('SingleMultibagMaker.convert')
    q = 'SingleMultibagMaker.convert'
    es = {}
    for m in ('write_member_bags', 'write_file_lookup', 'update_info'):
        k = [e for e in calls(an, m) if e.recv in (MAKER, BAG)]
        if r.ok(len(k) >= 1 and k[-1].guard is TRUE and not k[-1].loops, k[-1] if k else an.entry, q, "%s is not always done" % m):
            es[m] = k[-1]
    if len(es) == 3:
        n = named(c, es['write_member_bags'])
        r.ok(n.get('pid') is T('param', 'pid') and len(n) == 1, es['write_member_bags'], q, "the member's address becomes %s" % show(n.get('pid', NONE))[:60])
        n = named(c, es['write_file_lookup'])
        tr = n.get('trunc')
        r.ok(tr is not None and is_const(tr) and cval(tr) and all(default_arg(n.get(k), k) or k == 'include' and n[k].op == 'list' and list(n[k].args) == [const('data')]
                                                                for k in ('include', 'exclude')), es['write_file_lookup'], q, "the lookup is written with %s" % {k: show(v) for k, v in n.items()})
        n = named(c, es['update_info'])
        r.ok(n.get('version') is T('param', 'version'), es['update_info'], q, "the version recorded is %s" % show(n.get('version', NONE))[:60])
        for m in ('write_member_bags', 'write_file_lookup'):
            r.ok(es[m].seq < es['update_info'].seq, es['update_info'], q, "the size and version are recorded before %s" % m)
    an = c.an('SingleMultibagMaker.update_info')
    u = [e for e in calls(an, 'update_info') if e.recv is BAG]
    r.ok(len(u) == 1 and u[0].guard is TRUE and named(c, u[0]).get('version') is T('param', 'version') and
         len(named(c, u[0])) == 1, an.entry, 'SingleMultibagMaker.update_info', "the given version is not recorded")
    an = c.an('multibag.amend:make_single_multibag')
    k = [e for e in calls(an, 'convert')]
    ok = len(k) == 1 and k[0].recv.op == 'inst' and k[0].recv.args[0] == 'SingleMultibagMaker' and k[0].recv.args[1] is T('param', 'bagdir')
    n = named(c, k[0]) if k else {}
    r.ok(ok and n.get('version') is T('param', 'version') and n.get('pid') is T('param', 'pid'), k[0] if k else an.entry, 'make_single_multibag',
         "it converts %s with %s" % (show(k[0].recv)[:60] if k else 'nothing', {x: show(v)[:40] for x, v in n.items()}))
    b, left = under_normal(k[0].guard if k else FALSE, lambda a: True if a.op in ('exists', 'isdir') else None)
    r.ok(b is True, an.entry, 'make_single_multibag', "the bag is converted only if %s" % [describe(a) for a in left])
