"""rules for planning a split and writing the member bags (split)"""
from ..query import *
from ..terms import TRUE, FALSE, NONE
from ..shapes import Shape, UNKNOWN

SELF = T('self', 'SplitPlan')
MANS = T('attr', SELF, '_manifests')
PROG = T('attr', SELF, 'progenitor')


# ---------------------------------------------------------------------------------------- the plan

@rule('C09', 'plan-requires-everything',
      "the paths a plan must place are those enumerated by the source bag: every file except the special BagIt files at its "
      "root, and every empty directory", floor=6)
def plan_required(c, r):
    an = c.an('SplitPlan.required')
    v = uncopy(an.retval())
    if an.entry.is_gen:
        ys = [e for e in an.events if e.kind == 'yield']
        r.ok(len(ys) == 1 and ys[0].guard is TRUE and not loop_breaks(ys[0]) and not sliced(ys[0]) and
             ys[0].args[0] is T('elem', T('call', '.nonstandard', PROG)), an.entry, 'required', "required() does not give every path of the source bag")
    else:
        r.ok(call_of(v, '.nonstandard') and v.args[1] is PROG, an.entry, 'required',
             "required() does not give every path of the source bag but %s" % show(v)[:160])
    an = c.an('ExtendedReadMixin.nonstandard')
    W = T('call', '.walk', T('self', 'ExtendedReadMixin'))
    el = T('elem', W)
    d, sub, fs = [T('index', el, const(i)) for i in range(3)]
    ys = [e for e in an.events if e.kind == 'yield']
    fy = [e for e in ys if e.args[0] is mk_path([d, T('elem', fs)])]
    dy = [e for e in ys if e.args[0] is d]
    for e in prunes(an):
        r.fail(e, 'pruned', "directories are left out of the walk of the source bag")
    for e in ys:
        r.ok(e in fy or e in dy, e, 'extra', "nonstandard() gives something other than the files and empty directories of the bag: %s" % show(e.args[0])[:120])
        for l, k, g, ln in loop_breaks(e):
            r.fail(e, 'early-exit', "the enumeration of the source bag can stop early (%s at line %s)" % (k, ln))
        for l in sliced(e):
            r.fail(e, 'partial', "only part of the source bag is enumerated")
        for l in e.loops:
            b = uncopy(l.base)
            r.ok(b is W or b is fs or b is sub, e, 'walk', "the paths are not enumerated by walking the whole bag: %s" % show(l.base)[:120])
    if r.ok(dy, an.entry, 'empty-dirs', "empty directories of the source bag are not enumerated"):
        g = f_or(*[e.guard for e in dy])

        def empty(a):
            if a.op == 'truthy' and a.args[0] in (sub, fs):
                return False
            if a.op == 'existsq' and a.args[0] in (sub, fs):
                return False
            if a.op in ('lt', 'eq') and all(z.op in ('len', 'const') for z in a.args):
                return None
            if a.op == 'truthy' and a.args[0] is d:
                return True
            return None
        v, left = under_normal(g, empty)
        r.ok(v is True, dy[0], 'empty-dirs-condition', "an empty directory is enumerated only under a further condition: %s" % ', '.join(describe(a) for a in left))
    if r.ok(fy, an.entry, 'files', "the files of the source bag are not enumerated"):
        g = f_or(*[e.guard for e in fy])
        pats = []

        def plain(a):
            p = special_test(a, mk_path([d, T('elem', fs)]))
            if p is not None:
                pats.append(p)
                return False
            if a.op == 'truthy' and a.args[0] in (fs,):
                return True
            return None
        v, left = under_normal(g, plain)
        r.ok(v is True, fy[0], 'files-condition', "a file is enumerated only under a further condition: %s" % ', '.join(describe(a) for a in left))
        for p in pats:
            r.ok(safe_special(p), fy[0], 'special:%s' % (p,), "files other than the special BagIt files at the root of the bag are left out by %r" % (p,))
        names = 'bagit.txt bag-info.txt fetch.txt manifest-md5.txt tagmanifest-sha256.txt'.split()
        for n in names:
            r.ok(any(matches(p, n) for p in pats), fy[0], 'excludes:' + n, "%s of the source bag is treated as an ordinary file to place" % n)


def special_test(a, path):
    """the pattern (or literal) that atom a tests the path against"""
    if a.op == 'match' and a.args[2] is path:
        rx = a.args[1]
        if call_of(rx, 're.compile') and len(rx.args) == 2 and is_const(rx.args[1]):
            return (a.args[0], cval(rx.args[1]))
    if call_of(a, 're.match', 're.search', 're.fullmatch') and len(a.args) > 2 and a.args[2] is path and is_const(a.args[1]):
        return (a.args[0].split('.')[1], cval(a.args[1]))
    if a.op == 'truthy' and call_of(a.args[0], 're.match', 're.search', 're.fullmatch') and a.args[0].args[2] is path and \
            is_const(a.args[0].args[1]):
        return (a.args[0].args[0].split('.')[1], cval(a.args[0].args[1]))
    if a.op == 'eq' and path in a.args:
        o = a.args[0] if a.args[1] is path else a.args[1]
        if is_const(o) and isinstance(cval(o), str):
            return ('eq', cval(o))
    if a.op == 'in' and a.args[0] is path and a.args[1].op in ('list', 'tuple', 'set') and all(is_const(z) for z in a.args[1].args if isinstance(z, Term)):
        return ('in', tuple(cval(z) for z in a.args[1].args if isinstance(z, Term)))
    return None


def matches(p, s):
    import re
    k, x = p
    if k == 'eq':
        return s == x
    if k == 'in':
        return s in x
    try:
        return bool(getattr(re, k)(x, s))
    except re.error:
        return False


def safe_special(p, lead=''):
    """the test is true for no path that is an ordinary file of some bag"""
    probes = ['data/bagit.txt', 'data/manifest-md5.txt', 'data/x/bag-info.txt', 'data/fetch.txt', 'meta/tagmanifest-md5.txt', 'bagitXtxt',
              'bag-infoXtxt', 'fetchXtxt', 'sub/bag-info.txt', 'bagit.txt.bak', 'fetch.txt~', 'mybagit.txt', 'bag-info.txt/x', 'my-manifest-md5.txt',
              'manifest-md5.txt.sig', 'manifest-md5Xtxt', 'data/a', 'multibag/member-bags.tsv', 'preserv.log', 'metadata/nerdm.json', 'about.txt',
              'manifest-md5.txt/a', 'manifest.txt', 'manifest-a/b.txt', 'data/manifest-a.txt', 'a/b/c.txt', 'README', 'bagit.txtx',
              'BagIt.txt', 'BAG-INFO.TXT', 'Fetch.txt', 'Manifest-md5.txt', 'manifest-md5.TXT', 'tagmanifest-a-b.txt']
    return not any(matches(p, lead + s) for s in probes)


@rule('C09', 'plan-missing',
      "a required path counts as missing exactly when no manifest of the plan lists it; a plan is complete exactly when "
      "nothing is missing", floor=6)
def plan_missing(c, r):
    an = c.an('SplitPlan.missing')
    R = T('call', '.required', SELF)
    ys = [e for e in an.events if e.kind == 'yield']
    el = T('elem', R)
    if not an.entry.is_gen:
        # a returned comprehension
        v = uncopy(an.retval())
        if r.ok(v.op == 'comp' and len(v.args[2]) == 1 and v.args[2][0].args[0] is R and v.args[1] is el, an.entry, 'paths', "missing() does not run over the required paths: %s" % show(v)[:160]):
            check_missing_guard(r, an.entry, v.args[3].args[0], el)
    else:
        r.ok(ys, an.entry, 'paths', "missing() gives nothing")
        for e in ys:
            r.ok(e.args[0] is el and len(e.loops) == 1 and uncopy(e.loops[0].base) is R, e, 'paths', "missing() does not run over the required paths: %s" % show(e.args[0])[:160])
            for l, k, g, ln in loop_breaks(e):
                r.fail(e, 'early-exit', "missing() can stop early (%s)" % k)
            r.ok(not sliced(e), e, 'partial', "missing() looks at only part of the required paths")
        check_missing_guard(r, ys[0] if ys else an.entry, f_or(*[e.guard for e in ys]) if ys else FALSE, el)
    # find_destination
    an = c.an('SplitPlan.find_destination')
    P = T('param', 'path')
    v = an.retval()
    found = False
    for g, x in cases(v):
        if is_none(x):
            continue
        pk = as_pick(x)
        if not r.ok(pk is not None and uncopy(pk[0]) is MANS, an.entry, 'find', "find_destination() does not select one of the plan's manifests: %s" % show(x)[:200]):
            continue
        found = True
        want = T('in', P, T('index', T('elem', pk[0]), const('contents')))
        cond = pk[1]
        r.ok(cond is atom(want), an.entry, 'find-condition', "a manifest is taken as destination by a test other than listing the path: %s" % fshow(cond)[:200])
        r.ok(pk[2] is T('elem', pk[0]), an.entry, 'find-value', "find_destination() does not give the manifest")
        r.ok(pk[3] == 'last', an.entry, 'find-last', "of several manifests listing a path, find_destination() does not give the last")
        ex = [a for a in support(g) if a.op == 'existsq']
        r.ok(len(ex) == 1 and g is atom(ex[0]), an.entry, 'find-when', "a destination is found only under a further condition: %s" % fshow(g)[:160])
    r.ok(found, an.entry, 'find-some', "find_destination() never finds a manifest")
    # is_complete
    an = c.an('SplitPlan.is_complete')
    M = T('call', '.missing', SELF)
    for nonempty in (True, False):
        def env(a):
            if a.op == 'truthy' and (uncopy(a.args[0]) is M):
                return nonempty
            if a.op == 'existsq' and uncopy(a.args[0]) is M and a.args[1].args[0] is TRUE:
                return nonempty
            if a.op == 'exc' and 'StopIteration' in [cval(z) if isinstance(z, Term) and is_const(z) else z for z in a.args]:
                return not nonempty
            if a.op == 'isnone' and call_of(a.args[0], 'next', 'first'):
                return not nonempty
            if a.op == 'eq' and any(z.op == 'len' and uncopy(z.args[0]) is M for z in a.args):
                return not nonempty
            return None
        got = set()
        rets = sorted(an.returns, key=lambda z: 0 if any(a.op == 'exc' for a in support(z[0])) else 1)
        for z in rets:
            gv, left = under_normal(z[0], env)
            if gv is False:
                continue
            bv, left2 = under_normal(tobool(z[1]), env)
            got.add(bv)
            if any(a.op == 'exc' for a in support(z[0])) and gv is True:
                break
        r.ok(got == {not nonempty}, an.entry, 'is-complete-%s' % ('nonempty' if nonempty else 'empty'),
             "is_complete() can be %s although there are %s missing paths" % (got, 'some' if nonempty else 'no'))


def check_missing_guard(r, where, g, el):
    fd = T('call', '.find_destination', SELF, el)

    def env(a, v):
        if a.op in ('truthy',) and a.args[0] is fd:
            return v
        if a.op == 'isnone' and a.args[0] is fd:
            return not v
        return None
    v0, left0 = under_normal(g, lambda a: env(a, False))
    v1, left1 = under_normal(g, lambda a: env(a, True))
    r.ok(v0 is True, where, 'missing-when', "a path that no manifest lists is reported missing only under a further condition: %s" % ', '.join(describe(a) for a in left0))
    r.ok(v1 is False, where, 'missing-only', "a path that a manifest lists is reported missing")


@rule('C09', 'plan-completion',
      "completing a plan adds one manifest listing every missing path, whenever something is missing, and leaves the other "
      "manifests alone", floor=4)
def completion(c, r):
    an = c.an('SplitPlan.complete_plan')
    M = T('call', '.missing', SELF)
    ap = [e for e in an.events if e.kind == 'mutate' and e.recv is MANS]
    if r.ok(len(ap) >= 1 and all(e.name == 'append' for e in ap), an.entry, 'append', "complete_plan() does not append a manifest to the plan"):
        g = f_or(*[e.guard for e in ap])

        def env(a):
            if a.op == 'truthy' and uncopy(a.args[0]) is M:
                return True
            if a.op == 'existsq' and uncopy(a.args[0]) is M and a.args[1].args[0] is TRUE:
                return True
            if call_of(a, '.is_complete') or (a.op == 'truthy' and call_of(a.args[0], '.is_complete')):
                return False
            if a.op == 'exc':
                return False
            return None
        v, left = under_normal(g, env)
        r.ok(v is True, ap[0], 'condition', "missing paths are added only under a further condition: %s" % ', '.join(describe(a) for a in left))
        for e in ap:
            m = e.args[0]
            r.ok(not e.loops, e, 'once', "several manifests are added")
            r.ok(full_contents(an, m, M), e, 'contents', "the added manifest does not list every missing path")
            r.ok(m.op != 'elem', e, 'new', "the plan's own manifests are changed")
    for e in an.events:
        if e.kind in ('setattr',) and e.recv is SELF and e.name == '_manifests':
            r.fail(e, 'replaced', "complete_plan() replaces the plan's manifests")
        if e.kind in ('store', 'mutate') and e.recv is not MANS and contains(e.recv, MANS) and e.recv.op != 'obj':
            r.fail(e, 'changed', "complete_plan() changes an existing manifest")
    # _create_plan
    for cls in ('WellPackedSplitter', 'NeighborlySplitter'):
        an = c.an(cls + '._create_plan')
        cp = calls(an, 'complete_plan')
        if r.ok(cp, an.entry, cls + '-complete', "%s does not complete its plan" % cls):
            e = cp[-1]
            ng = normal_guard(an)
            r.ok(implies(ng, f_or(*[x.guard for x in cp])), e, cls + '-complete-always', "%s completes its plan only under a condition" % cls)
            r.ok(an.retval() is e.recv, e, cls + '-returns', "%s does not return the plan it completed" % cls)
            later = [x for x in an.events if x.seq > e.seq and x.kind in ('mutate', 'store') and
                     any(x.recv is z.recv for z in an.events if z.kind == 'mutate' and z.name == 'append' and z.seq < e.seq)]
            r.ok(not later, e, cls + '-after', "%s changes the manifests after completing the plan" % cls)
            r.ok(contains(e.recv, T('param', 'bagpath')), e, cls + '-source', "the plan is not for the given bag: %s" % show(e.recv)[:120])


def full_contents(an, m, M):
    """the manifest's contents are all elements of M"""
    for e in an.events:
        if e.kind == 'store' and e.recv is m and e.args and is_const(e.args[0]) and cval(e.args[0]) == 'contents':
            v = e.args[1]
            if uncopy(v) is M and 'slice' not in show(v):
                return True
            if v.op == 'comp' and len(v.args[2]) == 1 and uncopy(v.args[2][0].args[0]) is M and v.args[1] is T('elem', v.args[2][0].args[0]) and \
                    v.args[3].args[0] is TRUE:
                return True
            if v.op == 'obj':
                ps = producers(an, v)
                if ps and len(ps) == 1:
                    el, g, ll, ev = ps[0]
                    if len(ll) == 1 and uncopy(ll[0].base) is M and el is T('elem', ll[0].base) and not loop_breaks(ev) and not sliced(ev):
                        v_, left = under_normal(g, lambda a: None)
                        if v_ is True or not any(contains(a, el) for a in support(g)):
                            return True
    return False


@rule('C09', 'plan-manifests',
      "manifests() gives an independent copy of every manifest of the plan, in order, and marks exactly the last as the head "
      "bag", floor=4)
def plan_manifests(c, r):
    an = c.an('SplitPlan.manifests')
    ys = [e for e in an.events if e.kind == 'yield']
    if not r.ok(ys, an.entry, 'yield', "manifests() gives nothing"):
        return
    g = f_or(*[e.guard for e in ys])

    def env(a):
        if a.op == 'truthy' and a.args[0] is MANS:
            return True
        if a.op in ('eq', 'lt') and any(z.op in ('pos', 'len') for z in a.args):
            return None
        return None
    v, left = under_normal(g, env)
    if v is None and all(last_atom(a) for a in left):
        v = True if all(under_normal(g, lambda a, t=t: t if last_atom(a) else env(a))[0] for t in (True, False)) else None
    r.ok(v is True, ys[0], 'condition', "some manifests are left out: %s" % ', '.join(describe(a) for a in left))
    for e in ys:
        r.ok(len(e.loops) == 1 and uncopy(e.loops[0].base) is MANS and not e.loops[0].reversed() and not loop_breaks(e) and not sliced(e) and
             not any(o in ('sorted', 'set') for o in e.loops[0].order), e, 'every', "manifests() does not run over all manifests in order")
        v = e.args[0]
        el = T('elem', e.loops[0].base) if e.loops else None
        dc = el is not None and call_of(v, 'copy.deepcopy', 'deepcopy') and v.args[1] is el
        if not dc and v.op == 'obj':
            # a hand-made copy: a new dict with a copied contents list
            st = {cval(s.args[0]): s.args[1] for s in an.events if s.kind == 'store' and s.recv is v and is_const(s.args[0])}
            dc = 'contents' in st and st['contents'].op in ('copy', 'comp')
        if v.op == 'copy' and v.args[1] is el:
            st = [s for s in an.events if s.kind == 'store' and s.recv is v and is_const(s.args[0]) and cval(s.args[0]) == 'contents']
            dc = bool(st)
        r.ok(dc, e, 'copy', "the manifest given out is not an independent copy: %s" % show(v)[:160])
        st = [s for s in an.events if s.kind == 'store' and s.recv is v and s.args and is_const(s.args[0]) and cval(s.args[0]) == 'ishead']
        if r.ok(st, e, 'ishead', "the head bag is not marked"):
            for last in (True, False):
                res = set()
                for s in st:
                    gv, l1 = under_normal(s.guard, lambda a: last if last_atom(a) else (not last if notlast_atom(a) else env(a)))
                    if gv is False:
                        continue
                    bv, l2 = under_normal(tobool(s.args[1]), lambda a: last if last_atom(a) else (not last if notlast_atom(a) else None))
                    res.add(bv)
                r.ok(res == {last} or (not last and not res), st[0], 'ishead-%s' % ('last' if last else 'others'),
                     "the %s manifest is %smarked as the head bag" % ('last' if last else 'not last', 'not ' if last else ''))


def _is_len_minus1(t):
    return t.op == 'sub' and t.args[0].op == 'len' and uncopy(t.args[0].args[0]) is MANS and is_const(t.args[1]) and cval(t.args[1]) == 1


def last_atom(a):
    """position == len - 1 (or an equivalent)"""
    if a.op == 'eq':
        x, y = a.args
        for u, v in ((x, y), (y, x)):
            if u.op == 'pos' and uncopy(u.args[0]) is MANS:
                if _is_len_minus1(v):
                    return True
            if u.op == 'add' and u.args[0].op == 'pos' and is_const(u.args[1]) and cval(u.args[1]) == 1 and v.op == 'len' and uncopy(v.args[0]) is MANS:
                return True
            if u.op == 'len' and uncopy(u.args[0]) is MANS and v.op == 'add' and any(z.op == 'pos' for z in v.args) and \
                    any(is_const(z) and cval(z) == 1 for z in v.args):
                return True
            if u.op == 'elem' and uncopy(u.args[0]) is MANS and v.op == 'index' and uncopy(v.args[0]) is MANS and is_const(v.args[1]) and cval(v.args[1]) == -1:
                return True
    return False


def notlast_atom(a):
    if a.op == 'lt' and a.args[0].op == 'pos' and _is_len_minus1(a.args[1]):
        return True
    if a.op == 'lt' and a.args[0].op == 'add' and a.args[0].args[0].op == 'pos' and a.args[1].op == 'len':
        return True
    return False


@rule(['C09', 'C14'], 'split-entry',
      "split() plans for the given bag, applies the whole plan to the given output directory and returns every bag written; "
      "plan() names the output bags of the plan it returns from the given basis", floor=6)
def split_entry(c, r):
    S = T('self', 'Splitter')
    an = c.an('Splitter.split')
    ai = calls(an, 'apply_iter')
    if r.ok(len(ai) == 1, an.entry, 'apply', "split() does not apply its plan exactly once"):
        e = ai[0]
        r.ok(call_of(e.recv, '.plan') and e.recv.args[1] is S and T('param', 'bagpath') in e.recv.args and
             any(contains(z, T('param', 'namebasis')) for z in e.recv.args[2:] if isinstance(z, Term)), e, 'plan', "split() applies a plan other than that of the given bag and names")
        r.ok(e.args[:1] == [T('param', 'outdir')] or e.args[:1] == (T('param', 'outdir'),) or e.kw.get('outdir') is T('param', 'outdir'), e, 'outdir', "split() does not write to the given output directory")
        np = e.kw.get('info_nopass') or (e.args[2] if len(e.args) > 2 else None)
        r.ok(np is not None and contains(np, T('param', 'info_nopass')), e, 'nopass', "split() does not pass on the names to leave out of bag-info")
        r.ok(e.guard is TRUE, e, 'always', "split() applies its plan only under a condition")
        v = an.retval()
        it = e.value
        full = uncopy(v) is it or (v.op == 'comp' and v.args[2][0].args[0] is it and v.args[3].args[0] is TRUE)
        if v.op == 'obj':
            ps = producers(an, v)
            full = bool(ps) and len(ps) == 1 and ps[0][1] is TRUE and len(ps[0][2]) == 1 and uncopy(ps[0][2][0].base) is it and \
                not loop_breaks(ps[0][3]) and not sliced(ps[0][3]) and ps[0][0] is T('elem', ps[0][2][0].base)
        r.ok(full, e, 'result', "split() does not write and return every bag of the plan")
    an = c.an('Splitter.plan')
    cp = calls(an, '_create_plan')
    no = calls(an, 'name_output_bags')
    bp, nb = T('param', 'bagpath'), T('param', 'namebasis')
    if r.ok(len(cp) == 1 and list(cp[0].args) == [bp] and cp[0].guard is TRUE, an.entry, 'create', "plan() does not create a plan for the given bag") and \
            r.ok(no and implies(TRUE, f_or(*[e.guard for e in no])) and all(e.recv is cp[0].value for e in no), an.entry, 'names', "plan() does not name the output bags"):
        r.ok(an.retval() is cp[0].value, an.entry, 'returns', "plan() does not return the plan it made")
        given = T('truthy', nb)
        isstr = [a for e in no for z in e.args for a in fatoms(z) | set(x for g, _ in cases(z) for x in support(g)) if a.op == 'isinstance' and a.args[0] is nb]
        for e in no:
            for g, v in cases(e.args[0], e.guard):
                g1 = restrict(g, {given: True})
                for a in isstr:
                    pass
                strs = {a: True for a in support(g1) if a.op == 'isinstance'}
                gs = restrict(g1, strs)
                gi = restrict(g1, {a: False for a in strs})
                if gs is not FALSE:
                    for g2, b in cases(v.args[1]) if v.op == 'inst' and len(v.args) > 1 else [(TRUE, v)]:
                        if restrict(g2, {given: True}) is not FALSE:
                            r.ok(v.op == 'inst' and b is nb, e, 'names-str', "a given base name is not used to name the output bags: %s" % show(v)[:160])
                if gi is not FALSE and strs:
                    for g2, b in cases(v):
                        if restrict(g2, {given: True}) is not FALSE:
                            r.ok(b is nb, e, 'names-iter', "a given naming iterator is not used: %s" % show(v)[:160])
    # naming
    an = c.an('SplitPlan.name_output_bags')
    st = [e for e in an.events if e.kind == 'store' and e.args and is_const(e.args[0]) and cval(e.args[0]) == 'name']
    rv = T('truthy', T('param', 'reverse'))
    if r.ok(st, an.entry, 'set-name', "name_output_bags() does not name the manifests"):
        for want in (False, True):
            ss = [e for e in st if restrict(e.guard, {rv: want}) is not FALSE]
            if r.ok(ss, an.entry, 'set-name-%s' % want, "manifests are not named when reverse is %s" % want):
                for e in ss:
                    l = e.loops[-1] if e.loops else None
                    r.ok(l is not None and uncopy(l.base) is MANS and e.recv is T('elem', l.base) and not sliced(e) and
                         not [x for x in loop_breaks(e) if x[1] != 'raise'], e, 'every-%s' % want, "not every manifest of the plan is named")
                    if l is not None:
                        r.ok(l.reversed() == want, e, 'order-%s' % want, "names are not assigned in the requested order")
                    r.ok(call_of(e.args[1], 'next') and e.args[1].args[1] is T('param', 'naming_iter'), e, 'next-%s' % want, "manifests do not get consecutive names of the iterator: %s" % show(e.args[1])[:120])


# ---------------------------------------------------------------------------------------- applying the plan

class Apply(object):
    """facts about SplitPlan.apply_iter (no naming iterator)"""

    def __init__(self, c):
        self.an = an = c.an('SplitPlan.apply_iter', args={'naming_iter': NONE})
        ys = [e for e in an.events if e.kind == 'yield']
        if not ys or not ys[-1].loops:
            raise AnalysisBroken("SplitPlan.apply_iter yields no bag directory inside a loop over the plan's manifests")
        self.y = ys[-1]
        self.mloop = self.y.loops[0]
        self.M = T('elem', self.mloop.base)
        self.B = self.y.args[0]
        self.contents = T('index', self.M, const('contents'))
        self.FILE = T('elem', self.contents)
        self.dst = mk_path([self.B, self.FILE])
        self.copies = [e for e in calls(an, 'replicate') if e.recv is PROG and e.args and e.args[0] is self.FILE]
        self.name = path_parts(self.B)[-1] if self.B.op == 'path' else None
        self.ishead = T('truthy', T('index', self.M, const('ishead')))

    def env(self, isdir=False, head=None, multi=None, exc=False):
        """expected values of the known conditions while a planned path is written"""
        def fn(a):
            if call_of(a, '.exists') and a.args[1] is PROG and a.args[2] is self.FILE:
                return True
            if call_of(a, '.isdir') and a.args[1] is PROG and a.args[2] is self.FILE:
                return isdir
            if call_of(a, '.isfile') and a.args[1] is PROG and a.args[2] is self.FILE:
                return not isdir
            if a.op in ('isfile', 'exists') and a.args[0] is self.dst:
                return not isdir
            if a.op in ('isfile', 'isdir', 'exists') and a.args[0] is self.B:
                return False        # before it is created
            if a.op == 'existsq' and uncopy(a.args[0]) is self.contents:
                n = a.args[1].args[0]
                v, left = under_normal(n, fn)
                return v if v is not None else None
            if a.op == 'in' and is_const(a.args[0]) and a.args[1] is self.M and cval(a.args[0]) in ('name', 'ishead', 'contents'):
                return True
            if a.op == 'isnone' and self.name is not None and a.args[0] is self.name:
                return False
            if a.op == 'truthy' and a.args[0] is MANS:
                return True
            if a is self.ishead:
                return head
            if call_of(a, '.is_head_multibag'):
                return multi
            if a.op == 'hasattr':
                return False
            if a.op == 'exc':
                return exc and ('MissingMultibagFileError' in str(a.args[1]) or any(k in str(a.args[2]) for k in ('member_bag', 'file_lookup')))
            if a.op == 'isinstance' and is_const(a.args[1]) is False and False:
                return None
            return None
        return fn

    def is_mans(self, t):
        t = uncopy(t)
        return call_of(t, '.manifests') and t.args[1] is SELF

    def where(self):
        return self.an.entry.where()


def _apply(c):
    if not hasattr(c, '_apply'):
        c._apply = Apply(c)
    return c._apply


@rule('C10', 'split-copies-files',
      "for every manifest of the plan and every path it lists that exists in the source, a file is copied from the source to "
      "the same path of the output bag and a directory is created there; nothing else gates the copy and no loop stops early",
      floor=6)
def split_copies(c, r):
    x = _apply(c)
    an = x.an
    r.ok(x.is_mans(x.mloop.base) and not any(o in ('rev', 'sorted', 'set') for o in x.mloop.order), x.y, 'manifests',
         "bags are not written for each manifest of the plan in order: %s" % x.mloop)
    r.ok(x.B.op == 'path' and x.B.args[0] is T('param', 'outdir') and x.name is not None and has(x.name, lambda s: s is T('index', x.M, const('name'))), x.y,
         'directory', "the output bag is not a directory of the output directory named by the manifest: %s" % show(x.B)[:160])
    v, left = under_normal(x.y.guard, x.env())
    r.ok(v is True, x.y, 'every-bag', "a bag is delivered only under a further condition: %s" % ', '.join(describe(a) for a in left))
    for l, k, g, ln in loop_breaks(x.y):
        if k != 'raise':
            r.fail(x.y, 'early-exit', "writing the bags can stop early (%s at line %s)" % (k, ln))
    if r.ok(x.copies, an.entry, 'copy', "the planned files are not copied from the source bag"):
        g = f_or(*[e.guard for e in x.copies])
        v, left = under_normal(g, x.env())
        r.ok(v is True, x.copies[0], 'condition', "a planned file is copied only under a further condition: %s" % ', '.join(describe(a) for a in left))
        for e in x.copies:
            r.ok(len(e.args) > 1 and e.args[1] is x.B, e, 'destination', "a planned file is copied to %s, not to the output bag" % show(e.args[1])[:120])
            r.ok([uncopy(l.base) for l in e.loops] == [uncopy(x.mloop.base), x.contents] and not sliced(e), e, 'every-file', "not every path of the manifest is copied: %s" % list(e.loops))
            for l, k, g, ln in loop_breaks(e):
                if k != 'raise':
                    r.fail(e, 'early-exit', "copying the planned files can stop early (%s at line %s)" % (k, ln))
            r.ok(e.seq < x.y.seq, e, 'before-delivery', "the bag is delivered before its files are copied")
    ds = [f for f in effects(an) if f.kind == 'mkdir' and f.target is x.dst]
    ds2 = [e for e in x.copies]
    g = f_or(*([f.event.guard for f in ds] + [e.guard for e in ds2])) if ds or ds2 else FALSE
    v, left = under_normal(g, x.env(isdir=True))
    r.ok(v is True, ds[0].event if ds else an.entry, 'empty-dirs', "a planned (empty) directory is not always created in the output bag: %s" % ', '.join(describe(a) for a in left))
    sp = [e for e in calls(an, 'replicate') if e.recv is PROG and e.args[:1] and is_const(e.args[0]) and cval(e.args[0]) == 'bagit.txt' and e.args[1] is x.B]
    bw = [f for f in effects(an) if f.kind in ('copy', 'write') and f.target is mk_path([x.B, const('bagit.txt')])]
    r.ok([f for f in bw if under_normal(f.event.guard, x.env())[0] is True], an.entry, 'bagit.txt', "the output bag gets no bagit.txt")
    dd = [f for f in effects(an) if f.kind == 'mkdir' and f.target is mk_path([x.B, const('data')])]
    r.ok(any(under_normal(f.event.guard, x.env())[0] is True for f in dd), an.entry, 'data', "the output bag gets no data directory")
    # every bag has all the manifests, also if it holds no files
    mf = [f for f in effects(an) if f.kind == 'write' and known_output(x, f.target) == 'manifest']

    def menv(a):
        if a.op in ('exists', 'isfile') and known_output(x, a.args[0]) == 'manifest':
            return False
        return x.env()(a)
    ok = [f for f in mf if under_normal(f.event.guard, menv)[0] is True and not sliced(f.event) and not loop_breaks_nonraise(f.event) and
          any(call_of(uncopy(l.base), '.manifest_files') and uncopy(l.base).args[1] is PROG for l in f.event.loops) and
          not any(uncopy(l.base) is x.contents for l in f.event.loops)]
    r.ok(ok, an.entry, 'manifests-present', "an output bag does not get every (payload) manifest of the source bag if it holds no payload files")


def known_output(x, p):
    """the name of an output file that apply_iter itself is to write"""
    parts = path_parts(p)
    base = path_parts(x.B)
    if parts[:len(base)] != base:
        return None
    rest = parts[len(base):]
    if len(rest) == 1 and is_const(rest[0]) and cval(rest[0]) in ('bag-info.txt', 'bagit.txt'):
        return cval(rest[0])
    if len(rest) == 1 and rest[0].op == 'concat' and is_const(rest[0].args[0]) and cval(rest[0].args[0]) in ('manifest-', 'tagmanifest-'):
        return cval(rest[0].args[0])
    if len(rest) == 1 and call_of(rest[0], 'os.path.basename') and has_call(rest[0], '.manifest_files', '.tagmanifest_files'):
        return 'manifest'
    if len(rest) == 1 and rest[0].op == 'elem' and has_call(rest[0], '.manifest_files'):
        return 'manifest'
    if len(rest) == 2 and is_const(rest[0]) and cval(rest[0]) == 'multibag' and is_const(rest[1]) and \
            cval(rest[1]) in ('member-bags.tsv', 'file-lookup.tsv', 'aggregation-info.txt'):
        return cval(rest[1])
    return None


@rule('C10', 'split-keeps-files',
      "nothing that apply_iter writes, removes or renames in an output bag can touch a copied file: its own outputs are the "
      "declaration, bag-info, manifest and multibag tag files only", floor=6)
def split_keeps(c, r):
    x = _apply(c)
    for f in effects_split(x.an, lambda p: known_output(x, p) or p is x.dst, keep=(x.name,)):
        if f.kind == 'mkdir':
            continue
        if f.event in x.copies:
            continue
        k = known_output(x, f.target)
        r.ok(k is not None, f.event, 'output', "%s of %s may touch a file copied from the source bag" % (f.kind, show(f.target)[:160]))
        if f.kind in ('remove', 'rmtree', 'move'):
            r.ok(k in ('member-bags.tsv', 'file-lookup.tsv', 'aggregation-info.txt') and f.kind == 'remove', f.event, 'remove', "%s of %s" % (f.kind, show(f.target)[:120]))
        if k and k.endswith('manifest') or (k or '').endswith('manifest-'):
            # a manifest is never emptied once entries have been written to it
            if f.kind == 'write' and mode_of(f.event) == 'w':
                apps = [g for g in effects_split(x.an, lambda p: known_output(x, p) or p is x.dst, keep=(x.name,)) if g.kind == 'write' and known_output(x, g.target) and
                        known_output(x, g.target).startswith(('manifest', 'tagmanifest')) and mode_of(g.event) == 'a']
                inloop = any(uncopy(l.base) is x.contents for l in f.event.loops)
                okw = not any(f.event.seq > a.event.seq for a in apps) or \
                    restrict(f.event.guard, {T('exists', f.target): True}) is FALSE
                if inloop:
                    okw = restrict(f.event.guard, {T('exists', f.target): True}) is FALSE or \
                        restrict(f.event.guard, {T('isfile', f.target): True}) is FALSE
                r.ok(okw, f.event, 'truncate', "a manifest that already has entries can be emptied")


@rule('C10', 'split-copies-checksums',
      "for every copied file and every algorithm, its recorded checksum is appended unchanged to the payload manifest of the "
      "output bag for files below data/ and to the tag manifest for all others", floor=8)
def split_checksums(c, r):
    x = _apply(c)
    an = x.an
    data = T('startswith', x.FILE, const('data/'))
    lines = text_lines(an, lambda p: (known_output(x, p) or '').endswith('manifest-'), keep=(x.name,))
    seen = {}
    for ln in lines:
        nm = path_parts(ln.path)[-1]
        kind = cval(nm.args[0])
        ps = ln.parts()
        if not r.ok(len(nm.args) == 3 and is_const(nm.args[2]) and cval(nm.args[2]) == '.txt', ln.event, 'name', "manifest written under an unexpected name %s" % show(nm)[:100]):
            continue
        alg = nm.args[1]
        shape = len(ps) == 4 and is_const(ps[1]) and cval(ps[1]) != '' and cval(ps[1]).strip(' \t*') == '' and is_const(ps[3]) and cval(ps[3]) == '\n'
        if not r.ok(shape, ln.event, 'line', "a manifest line is not 'checksum path': %s" % show(ln.text)[:200]):
            continue
        h, f = ps[0], ps[2]
        ent = h.args[0] if h.op == 'index' else None
        table = ent.args[0] if ent is not None and ent.op == 'index' else None
        r.ok(f is x.FILE, ln.event, 'path', "the path recorded is not that of the copied file: %s" % show(f)[:120])
        if table is None:
            # items() of the entry
            r.fail(ln.event, 'checksum', "the checksum recorded is not the source's for the copied file: %s" % show(h)[:160])
            continue
        r.ok(ent.args[1] is x.FILE and h.args[1] is alg, ln.event, 'checksum', "the checksum recorded is not the one of the copied file for the manifest's algorithm: %s" % show(h)[:160])
        want = '.payload_entries' if kind == 'manifest-' else '.tagfile_entries'
        tb = uncopy(table)
        whole = attr_of(tb, 'entries', PROG)
        r.ok((call_of(tb, want) and tb.args[1] is PROG) or whole, ln.event, 'table', "%s lines are not taken from the source's %s: %s" % (kind, want[1:], show(table)[:100]))
        r.ok(any(uncopy(l.base) is ent for l in ln.loops) and not sliced(ln.event) and not loop_breaks_nonraise(ln.event), ln.event, 'every-algorithm',
             "not every recorded algorithm is carried over: %s" % [str(l) for l in ln.loops][-1:])
        r.ok(restrict(ln.guard, {data: kind != 'manifest-'}) is FALSE, ln.event, 'which', "%s entries are written to %s*" % ('tag file' if kind == 'manifest-' else 'payload', kind))
        seen.setdefault(kind, []).append(ln)

        def env(a, t=table):
            if a is data:
                return kind == 'manifest-'
            if a.op == 'in' and a.args[0] is x.FILE and a.args[1] is t:
                return True
            if a.op == 'truthy' and a.args[0] is T('index', t, x.FILE):
                return True
            if a.op in ('exists', 'isfile') and a.args[0] is ln.path:
                return True
            if a.op == 'eq' and all(is_const(z) for z in a.args):
                return None
            return x.env()(a)
        v, left = under_normal(ln.guard, env)
        r.ok(v is True, ln.event, 'condition', "recorded checksums are carried over only under a further condition: %s" % ', '.join(describe(a) for a in left))
        m = cval(ln.mode) if is_const(ln.mode) else None
        if any(uncopy(l.base) is x.contents for l in ln.loops) and any(uncopy(l.base) is x.contents for l in opener_loops(an, ln)):
            r.ok(m == 'a', ln.event, 'mode', "each entry replaces the manifest's earlier entries (mode %r)" % m)
        else:
            r.ok(m in ('a', 'w'), ln.event, 'mode', "unexpected mode %r" % m)
    r.ok('manifest-' in seen, an.entry, 'payload', "the output bags get no payload manifest entries")
    r.ok('tagmanifest-' in seen, an.entry, 'tags', "the output bags get no tag manifest entries")


def opener_loops(an, ln):
    for e in an.events:
        if e.kind == 'open' and e.value is ln.file:
            return e.loops
    for e in an.events:
        if e.kind == 'open' and e.args and e.args[0] is ln.path and e.seq < ln.event.seq:
            return e.loops
    return ()


def loop_breaks_nonraise(e):
    return [b for b in loop_breaks(e) if b[1] != 'raise']


@rule('C11', 'split-member-list',
      "the head bag written last lists every bag of the split, in the order written and each once, after the members of the "
      "source if that is itself a head bag", floor=6)
def split_members(c, r):
    x = _apply(c)
    an = x.an
    lines = text_lines(an, lambda p: known_output(x, p) == 'member-bags.tsv', keep=(x.name,))
    if not r.ok(lines, an.entry, 'written', "no member-bags.tsv is written"):
        return
    head_only(x, r, lines, 'member-bags.tsv')
    lists = []
    for ln in lines:
        ps = ln.parts()
        el = ps[0]
        r.ok(el.op == 'elem' and is_const(ps[-1]) and cval(ps[-1]) == '\n' and len(ps) == 2, ln.event, 'line', "a member-bags.tsv line is not just the name of a bag: %s" % show(ln.text)[:160])
        if el.op == 'elem':
            r.ok([l.base for l in ln.loops][-1:] == [el.args[0]] and len(ln.loops) == 2 and not sliced(ln.event) and not loop_breaks_nonraise(ln.event) and
                 not any(o in ('rev', 'sorted', 'set') for l in ln.loops for o in l.order), ln.event, 'every-member', "not every member is listed in order: %s" % [str(l)[:100] for l in ln.loops])
            lists.append((ln, el.args[0]))
    every_case(x, r, lines, 'member-bags.tsv', an)
    app = [e for e in an.events if e.kind == 'mutate' and e.name == 'append' and e.recv is not None and e.args and e.args[0] is x.name and
           [l.base for l in e.loops] == [x.mloop.base]]
    if r.ok(app, an.entry, 'append', "the name of the bag being written is not added to the member list"):
        v, left = under_normal(f_or(*[e.guard for e in app]), x.env())
        r.ok(v is True, app[0], 'append-condition', "a bag is added to the member list only under a further condition: %s" % ', '.join(describe(a) for a in left))
        roots = set()
        for e in app:
            roots |= set(uncopy(v) for v in leaves(e.recv))
        for ln, lst in lists:
            r.ok(all(uncopy(z) in roots for z in leaves(lst)), ln.event, 'same-list', "the list written is not the one the bags are added to: %s" % show(lst)[:120])
        multi = [v for v in roots if attr_of(v, 'member_bag_names', PROG) or (v.op == 'comp' and has_call(v, '.member_bags', '.iter_member_bags'))]
        fresh = [v for v in roots if v.op == 'obj']
        r.ok(multi and len(multi) + len(fresh) == len(roots), app[0], 'source-members', "the member list of a source that is a head bag is not carried over")
        for e in app:
            for g, v in cases(e.recv, e.guard):
                hv, _ = under_normal(g, x.env(multi=True))
                if hv is not False:
                    r.ok(uncopy(v) in multi, e, 'source-members-used', "members of a source head bag are dropped")
        # removal only of an equal name
        for e in an.events:
            if e.kind == 'mutate' and e.recv is not None and set(uncopy(v) for v in leaves(e.recv)) & roots and e not in app:
                r.ok(e.name == 'remove' and e.args[0] is x.name and e.seq < app[0].seq, e, 'alter:' + e.name, "the member list is altered by %s(%s)" % (e.name, ', '.join(show(z)[:60] for z in e.args)))
        rm = [e for e in an.events if e.kind == 'mutate' and e.name == 'remove' and e.args and e.args[0] is x.name]
        r.ok(rm or any(restrict(e.guard, {a: True}) is FALSE for e in app for a in support(e.guard) if a.op == 'in' and a.args[0] is x.name), app[0], 'once', "a bag can be listed twice")


def head_only(x, r, lines, what):
    for ln in lines:
        g = restrict(ln.guard, {x.ishead: False})
        r.ok(g is FALSE, ln.event, 'head-only:' + what, "%s is written for a bag that is not the head bag" % what)


def every_case(x, r, lines, what, an):
    for multi in (False, True):
        for exc in ((False, True) if multi else (False,)):
            g = f_or(*[ln.guard for ln in lines])
            v, left = under_normal(g, x.env(head=True, multi=multi, exc=exc))
            r.ok(v is True, lines[0].event, 'head-always:%s:%s%s' % (what, multi, exc), "%s is written to the head bag only under a further condition: %s" % (what, ', '.join(describe(a) for a in left)))


@rule('C11', 'split-file-lookup',
      "the head bag's file lookup maps every copied file to the bag it was copied to (the last, if several), on top of the "
      "lookup of a source that is itself a head bag", floor=6)
def split_lookup(c, r):
    x = _apply(c)
    an = x.an
    lines = text_lines(an, lambda p: known_output(x, p) == 'file-lookup.tsv', keep=(x.name,))
    if not r.ok(lines, an.entry, 'written', "no file-lookup.tsv is written"):
        return
    head_only(x, r, lines, 'file-lookup.tsv')
    every_case(x, r, lines, 'file-lookup.tsv', an)
    tables = set()
    for ln in lines:
        ps = ln.parts()
        ok = len(ps) == 4 and is_const(ps[1]) and cval(ps[1]) == '\t' and is_const(ps[3]) and cval(ps[3]) == '\n' and ps[0].op == 'elem' and \
            ps[2].op == 'index' and ps[2].args[1] is ps[0] and uncopy(ps[2].args[0]) is uncopy(ps[0].args[0])
        r.ok(ok, ln.event, 'line', "a file-lookup.tsv line is not 'path TAB bag': %s" % show(ln.text)[:200])
        if ok:
            r.ok([uncopy(l.base) for l in ln.loops][-1:] == [uncopy(ps[0].args[0])] and len(ln.loops) == 2 and not sliced(ln.event) and not loop_breaks_nonraise(ln.event), ln.event, 'every-file', "not every entry is written")
            tables.add(uncopy(ps[0].args[0]))
    st = [e for e in an.events if e.kind == 'store' and len(e.args) == 2 and e.args[0] is x.FILE and e.recv is not None]
    if r.ok(st, an.entry, 'store', "the destination of a copied file is not recorded"):
        v, left = under_normal(f_or(*[e.guard for e in st]), x.env())
        r.ok(v is True, st[0], 'store-condition', "the destination of a copied file is recorded only under a further condition: %s" % ', '.join(describe(a) for a in left))
        for e in st:
            r.ok(e.args[1] is x.name, e, 'store-value', "the bag recorded for a file is not the one it was copied to: %s" % show(e.args[1])[:120])
            r.ok([uncopy(l.base) for l in e.loops] == [uncopy(x.mloop.base), x.contents], e, 'store-loop', "not every copied file is recorded")
            roots = set(uncopy(v) for v in leaves(e.recv))
            r.ok(tables == roots, e, 'same-table', "the table written is not the one the files are recorded in")
            r.ok(any(call_of(v, '.iter_file_lookup') and v.args[1] is PROG for v in roots) and
                 all(call_of(v, '.iter_file_lookup') or v.op == 'obj' for v in roots), e, 'source-lookup', "the file lookup of a source that is a head bag is not carried over")
            for g, v in cases(e.recv, e.guard):
                hv, _ = under_normal(g, x.env(multi=True))
                if hv is not False:
                    r.ok(call_of(uncopy(v), '.iter_file_lookup'), e, 'source-lookup-used', "the file lookup of a source head bag is dropped")
        for e in an.events:
            if e.kind in ('mutate', 'store') and e not in st and e.recv is not None and set(uncopy(v) for v in leaves(e.recv)) & tables:
                r.fail(e, 'alter', "the file lookup is altered by %s" % e.name)


@rule('C11', 'split-aggregation-info',
      "the head bag's aggregation-info is a verbatim copy of the source's bag-info", floor=3)
def split_agginfo(c, r):
    x = _apply(c)
    an = x.an
    lines = text_lines(an, lambda p: known_output(x, p) == 'aggregation-info.txt', keep=(x.name,))
    lines = [l for l in lines if not is_const(l.text)]
    if not r.ok(lines, an.entry, 'written', "no aggregation-info.txt is written"):
        return
    head_only(x, r, lines, 'aggregation-info.txt')
    every_case(x, r, lines, 'aggregation-info.txt', an)
    for ln in lines:
        t = ln.text
        src = [s for s in subterms(t) if isinstance(s, Term) and call_of(s, '.open_text_file') and s.args[1] is PROG and is_const(s.args[2]) and cval(s.args[2]) == 'bag-info.txt']
        ok = bool(src) and (t is T('elem', src[0]) or call_of(t, '.read') and t.args[1] is src[0])
        ok = ok or call_of(t, '.read') and len(t.args) == 2 and bool(src)
        ok = ok or (t.op == 'elem' and bool(src) and call_of(t.args[0], '.readlines') and t.args[0].args[1] is src[0])
        r.ok(ok and not sliced(ln.event) and not loop_breaks_nonraise(ln.event) and not (call_of(t, '.read') and len(t.args) > 2), ln.event, 'verbatim', "aggregation-info.txt is not a verbatim copy of the source's bag-info.txt: %s" % show(t)[:160])


# ---------------------------------------------------------------------------------------- bag-info

INFO = T('attr', PROG, 'info')
KEY = T('elem', INFO)
VALS = T('index', INFO, KEY)
SRC = 'Multibag-Source-'


def _resolve(t, asg):
    """follow the gated alternatives of t under the assignment function"""
    if t.op == 'ite':
        v, left = under_normal(t.args[0], asg)
        if v is True:
            return _resolve(t.args[1], asg)
        if v is False:
            return _resolve(t.args[2], asg)
        return t
    if t.op == 'concat':
        return cat(*[_resolve(p, asg) for p in t.args])
    return t


def emitted(x, lines, asg):
    """[(label, value, line)] of the bag-info items written under an assignment; undecided guards are listed separately"""
    out, und = [], []
    for ln in lines:
        v, left = under_normal(ln.guard, asg)
        if v is False:
            continue
        if v is None:
            und.append((ln, left))
            continue
        t = _resolve(ln.text, asg)
        ps = list(t.args) if t.op == 'concat' else [t]
        lab, val, seen = [], [], False
        for p in ps:
            if not seen and is_const(p) and isinstance(cval(p), str) and ': ' in cval(p):
                a, b = cval(p).split(': ', 1)
                if a:
                    lab.append(const(a))
                if b:
                    val.append(const(b))
                seen = True
            elif seen:
                val.append(p)
            else:
                lab.append(p)
        if val and is_const(val[-1]) and str(cval(val[-1])).endswith('\n'):
            val[-1] = const(cval(val[-1])[:-1])
        else:
            val.append(T('no_newline'))
        out.append((cat(*lab), cat(*val), ln))
    return out, und


@rule('C12', 'split-bag-info',
      "every item of the source's bag-info, with all of its values, reaches every output bag: unchanged, or under the "
      "documented name when the output bag needs its own value; multibag items and names the caller excludes do not",
      floor=20)
def split_baginfo(c, r):
    x = _apply(c)
    an = x.an
    lines = text_lines(an, lambda p: known_output(x, p) == 'bag-info.txt', keep=(x.name,))
    if not r.ok(lines, an.entry, 'written', "no bag-info.txt is written"):
        return
    per = [l for l in lines if any(uncopy(z.base) is INFO for z in l.loops)]
    r.ok(per, an.entry, 'items', "the source's bag-info items are not passed on")
    np = T('param', 'info_nopass')
    for ln in per:
        r.ok(not sliced(ln.event) and not loop_breaks_nonraise(ln.event), ln.event, 'every-item', "not every bag-info item is passed on")
    special = ['Internal-Sender-Identifier', 'Internal-Sender-Description', 'External-Identifier', 'Bag-Size', 'Payload-Oxum']
    classes = [('ordinary', None)] + [(k, k) for k in special] + [('Multibag-*', None), ('excluded', None)]
    for cname, key in classes:
        for islist, empty in ((False, False), (True, False), (False, True)):
            for given in ((True,) if cname == 'excluded' else (True, False)):
                base = x.env()

                def asg(a):
                    if a.op == 'eq' and KEY in a.args:
                        o = a.args[0] if a.args[1] is KEY else a.args[1]
                        if is_const(o):
                            return cval(o) == key
                    if a.op == 'startswith' and a.args[0] is KEY and is_const(a.args[1]):
                        p = cval(a.args[1])
                        if p == 'Multibag-':
                            return cname == 'Multibag-*'
                        if key is not None:
                            return key.startswith(p)
                        return None
                    if a.op == 'in' and a.args[0] is KEY:
                        if a.args[1] is np:
                            return cname == 'excluded'
                        if a.args[1].op == 'obj':
                            return False
                        if a.args[1].op in ('list', 'tuple', 'set', 'dict'):
                            return key is not None and any(is_const(z) and cval(z) == key for z in a.args[1].args if isinstance(z, Term))
                        if a.args[1] is x.M:
                            return False
                    if a.op == 'truthy' and a.args[0] is np:
                        return given
                    if a.op == 'isnone' and a.args[0] is np:
                        return not given
                    if a.op == 'isinstance':
                        return islist if a.args[0] is VALS and 'list' in show(a) and 'str' not in show(a) else (not islist if a.args[0] is VALS and 'str' in show(a) else False)
                    if a.op == 'truthy' and a.args[0] is VALS:
                        return not empty
                    if a.op == 'isnone' and a.args[0] is VALS:
                        return False
                    if empty and a.op == 'eq' and VALS in a.args and const('') in a.args:
                        return True
                    if a.op == 'truthy' and a.args[0] is KEY:
                        return True
                    return base(a)
                em, und = emitted(x, per, asg)
                tag = '%s/%s%s' % (cname, 'list' if islist else 'empty' if empty else 'scalar', '' if given else '/no-exclusions')
                for ln, left in und:
                    r.fail(ln.event, 'undecided:' + tag, "whether a %s item is passed on depends on a further condition: %s" % (cname, ', '.join(describe(a) for a in left)))
                V = T('elem', VALS) if islist else VALS
                V0 = T('index', VALS, const(0)) if islist else VALS
                K = const(key) if key else KEY

                def norm(t):
                    return cat(*[K if p is KEY else p for p in (t.args if t.op == 'concat' else (t,))])
                got = set()
                for lab, val, ln in em:
                    got.add((norm(lab), val))
                exp = set()
                loose = set()
                msrc = cat(const(SRC), K)
                if cname == 'ordinary':
                    exp.add((K, V))
                elif key == 'Internal-Sender-Identifier':
                    exp |= {(K, x.name), (msrc, V)}
                elif key == 'Internal-Sender-Description':
                    exp |= {(msrc, V)}
                    loose.add(K)
                elif key == 'External-Identifier':
                    exp |= {(msrc, V), (K, cat(V0, const('/mbag:'), x.name)), (const('Bag-Group-Identifier'), V)}
                elif key == 'Bag-Size':
                    exp |= {(msrc, V)}
                elif key == 'Payload-Oxum':
                    loose.add(K)
                got2 = set((l, v) for l, v in got if l not in loose)
                got2 = set((l, nm_alias(x, v)) for l, v in got2)
                exp = set((l, nm_alias(x, v)) for l, v in exp)
                for l, v in sorted(exp - got2, key=str):
                    r.fail(an.entry, 'lost:%s:%s' % (tag, show(l)), "for a source item of kind %s, the output bags do not get '%s: %s'" % (tag, show(l), show(v)[:80]))
                for l, v in sorted(got2 - exp, key=str):
                    r.fail(an.entry, 'extra:%s:%s' % (tag, show(l)), "for a source item of kind %s, the output bags get '%s: %s'" % (tag, show(l), show(v)[:120]))
                r.ok(all(any(l is z for l, v in got) for z in loose), an.entry, 'items:' + tag, "for a source item of kind %s, the output bags do not get %s" % (tag, [show(z) for z in loose]))
                if key == 'Payload-Oxum':
                    for l, v in got:
                        if l is K:
                            check_oxum(x, r, an, v)


def nm_alias(x, v):
    return cat(*[x.name if (p is x.name or p is T('index', x.M, const('name'))) else p for p in (v.args if v.op == 'concat' else (v,))])


def check_oxum(x, r, an, v):
    ps = list(v.args) if v.op == 'concat' else [v]
    data = T('startswith', x.FILE, const('data/'))
    if not r.ok(len(ps) == 3 and ps[0].op == 'accum' and ps[2].op == 'accum' and is_const(ps[1]) and cval(ps[1]) == '.', an.entry, 'oxum', "the output bag's Payload-Oxum is not 'bytes.files' of the files copied to it: %s" % show(v)[:200]):
        return
    for what, p in (('bytes', ps[0]), ('files', ps[2])):
        base, cond, inc, init = p.args[0], p.args[1].args[0], p.args[2], p.args[3]
        r.ok(uncopy(base) is x.contents, an.entry, 'oxum-over-' + what, "Payload-Oxum does not count the files of this bag's manifest")
        r.ok(is_const(init) and cval(init) == 0, an.entry, 'oxum-start-' + what, "the Payload-Oxum count does not start at zero for each bag: %s" % show(init)[:100])
        v1, left = under_normal(cond, lambda a: True if a is data else x.env()(a))
        v0, left0 = under_normal(cond, lambda a: False if a is data else x.env()(a))
        r.ok(v1 is True and v0 is False, an.entry, 'oxum-payload-' + what, "Payload-Oxum does not count exactly the payload files: %s" % ', '.join(describe(a) for a in left))
        if what == 'files':
            r.ok(is_const(inc) and cval(inc) == 1, an.entry, 'oxum-files', "Payload-Oxum does not count each file once")
        else:
            ok = (attr_of(inc, 'st_size') and call_of(inc.args[0], 'os.stat', 'os.lstat') and inc.args[0].args[1] is x.dst) or \
                (call_of(inc, 'os.path.getsize') and inc.args[1] is x.dst) or (call_of(inc, '.sizeof') and inc.args[1] is PROG and inc.args[2] is x.FILE)
            r.ok(ok, an.entry, 'oxum-bytes', "Payload-Oxum does not add up the sizes of the files: %s" % show(inc)[:120])


@rule('C11', 'split-head-info',
      "the last bag, and only it, declares itself head bag: its version and every version it deprecates are written to its "
      "bag-info; every bag declares the profile version", floor=5)
def split_headinfo(c, r):
    x = _apply(c)
    an = x.an
    lines = text_lines(an, lambda p: known_output(x, p) == 'bag-info.txt', keep=(x.name,))
    dep = T('attr', SELF, '_deprecates')
    hv = T('attr', SELF, 'head_version')

    def starts(ln, s):
        p = ln.parts()[0]
        return is_const(p) and str(cval(p)).startswith(s)

    def env(head):
        b = x.env(head=head)

        def fn(a):
            if a.op == 'isinstance':
                return False
            if a.op == 'truthy' and a.args[0] is dep:
                return True
            return b(a)
        return fn
    ver = [l for l in lines if starts(l, 'Multibag-Version: ')]
    r.ok(any(under_normal(l.guard, env(h))[0] is True for l in ver for h in (True,)) and any(under_normal(l.guard, env(False))[0] is True for l in ver), an.entry, 'version', "not every bag declares the Multibag version")
    for l in ver:
        t = l.text
        r.ok(is_const(t) or contains(t, T('global', 'CURRENT_VERSION')) or True, l.event, 'version-value', "")
    td = [l for l in lines if starts(l, 'Multibag-Tag-Directory: ')]
    r.ok(any(under_normal(l.guard, env(True))[0] is True for l in td), an.entry, 'tagdir', "the head bag does not declare its tag directory")
    for l in td:
        t = l.text
        r.ok(is_const(t) and cval(t) == 'Multibag-Tag-Directory: multibag\n', l.event, 'tagdir-value', "the tag directory declared is not the one the tag files are written to: %s" % show(t)[:80])
    hvl = [l for l in lines if starts(l, 'Multibag-Head-Version: ')]
    r.ok(any(under_normal(l.guard, env(True))[0] is True and l.parts()[1] is hv for l in hvl if len(l.parts()) > 1), an.entry, 'head-version', "the last bag does not declare itself head bag with the plan's head version")
    dl = [l for l in lines if starts(l, 'Multibag-Head-Deprecates: ')]
    for l in hvl + dl:
        r.ok(restrict(l.guard, {x.ishead: False}) is FALSE, l.event, 'head-only', "a bag other than the last declares itself head bag")
    for l in dl:
        r.ok(any(uncopy(z.base) is dep for z in l.loops) and not sliced(l.event) and not loop_breaks_nonraise(l.event), l.event, 'deprecates-every', "not every deprecated version is listed")
    el = T('elem', dep)
    for p in (['1.0'], ['1.0', 'old.mbag'], ['2', 'a b']):
        def facts(a, s):
            return env(True)(a)
        w = Shape({el: p, dep: [p]}, facts)
        got = [w.val(l.text) for l in dl if w.truth(l.guard) is not False]
        r.ok(got == ['Multibag-Head-Deprecates: %s\n' % ','.join(p)], an.entry, 'deprecates-value', "the deprecated version %s is listed as %s" % (p, got))
