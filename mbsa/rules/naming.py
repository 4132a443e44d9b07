"""rules for naming the bags of a split (split)"""
from ..query import *
from ..shapes import Shape, UNKNOWN
from ..terms import TRUE, FALSE, NONE

BASES = (('/store/mybag', 'mybag'), ('/store/mybag/', 'mybag'), ('mybag', 'mybag'), ('mybag/', 'mybag'), ('./mybag', 'mybag'),
         ('../a/mybag//', 'mybag'), ('/store/mybag.zip', 'mybag'), ('/st.ore/mybag', 'mybag'), ('my_bag-2', 'my_bag-2'),
         ('/store/my bag', 'my bag'), ('.', 'here'), ('./', 'here'), ('../', 'work'), ('/store/mybag/.', 'mybag'),
         ('/store/my.bag.zip', 'my.bag'))


@rule('C14', 'default-base-name',
      "without a base name the bags are named after the source bag, however its location is written", floor=10)
def default_base(c, r):
    an = c.an('Splitter.plan')
    no = calls(an, 'name_output_bags')
    bp, nb = T('param', 'bagpath'), T('param', 'namebasis')
    for loc, want in BASES:
        for nbv in (None, ''):
            sh = Shape({bp: loc, nb: nbv})
            got = []
            for e in no:
                if sh.truth(e.guard) is False:
                    continue
                v = e.args[0] if e.args else e.kw.get('naming_iter')
                for g, x in cases(v):
                    if sh.truth(g) is False:
                        continue
                    got.append(sh.val(x.args[1]) if x.op == 'inst' and len(x.args) > 1 and x.args[0] == 'SimpleNamer' else UNKNOWN)
            r.ok(got == [want], no[0] if no else an.entry, 'default name for %r' % loc,
                 "bags split from %s are not named after it: base name %r" % (loc, got))
    # a name given
    for e in no:
        rev = e.args[1] if len(e.args) > 1 else e.kw.get('reverse')
        r.ok(rev is None or is_const(rev) and not cval(rev), e, 'order', "plan() does not give the names out in the order of the bags")


@rule('C14', 'name-sequence',
      "the default names are <base>_1.mbag, <base>_2.mbag, ...: the number goes up by one with every name", floor=6)
def sequence(c, r):
    S = T('self', 'SimpleNamer')
    ian = c.an('SimpleNamer.__init__')
    base = [e for e in ian.events if e.kind == 'setattr' and e.args[0] is T('param', 'base')]
    for m in ('__next__', 'next'):
        an = c.an('SimpleNamer.' + m, inline=['SimpleNamer.__next__', 'SimpleNamer.next'])
        v = an.retval()
        sets = [e for e in an.events if e.kind == 'setattr' and e.recv is S]
        r.ok(not raises(an), an.entry, m + ' raises', "the default names can run out")
        if not r.ok(base, ian.entry, 'base', "the base name is not kept"):
            return
        B = T('attr', S, base[0].name)
        for n, b in ((0, 'base'), (1, 'base'), (9, 'base'), (99, 'base'), (255, 'base'), (999, 'base'), (1023, 'base'), (9999, 'base'), (1000000, 'base'), (0, '_my.Bag_ '), (0, ' My_Bag-_'), (2, 'a-1_2.mbag'), (0, u'd\xe4ta/%s{0}')):
            env = {B: b}
            # the counter: the attribute that every call changes
            cnt = None
            for e in sets:
                A = T('attr', S, e.name)
                init = [i.args[0] for i in ian.events if i.kind == 'setattr' and i.name == e.name]
                if len(init) == 1 and is_const(init[0]) and isinstance(cval(init[0]), int) and e.guard is TRUE:
                    env[A] = cval(init[0]) + n
                    v0 = e.args[0]
                    r.ok(v0.op == 'add' and set(v0.args) == {A, const(1)} or v0.op == 'sub' and v0.args == (A, const(-1)), e, m + ' step', "the number does not go up by one with every name")
                    cnt = A
            if not r.ok(cnt is not None, an.entry, m + ' counter', "no number is counted up with every name"):
                break
            txt = Shape(env, None, lambda t, s: str(s.val(t.args[0])) if t.op == 'str' and s.val(t.args[0]) is not UNKNOWN else UNKNOWN)
            got = text_of(txt, v)
            want = b + '_%d.mbag' % (n + 1)
            r.ok(got == want, an.entry, m + ' name %d' % (n + 1), "name number %d is not %s but %r (%s)" % (n + 1, want, got, show(v)[:100]))


def text_of(sh, v):
    parts = v.args if v.op == 'concat' else [v]
    out = ''
    for p in parts:
        x = sh.val(p)
        if x is UNKNOWN:
            return UNKNOWN
        out += str(x)
    return out


@rule('C14', 'names-exhausted',
      "when a naming iterator has fewer names than there are bags, naming the bags of a plan fails with an error", floor=1)
def exhausted(c, r):
    an = c.an('SplitPlan.name_output_bags')
    rs = [e for e in raises(an) if e.name == 'RuntimeError']
    N = normal_guard(an)
    ex = [a for a in support(N) if a.op == 'exc']
    nx = calls(an, 'next')
    r.ok(rs or not any(e.tries for e in nx), an.entry, 'error', "running out of names is not reported as a RuntimeError")
    for a in ex:
        left = assign(restrict(N, {a: True}), lambda x: True if x.op == 'truthy' and x.args[0] is T('attr', T('self', 'SplitPlan'), '_manifests') else None)
        r.ok(left is FALSE, an.entry, 'swallowed', "running out of names is not reported: naming ends normally with bags left unnamed")
    for e in nx:
        r.ok(len(e.args) == 1, e, 'default', "a default name is used when the names run out")


@rule('C14', 'names-given',
      "naming the bags of a plan gives every one of them the next name of the iterator, named before or not: in plan order, or from "
      "the last to the first when that is asked for", floor=6)
def given(c, r):
    an = c.an('SplitPlan.name_output_bags')
    MF = T('attr', T('self', 'SplitPlan'), '_manifests')
    rev = T('param', 'reverse')
    NI = T('param', 'naming_iter')

    def ours(b):
        b = uncopy(b)
        return b is MF or call_of(b, '.manifests') and b.args[1] is T('self', 'SplitPlan')
    st = [e for e in an.events if e.kind == 'store' and e.name == '[]' and e.args[0] is const('name')]
    nx = [e for e in an.events if e.kind == 'call' and e.name == 'next' and e.args and uncopy(e.args[0]) is NI]
    for back in (False, True):
        way = 'reversed' if back else 'in order'

        def fact(a, back=back):
            if a.op == 'exc':
                return False
            if a.op == 'truthy' and a.args[0] is rev:
                return back
            if a.op in ('truthy', 'in') and ours(a.args[0]):
                return True
            return None
        for what, evs in (('name', st), ('next', nx)):
            live = [(e, assign(e.guard, fact)) for e in evs]
            live = [(e, g) for e, g in live if g is not FALSE]
            if what == 'next' and not evs:
                continue        # the names are taken by a loop over the iterator
            if not r.ok(len(live) == 1, live[0][0] if live else an.entry, what + ' ' + way,
                        "the bags are not each given the next name of the iterator (%d places do so, %s)" % (len(live), way)):
                continue
            e, g = live[0]
            r.ok(g is TRUE, e, what + ' every ' + way, "only some bags of the plan are given a name: if %s" % fshow(g)[:120])
            ls = [l for l in e.loops if ours(l.base)]
            if r.ok(len(ls) == 1 and len(e.loops) == 1, e, what + ' loop ' + way, "names are given to %s, not to the bags of the plan" % [show(l.base)[:80] for l in e.loops]):
                l = ls[0]
                odd = [o for o in l.order if o not in ('rev', 'list', 'tuple', 'enumerate', 'iter')]
                r.ok(not [b for b in loop_breaks(e) if b[1] != 'raise'] and not sliced(e) and not [o for o in odd if o in ('sorted', 'set')], e, what + ' all ' + way, "some bags are passed over, or their order is changed")
                if what == 'name':
                    r.ok(l.reversed() == back, e, 'order ' + way, "the names are not given out %s" % ('from the last bag to the first when asked' if back else 'in the order of the bags'))
                    v = [x for cg, x in cases(e.args[1]) if assign(cg, fact) is not FALSE]
                    r.ok(e.recv is T('elem', l.base) or uncopy(e.recv) is T('elem', uncopy(l.base)), e, 'bag ' + way, "the name is not set in the bag's own manifest")
                    ok = len(v) == 1 and (call_of(v[0], 'next') and uncopy(v[0].args[1]) is NI or v[0].op == 'elem' and uncopy(v[0].args[0]) is NI)
                    r.ok(ok, e, 'value ' + way, "the name set is not the next one of the iterator: %s" % [show(x)[:80] for x in v])


@rule('C14', 'names-used',
      "a split bag is written to <output directory>/<name> and listed under that same name, where the name is the next one of the "
      "naming iterator given, and otherwise (or once that has run out) the one set in the plan", floor=8)
def used(c, r):
    an = c.an('SplitPlan.apply_iter')
    out = T('param', 'outdir')
    MF = T('elem', T('call', '.manifests', T('self', 'SplitPlan')))
    mk = [f for f in effects(an) if f.kind == 'mkdir' and f.target.op == 'path' and len(f.target.args) == 2 and f.target.args[0] is out]
    if not mk:
        # made along with its data directory
        mk = [f for f in effects(an) if f.kind == 'mkdir' and f.event.name == 'os.makedirs' and f.target.op == 'path' and f.target.args[0] is out and
              len(f.target.args) == 3 and f.target.args[2] is const('data')]
    if not r.ok(len(mk) == 1, an.entry, 'bag-directory', "the bags are not written to directories of the output directory"):
        return
    N = mk[0].target.args[1]
    NI = T('param', 'naming_iter')

    def is_iter(t):
        return t is NI or t.op == 'phi' and t.args[-1] is NI

    def planned(t):
        return t is T('index', MF, const('name')) or call_of(t, '.get') and t.args[1] is MF and t.args[2] is const('name')
    for given in (True, False):
        for out_ in (True, False):
            def fact(a, given=given, out_=out_):
                if a.op == 'truthy' and is_iter(a.args[0]):
                    return given
                if a.op == 'isnone' and is_iter(a.args[0]):
                    return not given
                if a.op == 'exc':
                    return out_
                if a.op == 'in' and a.args[0] is const('name') and a.args[1] is MF:
                    return True
                if a.op == 'isnone' and planned(a.args[0]):
                    return False
                return None
            got = [v for g, v in cases(N) if assign(g, fact) is not FALSE]
            if given and not out_:
                ok = len(got) == 1 and call_of(got[0], 'next') and is_iter(got[0].args[1]) and \
                    (len(got[0].args) == 2 or got[0].args[2] is NONE)
                r.ok(ok, mk[0].event, 'next-name', "a bag does not get the next name of the iterator given: %s" % [show(v)[:80] for v in got])
            else:
                r.ok(len(got) == 1 and planned(got[0]), mk[0].event, 'planned-name', "a bag does not get the name set for it in the plan: %s" % [show(v)[:80] for v in got])
    # the iterator stays in use until it has run out
    lp = [l for e in an.events for l in e.loops if any(is_iter(p) for p in l.carried)]
    for l in lp[:1]:
        for p, (end, g) in l.carried.items():
            if is_iter(p):
                for cg, v in cases(end):
                    if v is not p:
                        ok = v is NONE and assign(cg, lambda a: False if a.op == 'exc' else None) is FALSE
                        r.ok(ok, mk[0].event, 'iterator', "the naming iterator is replaced before it has run out")
    # every use of the name is that name
    nameof = {}
    for g, v in cases(N):
        nameof[v] = f_or(nameof.get(v, FALSE), g)
    nxs = [e for e in calls(an, 'next')]
    r.ok(len(nxs) <= 1, an.entry, 'one-name', "more than one name of the iterator is used for a bag")
    for e in an.events:
        if e in nxs or e.kind not in ('call', 'mutate', 'store'):
            continue
        for t in list(e.args) + list(e.kw.values()) + ([e.recv] if e.recv is not None else []):
            bad = stray(t, e.guard, N, nameof, planned, is_iter)
            if bad is not None:
                r.fail(e, 'same-name', "a bag goes by another name here than that of its directory: %s" % show(bad)[:120])
    r.ok(True, an.entry, 'same-name', '')
    ap = [e for e in an.events if e.kind == 'mutate' and e.name == 'append' and e.args and e.args[0] is N]
    r.ok(ap, an.entry, 'listed', "the bag is not listed as a member under its name")
    ys = [e for e in an.events if e.kind == 'yield']
    r.ok(ys and all(e.args[0] is mk_path([out, N]) for e in ys), an.entry, 'result', "the location of the bag written is not the one returned")


def stray(t, g, N, nameof, planned, is_iter, seen=None):
    """a use of one of the possible names of a bag where its name is another one"""
    seen = set() if seen is None else seen
    if t is N or (t, g) in seen or g is FALSE:
        return None
    seen.add((t, g))
    if planned(t) or call_of(t, 'next') and is_iter(t.args[1]):
        return None if implies(g, nameof.get(t, FALSE)) else t
    if t.op in ('phi', 'loopout', 'comp', 'F', 'existsq', 'elem'):
        return None
    if t.op == 'ite':
        todo = [(t.args[1], f_and(g, t.args[0])), (t.args[2], f_and(g, f_not(t.args[0])))]
    else:
        todo = [(a, g) for a in t.args if isinstance(a, Term)]
    for a, ga in todo:
        x = stray(a, ga, N, nameof, planned, is_iter, seen)
        if x is not None:
            return x
    return None


@rule('C14', 'completion-name',
      "the bag that completes a plan has a name made of the source bag's name and the number of bags planned before it", floor=1)
def completion_name(c, r):
    an = c.an('SplitPlan.complete_plan')
    st = [e for e in an.events if e.kind == 'store' and e.name == '[]' and e.args[0] is const('name')]
    S = T('self', 'SplitPlan')
    if r.ok(st, an.entry, 'named', "the completing bag is not named"):
        for e in st:
            ok = has(e.args[1], lambda t: attr_of(t, 'name') and attr_of(t.args[0], 'progenitor')) and \
                has(e.args[1], lambda t: t.op == 'len' and t.args[0] is T('attr', S, '_manifests'))
            r.ok(ok, e, 'distinct', "the completing bag's name is not made of the source bag's name and its number: %s" % show(e.args[1])[:120])
