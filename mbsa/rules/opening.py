"""rules for the interface a bag gets: extending bags, opening head bags (C35)"""
from ..query import *
from ..program import ClassInfo
import posixpath
from ..shapes import Shape, UNKNOWN, CWD
from ..terms import TRUE, FALSE, NONE
from ..engine import tobool
from ..typestate import outcomes, ctor_fields, names_of, RAISED

EXT, MB = 'multibag.access.extended', 'multibag.access.multibag'
CLASSES = ['Bag', 'ReadOnlyBag', 'ExtendedReadOnlyBag', 'ExtendedReadWritableBag', 'ReadOnlyHeadBag', 'HeadBag']


def has_method(cls, name):
    return isinstance(cls, ClassInfo) and any(name in c.methods or name in c.props for c in cls.mro if isinstance(c, ClassInfo))


def can(cls):
    """what an object of the class offers: read-only access, the extended interface, that of a head bag, updating it"""
    return dict(readonly='ReadOnlyBag' in names_of(cls), extended=has_method(cls, 'replicate'), head=has_method(cls, 'member_bags'),
                update=has_method(cls, 'add_member_bag'))


def name(cls):
    return names_of(cls)[0]


def classes(c):
    out = [c.prog.classes.get(k, k) for k in CLASSES]
    seen = set(name(k) for k in out)
    # head bag classes that only conversions make
    for k in c.prog.classes.values():
        if name(k) not in seen and 'ExtendedReadMixin' in names_of(k) and 'Bag' in names_of(k):
            out.append(k)
    return out


def convert(c, r, fn, cls, kw, want, q):
    """decides the conversion of a bag of one class; want: function of its abilities"""
    outs = outcomes(c.prog, fn, cls, kw)
    good = [(s, v) for s, v in outs if v is not RAISED]
    arg = ', '.join('%s=%s' % (k, v[1]) for k, v in kw.items())
    what = "%s given a %s%s" % (fn.name, name(cls), ' with ' + arg if arg else '')
    r.ok(bool(good), fn, q, "%s is always refused" % what)
    before = can(cls)
    exp = want(before)
    for s, v in outs:
        o = s.objs[0]
        if v is RAISED:
            r.ok(bool(s.forked), fn, q, "%s raises %s" % (what, s.why[-1] if s.why else '?'))
            continue
        r.ok(v == ('obj', 0), fn, q, "%s does not return the bag" % what)
        now = can(o.cls)
        for k in sorted(exp):
            r.ok(now[k] == exp[k], fn, q, "%s makes it a %s: %s" % (
                what, name(o.cls), {'readonly': "it is no longer read-only" if exp['readonly'] else "it has become read-only",
                                    'extended': "the extended interface is missing",
                                    'head': "the head bag interface is missing" if exp['head'] else "it has got the head bag interface",
                                    'update': "the update methods are missing" if exp['update'] else "it has got update methods"}[k]))
        if all(now[k] == before[k] for k in before):
            r.ok(not o.fields, fn, q, "%s, which needs no conversion, resets its %s" % (what, ', '.join(sorted(set(o.fields)))))
        else:
            need = ctor_fields(c.prog, o.cls) - ctor_fields(c.prog, cls)
            r.ok(need <= set(o.fields), fn, q, "%s leaves %s of a %s unset" % (what, ', '.join(sorted(need - set(o.fields))), name(o.cls)))
            if isinstance(o.cls, ClassInfo) and o.cls.find('__init__'):
                have = ctor_fields(c.prog, o.cls) | ctor_fields(c.prog, cls)
                r.ok(set(o.fields) <= have, fn, q, "a %s that is constructed has no %s, one that is converted has" % (
                    name(o.cls), ', '.join(sorted(set(o.fields) - have))))
    return outs


@rule('C35', 'extended-interface', "a bag of any class that is extended is the same object, with the extended interface, read-only exactly if it was "
      "before; one that has the interface is left as it is, and what is not a bag is refused", floor=30)
def extended(c, r):
    fn = c.prog.function(EXT, 'as_extended')
    for cls in classes(c):
        convert(c, r, fn, cls, {}, lambda b: dict(b, extended=True), 'as_extended')
    # the extended interface of a bag is for the directory of that bag
    an = c.an(EXT + ':as_extended')
    bag = T('param', 'bag')
    for loc in ('/w/x/bag', 'bag', 'x/bag'):
        sh = Shape({T('attr', bag, 'path'): loc}, None)
        for e in an.events:
            if e.kind == 'call' and e.name.split('.')[-1] in ('_extend', '__init__'):
                given = [a for a in list(e.args) + list(e.kw.values()) if a is not bag]
            elif e.kind == 'setattr' and e.recv is bag and e.name == '_bagdir':
                given = e.args[:1]
            else:
                continue
            for a in given:
                v = sh.val(a)
                if isinstance(v, str):
                    r.ok(posixpath.normpath(posixpath.join(CWD, v)) == posixpath.normpath(posixpath.join(CWD, loc)), e, 'as_extended directory',
                         "a bag at %s is extended for the directory %s" % (loc, v))
    for cls in ('str', 'dict'):
        outs = outcomes(c.prog, fn, cls, {})
        r.ok(outs and all(v is RAISED for s, v in outs), fn, 'as_extended', "a %s is taken for a bag" % cls)


@rule('C35', 'headbag-interface', "a bag of any class taken as a head bag is the same object, with the methods for reading head bags, and with those for updating exactly if "
      "the bag is writable and updating was not declined; in-memory state of a bag that already has them is left alone; what is not a bag is refused", floor=60)
def headbag(c, r):
    fn = c.prog.function(MB, 'as_headbag')
    for cls in classes(c):
        for ro in (False, True, None):
            kw = {} if ro is None else {'readonly': ('const', ro)}

            def want(b):
                return dict(b, extended=True, head=True, update=b['update'] or (not ro and not b['readonly']))
            convert(c, r, fn, cls, kw, want, 'as_headbag')
    for cls in ('str', 'dict'):
        outs = outcomes(c.prog, fn, cls, {})
        r.ok(outs and all(v is RAISED for s, v in outs), fn, 'as_headbag', "a %s is taken for a bag" % cls)


WORLDS = [('a directory', '/d/bag', False), ('an archive', '/d/bag.zip', True), ('a URL', 'zip://d/bag.zip', False), ('a file whose name does not tell', 'bag', True)]


@rule('C35', 'open-headbag', "a head bag that is a directory is opened for updating unless declined; an archive, a URL, or any bag when updating is declined, is opened "
      "read-only; it is the bag at the given location", floor=12)
def open_head(c, r):
    q = 'open_headbag'
    an = c.an(MB + ':open_headbag', opaque=['as_headbag', 'open_bag'])
    loc, ro = T('param', 'location'), T('param', 'readonly')
    for what, text, isfile in WORLDS:
        for declined in (False, True):
            def facts(a, s):
                if a.op in ('isfile', 'isdir', 'exists') and a.args[0] is loc:
                    return {'isfile': isfile, 'isdir': not isfile and '://' not in text, 'exists': '://' not in text}[a.op]
                return None
            sh = Shape({loc: text, ro: declined}, facts)
            tag = "%s%s" % (what, " with readonly" if declined else '')

            def resolve(t):
                for _ in range(20):
                    i = find_ite(t)
                    if i is None:
                        return t
                    g = sh.truth(i.args[0])
                    if g is None:
                        return t
                    t = rebuild(t, i, i.args[1] if g else i.args[2])
                return t
            rets = [resolve(t) for g, t in [x[:2] for x in an.returns] if sh.truth(g) is not False]
            if not r.ok(len(rets) == 1 and rets[0].op == 'call', an.entry, q, "%s: it is not clear what is returned: %s" % (tag, [show(t)[:100] for t in rets])):
                continue
            t = rets[0]
            flag = False
            opener = t
            if t.args[0].split('.')[-1] == 'as_headbag':
                opener = t.args[1]
                if len(t.args) > 2:
                    x = t.args[2]
                    if x.op == 'kw':
                        x = x.args[-1]
                    flag = declined if x is ro else (cval(x) if is_const(x) else UNKNOWN)
            nm = opener.args[0].split('.')[-1] if opener.op == 'call' else '?'
            ronly = nm in ('open_bag', 'ReadOnlyBag', 'ReadOnlyHeadBag', 'ExtendedReadOnlyBag')
            r.ok(nm in ('open_bag', 'Bag', 'HeadBag', 'ReadOnlyHeadBag', 'ExtendedReadWritableBag') and opener.args[1] is loc, an.entry, q, "%s: %s is opened" % (tag, show(opener)[:80]))
            if declined or isfile or '://' in text:
                r.ok(ronly or (what == 'a directory' and flag is True and nm in ('Bag', 'ExtendedReadWritableBag')), an.entry, q, "%s is opened for updating" % tag)
                if what != 'a directory':
                    r.ok(nm == 'open_bag', an.entry, q, "%s is opened as %s" % (tag, nm))
            else:
                r.ok(not ronly and not flag, an.entry, q, "%s is opened read-only although updating was not declined" % tag)


@rule('C35', 'is-headbag', "a bag is taken for a head bag exactly if its metadata has a head version, whether the question is asked for its location or of the bag", floor=6)
def is_head(c, r):
    an = c.an(MB + ':is_headbag', opaque=['open_bag'])
    ask_head(r, an, 'is_headbag', T('attr', T('call', 'open_bag', T('param', 'bagpath')), 'info'))
    done = set()
    for k in classes(c):
        m = k.find('is_head_multibag') if isinstance(k, ClassInfo) else None
        if m is not None and m.qualname not in done:
            done.add(m.qualname)
            ask_head(r, c.an(m.qualname), m.qualname, T('attr', T('self', m.cls.name), 'info'))
    r.ok(done, an.entry, 'is_head_multibag', "bags do not tell whether they are head bags")


def ask_head(r, an, q, info):
    for present in (True, False):
        def facts(a, s):
            if a.op == 'in' and a.args[0] is const('Multibag-Head-Version') and a.args[1] is info:
                return present
            if a.op == 'isnone' and a.args[0] in (T('index', info, const('Multibag-Head-Version')), T('call', '.get', info, const('Multibag-Head-Version'))):
                return not present
            return None
        sh = Shape({}, facts)
        got = []
        for x in an.returns:
            if sh.truth(x[0]) is not False:
                v = sh.val(x[1])
                if v is UNKNOWN:
                    v = sh.truth(tobool(x[1]))
                got.append(v)
        r.ok(got == [present], an.entry, q, "a bag %s head version: %s" % ("with a" if present else "without a", got))
