"""rules for the validators: what the tests applied to a bag find (validate)"""
from ..query import *
from ..shapes import UNKNOWN, Inst, walked
from ..worlds import World
from ..terms import TRUE, FALSE, NONE
import posixpath

OPAQUE = ['_err', '_warn', '_rec', '_issue', 'passed', 'failed', 'ValidationResults']
KINDS = {'_err': 'err', '_warn': 'warn', '_rec': 'rec'}


def url_part(url, what):
    from urllib.parse import urlparse
    return getattr(urlparse(url), what)


class Bag(object):
    """a class of bags: bag-info fields, directories, text files with their lines, payload files"""

    def __init__(self, info=None, name='hb', dirs=('data', 'multibag'), files=None, payload=(), head=True):
        self.info, self.name, self.head = dict(info or {}), name, head
        self.dirs, self.files, self.payload = set(dirs), dict(files or {}), list(payload)

    def norm(self, p):
        p = posixpath.normpath(p)
        return p.lstrip('/') if p.startswith('/') else p

    def isfile(self, p):
        p = self.norm(p)
        return p in self.files or p in self.payload

    def isdir(self, p):
        p = self.norm(p)
        return p in self.dirs or p in ('', '.') or any(f.startswith(p + '/') for f in list(self.files) + self.payload)


PARENTS = {'BagValidationError': 'BagError', 'BagError': 'Exception', 'Exception': 'BaseException'}


def caught(exc, by):
    while exc is not None:
        if exc == by:
            return True
        exc = PARENTS.get(exc)
    return False


def bag_world(an, bag, cls, params, raised=None):
    b = T('attr', T('self', cls), 'bag')
    env = {T('attr', b, 'info'): bag.info, T('attr', b, '_name'): bag.name, T('attr', b, 'name'): bag.name}
    for k, v in params.items():
        env[T('param', k)] = v
    env[T('attr', T('self', cls), 'target')] = 'target'

    def ext(t, s):
        o, a = t.op, t.args
        if o in ('call', 'bcall') and len(a) > 1 and a[1] is b:
            rest = [x for x in a[2:] if isinstance(x, Term) and x.op != 'kw']
            if a[0] in ('.isfile', '.isdir', '.exists', '.open_text_file') and rest:
                p = s.val(rest[0])
                if not isinstance(p, str):
                    return UNKNOWN
                if a[0] == '.isfile':
                    return bag.isfile(p)
                if a[0] == '.isdir':
                    return bag.isdir(p)
                if a[0] == '.exists':
                    return bag.isfile(p) or bag.isdir(p)
                return list(bag.files.get(bag.norm(p), UNKNOWN)) if bag.norm(p) in bag.files else UNKNOWN
            if a[0] == '.is_head_multibag':
                return bag.head
            if a[0] == '.payload_files':
                return list(bag.payload)
        if o == 'call' and a[0] in ('.readlines', 'iter') and len(a) == 2:
            return s.val(a[1])
        if o == 'call' and a[0] == '.read' and len(a) == 2:
            v = s.val(a[1])
            return ''.join(v) if isinstance(v, list) else UNKNOWN
        if o == 'call' and a[0] == '.splitlines' and len(a) == 2:
            v = s.val(a[1])
            return v.splitlines() if isinstance(v, str) else UNKNOWN
        if o == 'attr' and a[1] in ('scheme', 'netloc', 'path', 'hostname') and call_of(a[0], 'urllib.parse.urlparse') or \
                o == 'attr' and a[1] in ('scheme', 'netloc') and a[0].op == 'call' and a[0].args[0].endswith(('urlparse', 'urlsplit')):
            v = s.val(a[0].args[1])
            return url_part(v, a[1]) if isinstance(v, str) else UNKNOWN
        if o == 'index' and a[0].op == 'call' and a[0].args[0].endswith(('urlparse', 'urlsplit')) and is_const(a[1]):
            v = s.val(a[0].args[1])
            return url_part(v, ('scheme', 'netloc', 'path')[cval(a[1])]) if isinstance(v, str) and cval(a[1]) in (0, 1, 2) else UNKNOWN
        # walking the payload directory
        if o == 'call' and a[0] in ('.files', 'walk.files') and has_data(a[1]):
            return walked(t, ['/' + f[5:] for f in bag.payload if f.startswith('data/')], s)
        return UNKNOWN

    def facts(a, s):
        if a.op in ('exc', 'excafter'):
            names = [x.split('.')[-1] for x in str(a.args[-1]).split(',')] if a.op == 'exc' else []
            if a.op == 'exc':
                return any(k in names and caught(x, a.args[1]) for k, x in (raised or {}).items())
        return None
    return World(env, facts, ext, an)


def has_data(t):
    return any(x is const('data') for x in subterms(t))


def verdicts(an, w):
    """{kind: [(event, passed)]} of the tests recorded in world w; value None where not known"""
    out = {'err': [], 'warn': [], 'rec': []}
    for e in an.events:
        if e.kind == 'call' and e.name in KINDS and len(e.args) > 1:
            sts = w.states(e)
            if sts is None:
                if w.truth(e.guard) is False:
                    continue
                out[KINDS[e.name]].append((e, None))
                continue
            for s in sts:
                g = s.truth(e.guard)
                if g is False:
                    continue
                lab = label_of(e, s)
                p = s.val(e.args[1])
                if p is UNKNOWN and e.args[1].op != 'F':
                    p = s.truth_atom(T('truthy', e.args[1]))
                    p = UNKNOWN if p is None else p
                out[KINDS[e.name]].append((e, None if g is None or p is UNKNOWN else bool(p)))
                if isinstance(lab, str):
                    out.setdefault('labels', []).append((lab, e, None if g is None or p is UNKNOWN else bool(p)))
    return out


def label_of(e, s):
    """the label of the issue that an outcome is recorded with"""
    t = e.args[0]
    for _ in range(20):
        i = find_ite(t)
        b = None if i is None else s.truth(i.args[0])
        if b is None:
            break
        t = rebuild(t, i, i.args[1] if b else i.args[2])
    if t.op == 'call' and t.args[0] == '._issue' and len(t.args) > 2:
        return s.val(t.args[2].args[-1] if t.args[2].op == 'kw' else t.args[2])
    if t.op == 'inst' and len(t.args) > 1:
        return s.val(t.args[1])
    return UNKNOWN


def own_issues(an, w, got, meth, what, r):
    """every outcome is recorded with an issue made for it, not with one that another outcome has been recorded with"""
    made, rec = {}, {}
    for e in an.events:
        if e.kind == 'call' and e.name == '_issue' and not e.loops and w.truth(e.guard) is not False:
            k = tuple(x for x in e.args if isinstance(x, Term))
            made[k] = made.get(k, 0) + 1
    for k in KINDS.values():
        for e, ok in got[k]:
            if e.loops:
                continue
            t = e.args[0]
            for _ in range(20):
                i = find_ite(t)
                b = None if i is None else w.truth(i.args[0])
                if b is None:
                    break
                t = rebuild(t, i, i.args[1] if b else i.args[2])
            if t.op == 'call' and t.args[0] == '._issue':
                k2 = tuple(x for x in t.args[2:])
                rec.setdefault(k2, []).append(e)
    for k, es in rec.items():
        if k in made:
            r.ok(len(es) <= made[k], es[-1], '%s: %s (issue)' % (meth, what),
                 "the outcome of a test is recorded with the issue of another one, %s, for %s" % (', '.join(show(x)[:60] for x in k[:1]), what))


def judge(c, r, meth, worlds, cls='HeadBagValidator'):
    """worlds: [(description, Bag, params, {kind: True (must fail) / False (must not fail) / None (either)})]"""
    an = c.an('%s.%s' % (cls, meth), opaque=OPAQUE, assume=atom(T('truthy', T('param', 'results'))))
    for what, bag, params, want in worlds:
        p = {'want': 7, 'version': '0.4', 'results': {'given': 1}}
        p.update(params)
        raised = p.pop('!', {})
        w = bag_world(an, bag, cls, p, raised)
        got = verdicts(an, w)
        own_issues(an, w, got, meth, what, r)
        for lab, exp in want.get('tests', {}).items():
            mine = [(e, ok) for l, e, ok in got.get('labels', []) if l == lab]
            key = '%s: %s (test %s)' % (meth, what, lab)
            if exp:
                r.ok(any(ok is False for e, ok in mine), mine[0][0] if mine else an.entry, key, "the test %s does not fail for %s" % (lab, what))
            else:
                bad = [e for e, ok in mine if ok is not True]
                r.ok(not bad, bad[0] if bad else an.entry, key, "the test %s fails for %s" % (lab, what))
        for k, label in (('err', 'an error'), ('warn', 'a warning'), ('rec', 'a recommendation')):
            exp = want.get(k)
            if exp is None:
                continue
            bad = [e for e, ok in got[k] if ok is False]
            unk = [e for e, ok in got[k] if ok is None]
            key = '%s: %s (%s)' % (meth, what, k)
            if exp:
                r.ok(bad, unk[0] if unk else an.entry, key, "no failed test is recorded as %s for %s" % (label, what))
            else:
                if r.ok(not bad, bad[0] if bad else an.entry, key, "a failed test is recorded as %s for %s" % (label, what)):
                    r.ok(not unk, unk[0] if unk else an.entry, key + ' known',
                         "what this test finds for %s does not follow from the code: %s" % (what, show(unk[0].args[1])[:120] if unk else ''))


def info_worlds(base, cases):
    return [(what, Bag(dict(base, **{k: v for k, v in d.items() if v is not None})), {}, exp) for what, d, exp in cases]


GOOD = {'err': False, 'warn': False, 'rec': False}


def fails(tests=(), passes=(), **kw):
    """the kinds that must fail; the others must not, unless given as None; the labels of tests that must fail, or must not"""
    out = dict(GOOD)
    if tests or passes:
        out['tests'] = dict([(t, True) for t in tests] + [(t, False) for t in passes])
    out.update(kw)
    return out


@rule('C29', 'head-info-verdicts',
      "for every class of bag-info contents the head-bag tests of the profile elements fail exactly where the profile is "
      "not met, as errors, warnings or recommendations", floor=40)
def head_info(c, r):
    V = 'Multibag-Version'
    judge(c, r, 'validate_version', [
        ("a bag with the profile version", Bag({V: '0.4'}), {}, GOOD),
        ("a bag with an earlier profile version", Bag({V: '0.3'}), {'version': '0.3'}, GOOD),
        ("a bag without a profile version", Bag({}), {'version': None}, fails(err=True)),
        ("a bag with an empty profile version", Bag({V: ''}), {'version': ''}, fails(err=True)),
        ("a bag with another profile version than the one required", Bag({V: '0.3'}), {}, fails(err=True)),
        ("a bag that repeats the profile version", Bag({V: ['0.4', '0.4']}), {}, fails(warn=True, err=None)),
    ])
    R = 'Multibag-Reference'
    judge(c, r, 'validate_reference', [
        ("an absolute URL as reference", Bag({R: 'https://a.org/p'}), {}, GOOD),
        ("an absolute URL of another kind as reference", Bag({R: 's3://bucket/p'}), {}, GOOD),
        ("an absolute URL of a host alone as reference", Bag({R: 'ftp://a.org'}), {}, GOOD),
        ("no reference", Bag({}), {}, fails(rec=True)),
        ("an empty reference", Bag({R: ''}), {}, fails(rec=True, err=None)),
        ("a reference without a scheme", Bag({R: 'a.org/p'}), {}, fails(err=True)),
        ("a reference without a host", Bag({R: 'mailto:me'}), {}, fails(err=True)),
        ("a reference without a scheme but with a host", Bag({R: '//a.org/p'}), {}, fails(err=True)),
        ("references of which the last is absolute", Bag({R: ['goob', 'https://a.org/p']}), {}, GOOD),
        ("references of which the last is not absolute", Bag({R: ['https://a.org/p', 'goob']}), {}, fails(err=True)),
        ("references of which the last is empty", Bag({R: ['https://a.org/p', '']}), {}, fails(err=True)),
    ])
    D = 'Multibag-Tag-Directory'
    judge(c, r, 'validate_tag_directory', [
        ("the default tag directory", Bag({}), {}, GOOD),
        ("no tag directory", Bag({}, dirs=['data']), {}, fails(err=True)),
        ("a file in place of the default tag directory", Bag({}, dirs=['data'], files={'multibag': []}), {}, fails(err=True)),
        ("a named tag directory", Bag({D: 'mbdir'}, dirs=['data', 'mbdir']), {}, GOOD),
        ("a named tag directory that is missing", Bag({D: 'mbdir'}), {}, fails(err=True)),
        ("a file in place of the named tag directory", Bag({D: 'mbdir'}, files={'mbdir': []}), {}, fails(err=True)),
        ("an empty tag directory name", Bag({D: ''}), {}, fails(err=True)),
        ("two tag directory names", Bag({D: ['a', 'mbdir']}, dirs=['data', 'mbdir', 'a']), {}, fails(err=True)),
        ("tag directory names of which the last is empty", Bag({D: ['a', '']}, dirs=['data', 'multibag', 'a']), {}, fails(err=True)),
    ])
    H = 'Multibag-Head-Version'
    judge(c, r, 'validate_head_version', [
        ("a head version", Bag({H: '1.0'}), {}, GOOD),
        ("no head version", Bag({}), {}, fails(err=True)),
        ("an empty head version", Bag({H: ''}), {}, fails(warn=True)),
        ("two head versions", Bag({H: ['1', '2']}), {}, fails(warn=True)),
        ("a head version given twice", Bag({H: ['2', '2']}), {}, fails(warn=True)),
        ("head versions of which the last is empty", Bag({H: ['1', '']}), {}, fails(warn=True)),
    ])
    P = 'Multibag-Head-Deprecates'
    judge(c, r, 'validate_head_deprecates', [
        ("no deprecated version", Bag({H: '2'}), {}, GOOD),
        ("an older deprecated version", Bag({H: '2', P: '1'}), {}, GOOD),
        ("an older deprecated version and bag", Bag({H: '2', P: '1, oldbag'}), {}, GOOD),
        ("several older deprecated versions", Bag({H: '2', P: ['1', '1.1, old']}), {}, GOOD),
        ("an empty deprecated version", Bag({H: '2', P: ''}), {}, fails(warn=True)),
        ("an empty first deprecated version", Bag({H: '2', P: ['', '1']}), {}, fails(warn=True)),
        ("a deprecated version with three parts", Bag({H: '2', P: '1, oldbag, x'}), {}, fails(err=True)),
        ("a second deprecated version with three parts", Bag({H: '2', P: ['1', '1.1, oldbag, x']}), {}, fails(err=True)),
        ("a deprecated version with three parts before a proper one", Bag({H: '2', P: ['1.1, oldbag, x', '1']}), {}, fails(err=True)),
        ("the bag's own version among the deprecated ones", Bag({H: '2', P: ['1', '2']}), {}, fails(warn=True)),
        ("the bag's own version as the deprecated one", Bag({H: '2', P: '2'}), {}, fails(warn=True)),
        ("the bag's own version before an older deprecated one", Bag({H: '2', P: ['2, x', '1']}), {}, fails(warn=True)),
        ("the bag's own name as the deprecated one", Bag({H: '2', P: '1,hb'}), {}, fails(warn=True)),
        ("a deprecated version and bag that start as the bag's own do", Bag({H: '2', P: ['2.1, hb2', '2.0,hb-1', '22']}), {}, GOOD),
        ("a deprecated version and bag that the bag's own start with", Bag({H: '2.1', P: ['2, h', '2.,h']}), {}, GOOD),
        ("deprecated versions and bags that end as the bag's own do", Bag({H: '2', P: ['12, ohb']}), {}, GOOD),
        ("an older version of a bag with the bag's own name after others", Bag({H: '2', P: ['1, x', '1.1, hb', '1.2, y']}), {}, fails(warn=True)),
        ("the bag's own (last) version as the deprecated one", Bag({H: ['1', '2'], P: '2'}), {}, fails(warn=True)),
    ])
    els = ["Internal-Sender-Identifier", "Internal-Sender-Description", "Bag-Group-Identifier"]
    full = {e: 'goob' for e in els}
    ws = [("all recommended elements", Bag(full), {}, GOOD), ("no recommended elements", Bag({}), {}, fails(rec=True)),
          ("repeated recommended elements", Bag({e: ['a', 'b'] for e in els}), {}, GOOD)]
    for e in els:
        ws += [("a bag without %s" % e, Bag({k: v for k, v in full.items() if k != e}), {}, fails(rec=True)),
               ("a bag with an empty %s" % e, Bag(dict(full, **{e: ''})), {}, fails(rec=True, err=None)),
               ("a bag whose last %s is empty" % e, Bag(dict(full, **{e: ['a', '']})), {}, fails(rec=True, err=None)),
               ("a bag whose first %s is empty" % e, Bag(dict(full, **{e: ['', 'a']})), {}, fails(err=True))]
    for e in els:
        for f in els:
            if e != f:
                ws.append(("a bag without %s whose first %s is empty" % (e, f),
                           Bag({f: ['', 'a'], [x for x in els if x not in (e, f)][0]: 'goob'}), {}, fails(err=True, rec=True)))
    judge(c, r, 'validate_baginfo_recs', ws)


def file_worlds(fname, cases, params, others, base=None):
    """worlds of one tag file: in the default and in a named tag directory, and without the file or its directory"""
    out = []
    D = 'Multibag-Tag-Directory'
    for what, lines, exp in cases:
        out.append((what, Bag({}, files={'multibag/' + fname: lines}, **(base or {})), params, exp))
    what, lines, exp = cases[0]
    b = dict(base or {})
    out += [("a bag without the file", Bag({}, files=others, **b), params, fails(err=True, warn=None, rec=None)),
            ("a directory in place of the file", Bag({}, dirs=['data', 'multibag', 'multibag/' + fname], **b), params,
             fails(err=True, warn=None, rec=None)),
            ("a bag without the tag directory", Bag({}, dirs=['data'], **b), params, fails(err=True, warn=None, rec=None)),
            ("the file in a named tag directory", Bag({D: 'mbdir'}, dirs=['data', 'mbdir'], files={'mbdir/' + fname: lines}, **b),
             params, exp),
            ("the file in the last tag directory named", Bag({D: ['x', 'mbdir']}, dirs=['data', 'mbdir', 'multibag', 'x'],
                                                             files={'mbdir/' + fname: lines}, **b), params, exp),
            ("the file outside the named tag directory", Bag({D: 'mbdir'}, dirs=['data', 'multibag', 'mbdir'],
                                                             files={'multibag/' + fname: lines}, **b), params,
             fails(err=True, warn=None, rec=None)),
            ("the file in the default tag directory where an empty one is named",
             Bag({D: ''}, files={'multibag/' + fname: lines}, **b), params, exp)]
    return out


@rule('C29', 'head-member-list-verdicts',
      "for every class of member-list lines the member-list tests fail exactly where the profile is not met: the URL is "
      "absolute, the bag itself is listed, and listed last, no bag is listed twice, whatever blank lines there are", floor=60)
def head_members(c, r):
    for ver in ('0.4', '0.3'):
        judge(c, r, 'validate_member_bags', file_worlds('member-bags.tsv', [
            ("a member list ending with the bag itself", ['a\n', 'b\thttps://x.org/b\n', 'hb\n'], GOOD),
            ("a member list of the bag alone", ['hb\n'], GOOD),
            ("a member list without a last line end", ['a\n', 'hb'], GOOD),
            ("a member list with blank lines", ['\n', 'a\n', '  \n', 'hb\n', '\n'], GOOD),
            ("member names with spaces", ['my first bag\thttp://x.org/b\n', 'hb\thttp://x.org/b\n'], GOOD),
            ("further fields after the URL", ['a\thttp://x.org/b\tabc\tdef\n', 'hb\t\tabc\n'], GOOD),
            ("an empty URL field", ['a\t\n', 'hb\t \n'], GOOD),
            ("an empty member list", [], fails(['4.1-3'], ['4.1-2', '4.1-5'], err=True)),
            ("a member list of blank lines", ['\n'], fails(['4.1-3'], ['4.1-2', '4.1-5'], err=True)),
            ("a member list without the bag itself", ['a\n', 'b\n'], fails(['4.1-3'], ['4.1-2', '4.1-5'], err=True)),
            ("a member list with the bag itself first", ['hb\n', 'a\n'], fails(['4.1-4'], ['4.1-2', '4.1-3', '4.1-5'], err=True)),
            ("a member list with the bag itself in the middle", ['a\n', 'hb\n', 'b\n'], fails(['4.1-4'], ['4.1-2', '4.1-3', '4.1-5'], err=True)),
            ("a member whose name starts with that of the bag at the end", ['a\n', 'hb2\n'], fails(['4.1-3'], ['4.1-2', '4.1-5'], err=True)),
            ("a member whose name ends with that of the bag", ['a\n', 'xhb\n'], fails(['4.1-3'], ['4.1-2', '4.1-5'], err=True)),
            ("a member in whose name that of the bag occurs", ['a-hb-c\n', 'b\n'], fails(['4.1-3'], ['4.1-2', '4.1-5'], err=True)),
            ("a member whose name differs from that of the bag in case", ['a\n', 'HB\n'], fails(['4.1-3'], ['4.1-2', '4.1-5'], err=True)),
            ("a member whose name is the start of that of the bag at the end", ['a\n', 'h\n'], fails(['4.1-3'], ['4.1-2', '4.1-5'], err=True)),
            ("a URL without scheme before further fields", ['a\tx.org/b\tx\ty\n', 'hb\n'], fails(['4.1-2'], ['4.1-3', '4.1-4', '4.1-5'], err=True)),
            ("members whose names start or end as that of the bag does", ['hb2\n', 'h\n', 'ahb\n', 'b\n', 'hb\n'], GOOD),
            ("the bag itself before one whose name starts like it", ['hb\n', 'hb2\n'], fails(err=True)),
            ("a URL without scheme", ['a\tx.org/b\n', 'hb\n'], fails(['4.1-2'], ['4.1-3', '4.1-4', '4.1-5'], err=True)),
            ("a URL without scheme in the last line", ['a\n', 'hb\tx.org/b\n'], fails(err=True)),
            ("a URL without scheme after proper ones", ['a\thttp://x.org\n', 'b\tx.org/b\n', 'c\thttp://x.org\n', 'hb\n'], fails(err=True)),
            ("five URLs without scheme", ['a%d\tx.org/b\n' % i for i in range(5)] + ['hb\n'], fails(err=True)),
            ("a member listed twice", ['a\n', 'a\n', 'hb\n'], fails(['4.1-5'], ['4.1-2', '4.1-3', '4.1-4'], warn=True)),
            ("a member listed twice, with different URLs", ['a\n', 'b\n', 'a\thttp://x.org/a\n', 'hb\n'], fails(warn=True)),
            ("the bag itself listed twice", ['hb\n', 'a\n', 'hb\n'], fails(warn=True)),
            ("five members listed twice", ['a%d\n' % i for i in range(5)] * 2 + ['hb\n'], fails(warn=True)),
        ], {'version': ver}, {'multibag/group-members.txt': ['hb\n']}))
    judge(c, r, 'validate_member_bags', file_worlds('group-members.txt', [
        ("a member list ending with the bag itself", ['a\n', 'b  https://x.org/b\n', 'hb\n'], GOOD),
        ("a member list with blank lines", ['\n', 'a\n', '  \n', 'hb\n', '\n'], GOOD),
        ("an empty member list", [], fails(['4.1-3'], ['4.1-1', '4.1-2', '4.1-5'], err=True)),
        ("a member list without the bag itself", ['a\n', 'b\n'], fails(['4.1-3'], ['4.1-1', '4.1-2', '4.1-5'], err=True)),
        ("a member list with the bag itself first", ['hb\n', 'a\n'], fails(['4.1-4'], ['4.1-1', '4.1-2', '4.1-3', '4.1-5'], err=True)),
        ("a member whose name starts with that of the bag at the end", ['a\n', 'hb2\n'], fails(['4.1-3'], ['4.1-1', '4.1-2', '4.1-5'], err=True)),
        ("a member whose name ends with that of the bag", ['a\n', 'xhb\n'], fails(['4.1-3'], ['4.1-1', '4.1-2', '4.1-5'], err=True)),
        ("a member in whose name that of the bag occurs", ['a-hb-c\n', 'b\n'], fails(['4.1-3'], ['4.1-1', '4.1-2', '4.1-5'], err=True)),
        ("a member whose name differs from that of the bag in case", ['a\n', 'HB\n'], fails(['4.1-3'], ['4.1-1', '4.1-2', '4.1-5'], err=True)),
        ("a URL without scheme in a line of three words", ['a x.org/b x\n', 'hb\n'], fails(['4.1-1', '4.1-2'], ['4.1-3', '4.1-4', '4.1-5'], err=True)),
        ("the bag itself before one whose name starts like it", ['hb\n', 'hb2\n'], fails(err=True)),
        ("a member list of the bag alone", ['hb\n'], GOOD),
        ("members whose names start as that of the bag does", ['hb2\n', 'h\n', 'hb\n'], GOOD),
        ("a URL without scheme", ['a x.org/b\n', 'hb\n'], fails(['4.1-2'], ['4.1-1', '4.1-3', '4.1-4', '4.1-5'], err=True)),
        ("a URL without scheme in the last line", ['a\n', 'hb x.org/b\n'], fails(err=True)),
        ("a line of three words", ['a http://x.org/b x\n', 'hb\n'], fails(['4.1-1'], ['4.1-2', '4.1-3', '4.1-4', '4.1-5'], err=True)),
        ("a last line of three words", ['a\n', 'hb http://x.org/b x\n'], fails(err=True)),
        ("five lines of three words", ['a%d http://x.org/b x\n' % i for i in range(5)] + ['hb\n'], fails(err=True)),
        ("a member listed twice", ['a\n', 'b\n', 'a http://x.org/a\n', 'hb\n'], fails(warn=True)),
    ], {'version': '0.2'}, {'multibag/member-bags.tsv': ['hb\n']}))


@rule('C29', 'head-file-lookup-verdicts',
      "for every class of file-lookup lines the file-lookup tests fail exactly where the profile is not met: two fields, the "
      "files of the bag itself exist, no path is listed twice, and every payload file is listed", floor=60)
def head_lookup(c, r):
    pay = {'payload': ['data/f', 'data/d/g']}
    for ver in ('0.4', '0.3'):
        judge(c, r, 'validate_file_lookup', file_worlds('file-lookup.tsv', [
            ("a complete lookup list", ['data/f\thb\n', 'data/d/g\thb\n'], GOOD),
            ("files of other members", ['data/z\ta\n', 'data/f\thb\n', 'data/d/g\tb\n', 'x\tb\n'], GOOD),
            ("blank lines", ['\n', 'data/f\thb\n', ' \n', 'data/d/g\thb\n'], GOOD),
            ("bag names with spaces", ['data/f\tmy bag\n', 'data/d/g\thb'], GOOD),
            ("files of members whose names start as that of the bag does", ['data/f\thb\n', 'data/d/g\thb\n', 'data/z\thb2\n', 'data/y\th\n'], GOOD),
            ("an empty lookup list", [], fails(rec=True)),
            ("a payload file that is not listed", ['data/f\thb\n'], fails(rec=True)),
            ("a payload file in a directory that is not listed", ['data/d/g\thb\n'], fails(rec=True)),
            ("payload files listed by their name alone", ['data/f\thb\n', 'data/g\tb\n'], fails(rec=True)),
            ("a line without a bag", ['data/f\thb\n', 'data/d/g\n'], fails(['4.2-1'], ['4.2-2', '4.2-3', '4.2-4'], err=True)),
            ("a first line without a bag", ['data/f\n', 'data/d/g\thb\n'], fails(err=True)),
            ("a line of three fields", ['data/f\thb\n', 'data/d/g\thb\tx\n'], fails(err=True)),
            ("a line separated by a space", ['data/f\thb\n', 'data/d/g\thb\n', 'data/z a\n'], fails(err=True)),
            ("five lines of three fields", ['data/f\thb\n', 'data/d/g\thb\n'] + ['data/z%d\ta\tx\n' % i for i in range(5)], fails(err=True)),
            ("a missing file of the bag itself", ['data/f\thb\n', 'data/d/g\thb\n', 'data/z\thb\n'], fails(['4.2-2'], ['4.2-1', '4.2-3', '4.2-4'], err=True)),
            ("a missing tag file of the bag itself", ['data/f\thb\n', 'data/d/g\thb\n', 'notes/z\thb\n'], fails(['4.2-2'], ['4.2-1', '4.2-3', '4.2-4'], err=True)),
            ("a missing file of the bag itself in a line with a further field", ['data/f\thb\n', 'data/d/g\thb\n', 'data/z\thb\tx\n'], fails(['4.2-1', '4.2-2'], ['4.2-3', '4.2-4'], err=True)),
            ("a line without a bag, repeating another", ['data/f\thb\n', 'data/d/g\thb\n', 'data/f\n'], fails(['4.2-1', '4.2-3'], ['4.2-2', '4.2-4'], err=True, warn=True)),
            ("a missing file of the bag itself in the first line", ['data/z\thb\n', 'data/f\thb\n', 'data/d/g\thb\n'], fails(err=True)),
            ("a directory of the bag itself", ['data/f\thb\n', 'data/d/g\thb\n', 'data/d\thb\n'], fails(err=True)),
            ("five missing files of the bag itself", ['data/f\thb\n', 'data/d/g\thb\n'] + ['data/z%d\thb\n' % i for i in range(5)], fails(err=True)),
            ("a path listed twice", ['data/f\thb\n', 'data/d/g\thb\n', 'data/f\tb\n'], fails(warn=True)),
            ("five paths listed twice", ['data/f\thb\n', 'data/d/g\thb\n'] + ['data/z%d\tb\n' % i for i in range(5)] * 2, fails(warn=True)),
        ], {'version': ver}, {'multibag/group-directory.txt': ['data/f hb\n', 'data/d/g hb\n']}, pay))
    judge(c, r, 'validate_file_lookup', file_worlds('group-directory.txt', [
        ("a complete lookup list", ['data/f hb\n', 'data/d/g hb\n'], GOOD),
        ("files of other members", ['data/z a\n', 'data/f hb\n', 'data/d/g b\n', 'x b\n'], GOOD),
        ("blank lines", ['\n', 'data/f hb\n', ' \n', 'data/d/g hb\n'], GOOD),
        ("files of members whose names start as that of the bag does", ['data/f hb\n', 'data/d/g hb\n', 'data/z hb2\n', 'data/y h\n'], GOOD),
        ("an empty lookup list", [], fails(rec=True)),
        ("a payload file that is not listed", ['data/f hb\n'], fails(rec=True)),
        ("a payload file in a directory that is not listed", ['data/d/g\thb\n'], fails(rec=True)),
        ("a line without a bag", ['data/f hb\n', 'data/d/g\n'], fails(['4.2-1'], ['4.2-2', '4.2-3', '4.2-4'], err=True)),
        ("a line of three words", ['data/f hb\n', 'data/d/g hb x\n'], fails(err=True)),
        ("a missing file of the bag itself", ['data/f hb\n', 'data/d/g hb\n', 'data/z hb\n'], fails(['4.2-2'], ['4.2-1', '4.2-3', '4.2-4'], err=True)),
        ("a missing tag file of the bag itself", ['data/f hb\n', 'data/d/g hb\n', 'notes/z hb\n'], fails(['4.2-2'], ['4.2-1', '4.2-3', '4.2-4'], err=True)),
        ("a missing file of the bag itself in a line with a further field", ['data/f hb\n', 'data/d/g hb\n', 'data/z hb x\n'], fails(['4.2-1', '4.2-2'], ['4.2-3', '4.2-4'], err=True)),
        ("a line without a bag, repeating another", ['data/f hb\n', 'data/d/g hb\n', 'data/f\n'], fails(['4.2-1', '4.2-3'], ['4.2-2', '4.2-4'], err=True, warn=True)),
        ("a missing file of the bag itself in the first line", ['data/z hb\n', 'data/f hb\n', 'data/d/g hb\n'], fails(err=True)),
        ("a path listed twice", ['data/f hb\n', 'data/d/g hb\n', 'data/f b\n'], fails(warn=True)),
    ], {'version': '0.2'}, {'multibag/file-lookup.tsv': ['data/f\thb\n', 'data/d/g\thb\n']}, pay))
    # an unlisted payload file is noticed wherever it comes
    for ver, fname, sep in (('0.4', 'file-lookup.tsv', '\t'), ('0.2', 'group-directory.txt', ' ')):
        every = ['data/.h', 'data/a', 'data/_k', 'data/b', 'data/d/.x', 'data/d/c', 'data/.v/e', 'data/_w/e', 'data/x./e.t', 'data/a_b']
        ws = [("all payload files, hidden ones too, listed", [f + sep + 'hb\n' for f in every], GOOD)]
        for miss in ('data/a', 'data/b', 'data/d/c', 'data/.v/e', 'data/_w/e', 'data/x./e.t', 'data/a_b'):
            ws.append(("the payload file %s, after or before hidden ones, not listed" % miss, [f + sep + 'hb\n' for f in every if f != miss], fails(rec=True)))
        judge(c, r, 'validate_file_lookup', [(what, Bag({}, files={'multibag/' + fname: lines}, payload=every), {'version': ver}, exp) for what, lines, exp in ws])


@rule('C29', 'head-aggregation-info-verdicts',
      "an aggregation-info file that cannot be read as tag file is an error, in profile versions that have it", floor=10)
def head_aginfo(c, r):
    D = 'Multibag-Tag-Directory'
    f = {'multibag/aggregation-info.txt': ['a: b\n']}
    bad = {'version': '0.4', '!': {'_load_tag_file': 'BagError'}}
    judge(c, r, 'validate_aggregation_info', [
        ("a proper aggregation-info file", Bag({}, files=f), {}, GOOD),
        ("no aggregation-info file", Bag({}), {}, GOOD),
        ("no aggregation-info file in the named tag directory", Bag({D: 'mbdir'}, dirs=['data', 'mbdir'], files=f), bad, GOOD),
        ("a malformed aggregation-info file", Bag({}, files=f), bad, fails(err=True)),
        ("a malformed aggregation-info file in the named tag directory",
         Bag({D: 'mbdir'}, dirs=['data', 'mbdir'], files={'mbdir/aggregation-info.txt': ['a\n']}), bad, fails(err=True)),
        ("a malformed aggregation-info file in the last tag directory named",
         Bag({D: ['x', 'mbdir']}, dirs=['data', 'mbdir'], files={'mbdir/aggregation-info.txt': ['a\n']}), bad, fails(err=True)),
        ("a malformed file of a profile version without aggregation-info", Bag({}, files=f), dict(bad, version='0.3'), GOOD),
        ("a malformed file of the first profile version", Bag({}, files=f), dict(bad, version='0.2'), GOOD),
    ])
    an = c.an('HeadBagValidator.validate_aggregation_info', opaque=OPAQUE)
    ld = [e for e in an.events if e.kind == 'call' and e.name.endswith('_load_tag_file')]
    r.ok(ld, an.entry, 'reads', "the aggregation-info file is not read")
    for e in ld:
        for what, bag, path in (("the default tag directory", Bag({}, files=f), 'multibag/aggregation-info.txt'),
                                ("the named tag directory", Bag({D: 'mbdir'}, files={'mbdir/aggregation-info.txt': ['a']}), 'mbdir/aggregation-info.txt')):
            w = bag_world(an, bag, 'HeadBagValidator', {'version': '0.4', 'want': 7, 'results': {1: 1}})
            t = e.args[0]
            p = t.args[2] if t.op == 'call' and t.args[0] in ('.relpath', '.subfspath') and len(t.args) > 2 else t
            r.ok(w.val(p) == path, e, 'reads from ' + what, "the file read is not the aggregation-info file of %s: %s" % (what, show(t)[:120]))


@rule('C29', 'head-missing-parts',
      "the head-bag tests look at a directory or tag file only where it exists, so that a missing one is reported", floor=8)
def head_missing(c, r):
    for meth in ('validate_member_bags', 'validate_file_lookup'):
        an = c.an('HeadBagValidator.' + meth, opaque=OPAQUE, assume=atom(T('truthy', T('param', 'results'))))
        n = 0
        for what, bag in (("a bag without a data directory", Bag({}, dirs=['multibag'], files={'multibag/' + f: ['data/f\ta\n', 'hb\n'] for f in
                           ('member-bags.tsv', 'file-lookup.tsv', 'group-members.txt', 'group-directory.txt')})),
                          ("a bag without a tag directory", Bag({}, dirs=['data'])),
                          ("a bag without tag files", Bag({}))):
            for ver in ('0.2', '0.4'):
                w = bag_world(an, bag, 'HeadBagValidator', {'version': ver, 'want': 7, 'results': {1: 1}})
                for e in an.events:
                    if e.kind != 'call':
                        continue
                    if e.name == 'open_text_file':
                        miss = not isinstance(w.val(T('call', '.open_text_file', e.recv, *e.args[:1])), list)
                    elif e.name in ('subfspath', 'opendir', 'walk', 'listdir', 'scandir') and any(x is const('data') for x in e.args[:1]):
                        miss = not bag.isdir('data')
                    else:
                        continue
                    n += 1
                    if miss:
                        r.ok(w.truth(e.guard) is False, e, '%s %s %s' % (meth, e.name, what),
                             "for %s, what is not there is opened: the validation raises an exception instead of reporting it" % what)
        r.ok(n, an.entry, meth + ' opened', "no tag file is opened")


CHECKS = {
    'HeadBagValidator': {'validate_version': 3, 'validate_reference': 5, 'validate_tag_directory': 1, 'validate_head_version': 3,
                         'validate_head_deprecates': 3, 'validate_baginfo_recs': 5, 'validate_member_bags': 3,
                         'validate_file_lookup': 7, 'validate_aggregation_info': 1},
    'MemberBagValidator': {'validate_bagname': 1, 'validate_as_nonhead': 2},
}


def arg_of(e, i, name):
    if name in e.kw:
        return e.kw[name]
    return e.args[i] if i < len(e.args) else None


def given(t, yes):
    p = T('param', 'results')
    while t.op == 'ite':
        n = restrict(t.args[0], {T('truthy', p): yes, T('isnone', p): not yes})
        if n is not TRUE and n is not FALSE:
            break
        t = t.args[1] if n is TRUE else t.args[2]
    return t


def compose(c, r, cls, must):
    """validate() of a validator: the base tests and each group of tests are applied, into the results returned"""
    groups = CHECKS.get(cls, {})
    an = c.an(cls + '.validate', opaque=OPAQUE + ['BagValidator'] + sorted(groups))
    ret = an.retval()
    for yes in (True, False):
        what = "results are given" if yes else "no results are given"
        res = given(ret, yes)
        if yes:
            r.ok(res is T('param', 'results'), an.entry, 'returned given', "where results are given, these are not what is returned")
        else:
            r.ok(res.op == 'inst' and res.args[0] == 'ValidationResults', an.entry, 'returned new',
                 "where no results are given, no new results are returned")
            if res.op == 'inst':
                w = res.args[2] if len(res.args) > 2 else None
                r.ok(w is T('param', 'want') or w is not None and w.op == 'kw' and w.args[-1] is T('param', 'want'), an.entry,
                     'returned want', "the results returned are not for the kinds of tests wanted: %s" % show(res)[:120])
        calls_ = {}
        for e in an.events:
            if e.kind != 'call':
                continue
            if e.name in groups and e.recv is not None and e.recv.op == 'self':
                calls_.setdefault(e.name, []).append((e, arg_of(e, 1, 'results'), arg_of(e, 2, 'version')))
            elif e.name == 'validate' and e.recv is not None and e.recv.op == 'inst' and e.recv.args[0] == 'BagValidator':
                calls_.setdefault('the BagIt tests', []).append((e, arg_of(e, 1, 'results'), None))
                r.ok(e.recv.args[1:2] == (T('attr', T('self', cls), 'bagpath'),) or e.recv.args[1:2] == (T('attr', T('self', cls), 'target'),),
                     e, 'base target', "the BagIt tests are applied to another bag: %s" % show(e.recv)[:100])
        for g, kinds in list(groups.items()) + [('the BagIt tests', 1)]:
            evs = calls_.get(g, [])
            for ver, bag in must:
                for want in (7, 3, 1, 2, 4):
                    if not want & kinds:
                        continue
                    w = bag_world(an, bag, cls, {'want': want, 'results': {1: 1} if yes else None})
                    hit = [x for x in evs if w.truth(x[0].guard)]
                    if not r.ok(len(hit) == 1, evs[0][0] if evs else an.entry, '%s applied want=%d %s' % (g, want, ver),
                                "%s: %s %s" % (what, g, 'is not applied' if not hit else 'is applied more than once')):
                        continue
                    e, rs, v = hit[0]
                    if rs is None:
                        rs = NONE
                    r.ok(given(rs, yes) is res, e, '%s results %s' % (g, 'given' if yes else 'new'),
                         "%s: what %s finds is not recorded in the results returned" % (what, g))
                    if v is not None:
                        r.ok(w.val(v) == ver or (ver is None and not w.val(v)), e, '%s version %s' % (g, ver),
                             "%s is not applied for the bag's profile version: %s" % (g, show(v)[:100]))
                    elif g != 'the BagIt tests':
                        r.fail(e, '%s version' % g, "%s is not applied for the bag's profile version" % g)


@rule('C29', 'head-all-tests',
      "validating a head bag applies the BagIt tests and every group of head-bag tests, for the profile version the bag "
      "gives, and collects all findings in the results returned", floor=60)
def head_all(c, r):
    V = 'Multibag-Version'
    compose(c, r, 'HeadBagValidator', [('0.4', Bag({V: '0.4'})), ('0.2', Bag({V: ['0.4', '0.2']})), (None, Bag({}))])


def own_results(c, r, cls, meth):
    """one group of tests called without results: everything is recorded in the results returned"""
    an = c.an('%s.%s' % (cls, meth), opaque=OPAQUE)
    ret = given(an.retval(), False)
    r.ok(ret.op == 'inst' and ret.args[0] == 'ValidationResults', an.entry, meth + ' new', "no results are returned where none are given")
    if ret.op == 'inst':
        r.ok(len(ret.args) > 2 and ret.args[2] is T('param', 'want') or any(
            x.op == 'kw' and T('param', 'want') in x.args for x in ret.args[1:] if isinstance(x, Term)), an.entry, meth + ' want',
            "the results returned are not for the kinds of tests wanted: %s" % show(ret)[:120])
    r.ok(given(an.retval(), True) is T('param', 'results'), an.entry, meth + ' given', "the results given are not returned")
    for e in an.events:
        if e.kind == 'call' and e.name in KINDS and e.recv is not None:
            for yes in (True, False):
                g = restrict(e.guard, {T('truthy', T('param', 'results')): yes, T('isnone', T('param', 'results')): not yes})
                if g is FALSE:
                    continue
                want = T('param', 'results') if yes else ret
                r.ok(given(e.recv, yes) is want, e, '%s recorded' % meth, "a finding is not recorded in the results returned: %s" % show(e.recv)[:100])


@rule(['C29', 'C30'], 'own-results', "each group of tests records its findings in the results given, or else in new ones it returns", floor=30)
def own(c, r):
    for cls, groups in CHECKS.items():
        for g in groups:
            own_results(c, r, cls, g)
    own_results(c, r, 'BagValidator', 'validate')


@rule('C30', 'bagit-verdict',
      "a bag that the BagIt library finds invalid, or cannot validate, is recorded as an error; a valid one is not", floor=6)
def bag_verdict(c, r):
    judge(c, r, 'validate', [
        ("a valid bag", Bag({}), {}, GOOD),
        ("a valid bag where only errors are wanted", Bag({}), {'want': 1}, GOOD),
        ("an invalid bag", Bag({}), {'!': {'validate': 'BagValidationError'}}, fails(err=True)),
        ("an invalid bag where problems are wanted", Bag({}), {'want': 3, '!': {'validate': 'BagValidationError'}}, fails(err=True)),
        ("an invalid bag where only errors are wanted", Bag({}), {'want': 1, '!': {'validate': 'BagValidationError'}}, fails(err=True)),
        ("a bag that cannot be validated", Bag({}), {'!': {'validate': 'BagError'}}, fails(err=True)),
    ], cls='BagValidator')
    an = c.an('BagValidator.validate', opaque=OPAQUE)
    v = [e for e in an.events if e.kind == 'call' and e.name == 'validate' and e.recv is T('attr', T('self', 'BagValidator'), 'bag')]
    r.ok(v, an.entry, 'validates', "the bag is not validated")
    for e in v:
        r.ok(not e.args and not e.kw, e, 'complete validation', "the bag is validated with restrictions: %s" % [show(x) for x in e.args])


@rule('C30', 'member-verdicts',
      "for every class of member bags the member tests fail exactly where the profile is not met: names with tabs or outer "
      "white space, head-bag elements in a bag that is not a head bag, a missing profile version", floor=30)
def member_verdicts(c, r):
    bag = lambda n: Bag({}, name=n)
    ws = [("an ordinary name", bag('my.bag-1'), {}, GOOD), ("a name with a space inside", bag('my bag'), {}, GOOD),
          ("a name with a tab", bag('my\tbag'), {}, fails(err=True)), ("a name that starts with a space", bag(' bag'), {}, fails(err=True)),
          ("a name that ends with a space", bag('bag '), {}, fails(err=True)), ("a name that starts with a tab", bag('\tbag'), {}, fails(err=True)),
          ("a name that ends with spaces", bag('bag  '), {}, fails(err=True)),
          ("a name with a tab, of the first profile version", bag('my\tbag '), {'version': '0.2'}, GOOD),
          ("a name with a tab, of the third profile version", bag('my\tbag'), {'version': '0.3'}, fails(err=True))]
    for x in '\n', '\r', '\x0b', '\x0c', '\x85', '\u00a0', '\u2003', '\u3000', ' \n', '\u00a0\u00a0':
        ws += [("a name that starts with %r" % x, bag(x + 'bag'), {}, fails(err=True)), ("a name that ends with %r" % x, bag('bag' + x), {}, fails(err=True)),
               ("a name with %r inside" % x, bag('my' + x + 'bag'), {}, GOOD)]
    judge(c, r, 'validate_bagname', ws, cls='MemberBagValidator')
    D, P = 'Multibag-Tag-Directory', 'Multibag-Head-Deprecates'
    no = dict(dirs=['data'], head=False)
    judge(c, r, 'validate_as_nonhead', [
        ("a plain member bag", Bag({}, **no), {}, GOOD),
        ("a head bag", Bag({D: 'multibag', P: '1'}), {}, GOOD),
        ("a member bag that deprecates a version", Bag({P: '1'}, **no), {}, fails(warn=True)),
        ("a member bag that deprecates an empty version", Bag({P: ''}, **no), {}, fails(warn=True)),
        ("a member bag that names a tag directory", Bag({D: 'mbdir'}, **no), {}, fails(warn=True)),
        ("a member bag with the default tag directory", Bag({}, dirs=['data', 'multibag'], head=False), {}, fails(warn=True)),
        ("a member bag with the default tag directory and an empty name for it", Bag({D: ''}, dirs=['data', 'multibag'], head=False), {}, fails(warn=True)),
    ], cls='MemberBagValidator')
    # the directories named are looked for, besides the element itself being reported
    an = c.an('MemberBagValidator.validate_as_nonhead', opaque=OPAQUE, assume=atom(T('truthy', T('param', 'results'))))
    for what, b, n in (("the named tag directory", Bag({D: 'mbdir'}, dirs=['data', 'mbdir'], head=False), 2),
                       ("the first of two named tag directories", Bag({D: ['mbdir', 'x']}, dirs=['data', 'mbdir'], head=False), 2),
                       ("the second of two named tag directories", Bag({D: ['x', 'mbdir']}, dirs=['data', 'mbdir'], head=False), 2)):
        w = bag_world(an, b, 'MemberBagValidator', {'want': 7, 'version': '0.4', 'results': {1: 1}})
        got = verdicts(an, w)['warn']
        r.ok(sum(1 for e, ok in got if ok is False) >= n, an.entry, what, "a member bag with %s is not reported as such" % what)


@rule('C30', 'member-all-tests',
      "validating a member bag applies the BagIt tests and, where it gives a profile version, the tests of its name and of "
      "head-bag elements, and collects all findings in the results returned", floor=20)
def member_all(c, r):
    V = 'Multibag-Version'
    compose(c, r, 'MemberBagValidator', [('0.4', Bag({V: '0.4'})), ('0.2', Bag({V: ['0.4', '0.2']}))])
    an = c.an('MemberBagValidator.validate', opaque=OPAQUE + ['BagValidator'] + sorted(CHECKS['MemberBagValidator']))
    for what, b, exp in (("a profile version", Bag({V: '0.4'}), False), ("two profile versions", Bag({V: ['0.3', '0.4']}), False),
                         ("no profile version", Bag({}), True), ("an empty profile version", Bag({V: ''}), True)):
        w = bag_world(an, b, 'MemberBagValidator', {'want': 7, 'results': {1: 1}})
        got = verdicts(an, w)
        bad = [e for e, ok in got['rec'] if ok is False]
        unk = [e for k in KINDS.values() for e, ok in got[k] if ok is None]
        r.ok(bool(bad) == exp and not unk, an.entry, 'version: ' + what, "a member bag with %s is %s" % (what, "not reported" if exp else "reported"))
        r.ok(not [e for k in ('err', 'warn') for e, ok in got[k] if ok is False], an.entry, 'version not required: ' + what,
             "a member bag with %s is reported as more than a recommendation not followed" % what)


# ------------------------------------------------------------------ the results

def spec(results, what, mask):
    """what the accessors of the results are to give"""
    out = [i for k in (1, 2, 4) if k & mask for i in results[k]]
    if 'failed' in what:
        out = [i for i in out if not i['_passed']]
    if 'passed' in what:
        out = [i for i in out if i['_passed']]
    return len(out) if what.startswith('count') else out


ACCESS = ('applied', 'failed', 'passed', 'count_applied', 'count_failed', 'count_passed')


def results_world(an, results, params, selfterm=None, want=7, ok=None):
    me = selfterm or T('self', 'ValidationResults')
    env = {T('attr', me, 'results'): results, T('attr', me, 'want'): want}
    for k, v in params.items():
        env[T('param', k)] = v
        env[T('arg', k)] = v

    def ext(t, s):
        o, a = t.op, t.args
        if o in ('call', 'bcall') and len(a) > 1 and isinstance(a[1], Term):
            n = a[0][1:]
            if a[1] is me and n in ACCESS:
                rest = [x for x in a[2:]]
                m = 7
                if rest:
                    x = rest[0]
                    m = s.val(x.args[-1] if x.op == 'kw' else x)
                return UNKNOWN if not isinstance(m, int) else spec(results, n, m)
            if a[1] is me and n == 'ok' and len(a) == 2:
                return spec(results, 'count_failed', want) == 0
            if n in ('passed', 'failed') and len(a) == 2:
                v = s.val(a[1])
                if isinstance(v, Inst):
                    return v['_passed'] if n == 'passed' else not v['_passed']
        return UNKNOWN
    return World(env, None, ext, an)


def issue(n, ok):
    return Inst(_lab=n, _passed=ok)


def result_sets():
    P, X = True, False
    shapes = [((), (), ()), ((P,), (P,), (P,)), ((X,), (P,), (P,)), ((P,), (X,), (P,)), ((P,), (P,), (X,)), ((X, P, X), (P, X), (X,)),
              ((), (X,), ()), ((), (), (X,)), ((P, P, X), (), ()), ((X, X), (X, X), (X, X))]
    for e, w, x in shapes:
        yield {1: [issue('e%d' % i, v) for i, v in enumerate(e)], 2: [issue('w%d' % i, v) for i, v in enumerate(w)],
               4: [issue('r%d' % i, v) for i, v in enumerate(x)]}


def names(v):
    return sorted(i['_lab'] for i in v) if isinstance(v, list) else v


@rule('C28', 'results-accessors',
      "the accessors of the results give the tests of exactly the kinds asked for, those failed or passed, and their number", floor=400)
def accessors(c, r):
    for what in ACCESS:
        an = c.an('ValidationResults.' + what)
        for k, rs in enumerate(result_sets()):
            for mask in range(8):
                w = results_world(an, rs, {'issuetype': mask})
                v = w.val(an.retval())
                exp = spec(rs, what, mask)
                r.ok(names(v) == names(exp), an.entry, '%s %d %d' % (what, k, mask),
                     "asked for tests of kinds %d, %s() does not give what was recorded: %s" % (mask, what, show(an.retval())[:120]))
        d = default_of(c, an, 'issuetype')
        r.ok(d == 7, an.entry, what + ' default', "without a kind given, %s() does not consider all kinds of tests: %s" % (what, d))
        r.ok(not writes_self(an), an.entry, what + ' pure', "asking for the tests changes the results")


def default_of(c, an, name):
    """the value of a parameter's default"""
    a = an.entry.node.args
    ps = (a.posonlyargs if hasattr(a, 'posonlyargs') else []) + a.args
    ds = dict(zip([p.arg for p in ps][len(ps) - len(a.defaults):], a.defaults))
    ds.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    d = ds.get(name)
    return None if d is None else an.constant(d)


def writes_self(an):
    out = []
    for e in an.events:
        if e.kind in ('setattr', 'mutate', 'store', 'del') and e.recv is not None:
            t = e.recv
            if t.op != 'obj' and any(x.op == 'self' for x in subterms(t)):
                out.append(e)
        if e.kind == 'aug' and any(v.op in ('index', 'attr', 'elem') and any(x.op == 'self' for x in subterms(v))
                                   for g, v in cases(e.recv)):
            out.append(e)
    return out


@rule('C28', 'results-ok', "the results are all right exactly when no test of the kinds wanted failed", floor=60)
def results_ok(c, r):
    an = c.an('ValidationResults.ok')
    for k, rs in enumerate(result_sets()):
        for want in range(8):
            w = results_world(an, rs, {}, want=want)
            v = w.val(an.retval())
            r.ok(v is (spec(rs, 'count_failed', want) == 0), an.entry, 'ok %d %d' % (k, want),
                 "whether the results are all right does not follow from the tests of the kinds wanted (%d) that failed: %s" %
                 (want, show(an.retval())[:120]))


@rule('C28', 'results-record',
      "recording a test keeps it under its kind, once, with its label, whether it passed and its comments, and marks the "
      "test itself accordingly", floor=30)
def record(c, r):
    iss = T('param', 'issue')
    for m, k in (('_err', 1), ('_warn', 2), ('_rec', 4)):
        an = c.an('ValidationResults.' + m, inline=['add_comment'])
        where = T('index', T('attr', T('self', 'ValidationResults'), 'results'), const(k))
        adds = [e for e in an.events if e.kind == 'mutate' and e.recv is not None and
                any(attr_of(x, 'results') for x in subterms(e.recv)) and e.name in ('append', 'insert', 'extend', '+=')]
        ok = [e for e in adds if e.recv is where and e.name == 'append' and e.guard is TRUE and not e.loops]
        r.ok(len(adds) == 1 and len(ok) == 1, adds[0] if adds else an.entry, m + ' kept', "the test is not recorded once under its kind")
        marks = [e for e in an.events if e.kind == 'setattr' and e.recv is iss and e.name == '_passed']
        r.ok(marks and marks[-1].guard is TRUE and is_truth(marks[-1].args[0]), marks[-1] if marks else an.entry, m + ' marked',
             "the test is not marked as passed or failed as it did")
        for e in ok:
            v = e.args[0]
            if v is iss:
                r.ok(True, e, m + ' value', '')
                continue
            if not r.ok(v.op == 'inst' and v.args[0] == 'ValidationIssue', e, m + ' value', "what is recorded is not the test: %s" % show(v)[:100]):
                continue
            last = {}
            for x in an.events:
                if x.kind == 'setattr' and x.recv is v:
                    last[x.name] = x
            chk = {'_passed': is_truth, '_lab': lambda t: t is T('attr', iss, '_lab') or t is T('attr', iss, 'label'),
                   '_type': lambda t: t is const(k), '_spec': lambda t: t in (T('attr', iss, '_spec'), T('attr', iss, 'specification')),
                   '_pver': lambda t: t in (T('attr', iss, '_pver'), T('attr', iss, 'profile_version'))}
            for n, f in chk.items():
                x = last.get(n)
                r.ok(x is not None and x.guard is TRUE and f(x.args[0]), x or e, m + ' ' + n,
                     "the test recorded does not have the %s of the test: %s" % (n.strip('_'), show(x.args[0])[:80] if x is not None else None))
            x = last.get('_comm')
            r.ok(x is not None, e, m + ' comments', "the test recorded has no comments")
            if x is not None:
                cm = x.args[0]
                ev = [y for y in an.events if y.kind == 'mutate' and y.recv is cm] if cm.op == 'obj' else []
                src = [cm] + [z for y in ev for z in y.args]
                r.ok(any(t in (T('attr', iss, 'comments'), T('attr', iss, '_comm')) for z in src for t in subterms(z)), x, m + ' keeps comments',
                     "the test recorded does not have the comments of the test")
        com = [e for e in an.events if e.kind == 'mutate' and e.recv is T('attr', iss, '_comm') or
               e.kind == 'call' and e.name == 'add_comment' and e.recv is iss]
        got = FALSE
        for e in com:
            g = e.guard
            got = f_or(got, g)
        p = T('param', 'comments')
        r.ok(com and implies(atom(T('truthy', p)), f_or(got, f_not(some_sequence(got, p)))), com[0] if com else an.entry, m + ' adds comments',
             "comments given are not added to the test")


def some_sequence(node, p):
    """the comments are a string, a list, or another sequence"""
    out = f_or(*[atom(a) for a in support(node) if a.op == 'isinstance' and a.args[0] is p]) if node is not FALSE else TRUE
    return out


def is_truth(t):
    p = T('param', 'passed')
    return t.op == 'F' and t.args[0] is atom(T('truthy', p)) or t.op in ('call', 'bcall') and t.args == ('.passed', T('param', 'issue')) or \
        t is T('attr', T('param', 'issue'), '_passed')


@rule('C28', 'issue-state', "a test says that it passed or failed as it was marked, and has the kind it was given", floor=6)
def issue_state(c, r):
    me = T('self', 'ValidationIssue')
    for m, neg in (('passed', False), ('failed', True)):
        an = c.an('ValidationIssue.' + m)
        for ok in (True, False):
            def ext(t, s):
                if t.op in ('call', 'bcall') and t.args[1:] == (me,) and t.args[0] in ('.passed', '.failed'):
                    return ok if t.args[0] == '.passed' else not ok
                return UNKNOWN
            v = World({T('attr', me, '_passed'): ok}, None, ext, an).val(an.retval())
            r.ok(v is (ok != neg), an.entry, '%s %s' % (m, ok), "a test that %s says otherwise: %s" % ('passed' if ok else 'failed', show(an.retval())[:80]))
    an = c.an('ValidationIssue.__init__')
    st = {}
    for e in an.events:
        if e.kind == 'setattr' and e.recv is not None and e.recv.op == 'self':
            st[e.name] = e
    for n, p in (('_passed', 'passed'), ('_lab', 'idlabel'), ('_type', 'issuetype'), ('_spec', 'spec')):
        e = st.get(n)
        r.ok(e is not None and any(x.op in ('param', 'arg') and x.args[-1] == p for x in subterms(e.args[0])), e or an.entry, 'init ' + n,
             "a new test does not have the %s it was given" % p)
    an = c.an('ValidationResults._issue')
    v = an.retval()
    r.ok(v.op == 'inst' and v.args[0] == 'ValidationIssue' and v.args[1] is T('param', 'label'), an.entry, 'new issue',
         "no test with the label given is made: %s" % show(v)[:100])
    st = dict((e.name, e) for e in an.events if e.kind == 'setattr' and e.recv is v)
    for n, want in (('_lab', T('param', 'label')), ('_spec', T('param', 'message')), ('_pver', T('attr', T('self', 'ValidationResults'), 'defversion'))):
        r.ok(n in st and st[n].args[0] is want and st[n].guard is TRUE, st.get(n, an.entry), 'new issue ' + n,
             "a test made for results does not have their %s: %s" % ({'_pver': 'profile version'}.get(n, n.strip('_')), show(st[n].args[0])[:80] if n in st else None))
    # only the three kinds there are
    an = c.an('ValidationIssue.__init__')
    for kind, ok in ((1, True), (2, True), (4, True), (0, False), (3, False), (7, False), (8, False)):
        w = World({T('param', 'issuetype'): kind, T('param', 'comments'): None}, form_facts, None, an)
        rs = [e for e in an.events if e.kind == 'raise']
        hit = [w.truth(e.guard) for e in rs]
        r.ok((not any(x is not False for x in hit)) if ok else any(x is True for x in hit), rs[0] if rs else an.entry, 'kind %d' % kind,
             "a test of the kind %d is %s" % (kind, 'refused' if ok else 'not refused'))


COMMENTS = [(None, []), ('', []), ([], []), ('one', ['one']), (['a', 'bc'], ['a', 'bc']), (('a', 'bc'), ['a', 'bc']), (['x'], ['x'])]


def form_facts(a, s):
    if a.op == 'isinstance':
        n = {'str': str, 'unicode': str, 'list': list, 'tuple': tuple, 'Sequence': (list, tuple, str), 'Iterable': (list, tuple, str)}.get(str(a.args[1]).split('.')[-1])
        v = s.val(a.args[0])
        return isinstance(v, n) if n and v is not UNKNOWN else None
    return None


@rule('C28', 'issue-comments', "a test has the comments it was made with, whether one, several or none were given, and recording it adds those given then, in order", floor=20)
def issue_comments(c, r):
    me = T('self', 'ValidationIssue')
    an = c.an('ValidationIssue.__init__')
    for v, want in COMMENTS:
        for kind in (1, 2, 4):
            w = World({T('param', 'comments'): v, T('param', 'issuetype'): kind}, form_facts, None, an)
            es = [e for e in an.events if e.kind == 'setattr' and e.recv is me and e.name == '_comm' and w.truth(e.guard) is not False]
            got = w.val(es[-1].args[0]) if es else UNKNOWN
            r.ok(got is not UNKNOWN and got is not None and list(got) == want, es[-1] if es else an.entry, 'comments given as %r' % (v,),
                 "a test made with the comments %r has %r" % (v, got))
    an = c.an('ValidationIssue.comments')
    got = World({T('attr', me, '_comm'): ['a', 'b']}, form_facts, None, an).val(an.retval())
    r.ok(got is not UNKNOWN and got is not None and list(got) == ['a', 'b'], an.entry, 'comments', "the comments of a test are %s" % show(an.retval())[:80])
    an = c.an('ValidationIssue.add_comment')
    es = [e for e in an.events if e.kind == 'mutate' and e.recv is T('attr', me, '_comm')]
    r.ok(len(es) == 1 and es[0].name == 'append' and es[0].guard is TRUE and World({T('param', 'text'): 'x'}, form_facts, None, an).val(es[0].args[0]) == 'x',
         es[0] if es else an.entry, 'add_comment', "adding a comment does not put it after the others")
    iss = T('param', 'issue')
    post = ('o', 'n1', 'n2')
    for m in ('_err', '_warn', '_rec'):
        an = c.an('ValidationResults.' + m)
        adds = [e for e in an.events if e.kind == 'mutate' and e.recv is T('attr', iss, '_comm') or e.kind == 'call' and e.name == 'add_comment' and e.recv is iss]
        for v, want in COMMENTS:
            w = World({T('param', 'comments'): v}, form_facts, None, an)
            got = []
            for e in adds:
                sts = w.states(e)
                if sts is None:
                    if w.truth(e.guard) is not False:
                        got = UNKNOWN
                        break
                    continue
                for s in sts:
                    g = s.truth(e.guard)
                    if g is False:
                        continue
                    x = s.val(e.args[0]) if g else UNKNOWN
                    if x is UNKNOWN or x is None:
                        got = UNKNOWN
                        break
                    got += list(x) if e.name in ('extend', '+=') else [x]
                if got is UNKNOWN:
                    break
            r.ok(got == want, adds[0] if adds else an.entry, '%s with the comments %r' % (m, v), "recording a test with the comments %r adds %r" % (v, got))
        kept = [e for e in an.events if e.kind == 'mutate' and e.name == 'append' and e.args and e.args[0].op == 'inst']
        w = World({T('attr', iss, 'comments'): post, T('attr', iss, '_comm'): list(post)}, form_facts, None, an)
        for k in kept:
            es = [e for e in an.events if e.kind == 'setattr' and e.recv is k.args[0] and e.name == '_comm']
            got = w.val(es[-1].args[0]) if es else UNKNOWN
            r.ok(got is not UNKNOWN and got is not None and list(got) == list(post), es[-1] if es else k, m + ' comments kept',
                 "the test kept does not have all comments of the test recorded: %r of %r" % (got, post))
            if adds and es:
                at = [i for i, e in enumerate(an.events) if e is es[-1]][0]
                r.ok(all(i < at for i, e in enumerate(an.events) if e in adds), es[-1], m + ' comments order', "the comments given are added after the test has been copied")


@rule('C28', 'issue-export', "a test exported as a tuple and imported again has the same kind, profile version, label, specification, outcome and comments, and its JSON form has them", floor=20)
def issue_export(c, r):
    me = T('self', 'ValidationIssue')
    for kind, lab in ((1, 'error'), (2, 'warning'), (4, 'recommendation')):
        for passed in (True, False):
            for comm in ([], ['c1', 'c2']):
                env = {'_type': kind, '_pver': '0.3', '_lab': '4.1-2', '_spec': 'must be so', '_passed': passed, '_comm': comm}
                full = dict((T('attr', me, k), v) for k, v in env.items())
                for a, b in (('type', '_type'), ('profile_version', '_pver'), ('label', '_lab'), ('specification', '_spec')):
                    full[T('attr', me, a)] = env[b]
                full[T('attr', me, 'comments')] = tuple(comm)
                for m in ('.passed', '.failed'):
                    for o in ('call', 'bcall'):
                        full[T(o, m, me)] = passed if m == '.passed' else not passed
                tag = 'kind %d, %s, %d comments' % (kind, 'passed' if passed else 'failed', len(comm))
                an = c.an('ValidationIssue.to_tuple')
                tup = World(full, form_facts, None, an).val(an.retval())
                if r.ok(isinstance(tup, (tuple, list)), an.entry, 'to_tuple: ' + tag, "the tuple for a test is %s" % show(an.retval())[:100]):
                    an2 = c.an('ValidationIssue.from_tuple')
                    ret = an2.retval()
                    w = World({T('param', 'data'): tuple(tup)}, form_facts, None, an2)
                    got = {}
                    for e in an2.events:
                        if e.kind == 'setattr' and e.recv is ret and w.truth(e.guard) is not False:
                            v = w.val(e.args[0])
                            got[e.name] = list(v) if isinstance(v, tuple) else v
                    for k, v in env.items():
                        r.ok(got.get(k, UNKNOWN) == v, an2.entry, 'from_tuple %s: %s' % (k, tag),
                             "the %s of a test that was exported, %r, is read back as %r" % (k.strip('_'), v, got.get(k)))
                an = c.an('ValidationIssue.to_json_obj')
                d = World(full, form_facts, None, an).val(an.retval())
                if r.ok(isinstance(d, dict), an.entry, 'to_json_obj: ' + tag, "the JSON form of a test is %s" % show(an.retval())[:100]):
                    for k, v in (('type', lab), ('profile_name', 'multibag'), ('profile_version', '0.3'), ('label', '4.1-2'), ('spec', 'must be so'), ('comments', comm)):
                        x = d.get(k)
                        r.ok((list(x) if isinstance(x, tuple) else x) == v, an.entry, 'to_json_obj %s: %s' % (k, tag), "the JSON form of a test has %s %r" % (k, x))


@rule('C28', 'issue-text', "the summary of a test shows its kind if it failed, or that it passed, its profile version, label and specification; its description also all comments in order", floor=20)
def issue_text(c, r):
    me = T('self', 'ValidationIssue')
    for kind, lab in ((1, 'ERROR'), (2, 'WARNING'), (4, 'RECOMMENDATION')):
        for passed in (True, False):
            for spec_ in ('must be so', ''):
                env = {T('attr', me, k): v for k, v in (('_type', kind), ('type', kind), ('_pver', '0.3'), ('profile_version', '0.3'), ('_lab', '4.1-2'), ('label', '4.1-2'),
                                                        ('_spec', spec_), ('specification', spec_), ('_passed', passed))}
                for m in ('.passed', '.failed'):
                    for o in ('call', 'bcall'):
                        env[T(o, m, me)] = passed if m == '.passed' else not passed
                an = c.an('ValidationIssue.summary')
                got = World(env, form_facts, None, an).val(an.retval())
                tag = 'kind %d, %s%s' % (kind, 'passed' if passed else 'failed', '' if spec_ else ', no specification')
                if r.ok(isinstance(got, str), an.entry, 'summary: ' + tag, "the summary of a test does not follow from the code: %s" % show(an.retval())[:100]):
                    want = ['PASSED' if passed else lab, '0.3', '4.1-2'] + ([spec_] if spec_ else [])
                    r.ok(all(x in got for x in want) and (passed or 'PASSED' not in got) and not any(x in got for x in ('ERROR', 'WARNING', 'RECOMMENDATION') if passed or x != lab),
                         an.entry, 'summary shows: ' + tag, "the summary of a test of %s is %r" % (tag, got))
    an = c.an('ValidationIssue.description')
    for comm in ([], ['c1'], ['c1', 'c2', 'c3']):
        env = {T('attr', me, '_comm'): comm, T('attr', me, 'comments'): tuple(comm), T('attr', me, 'summary'): 'SUM'}
        got = World(env, form_facts, None, an).val(an.retval())
        words = got.split() if isinstance(got, str) else got
        r.ok(words == ['SUM'] + comm, an.entry, 'description with %d comments' % len(comm), "the description of a test with the comments %s is %r" % (comm, got))


@rule('C28', 'error-text', "the error raised for results names the one test that failed, with its comments as details, or the number of tests that failed, with their descriptions as details", floor=6)
def error_text(c, r):
    rs = T('self', 'ValidationResults')
    an = c.an('MultibagValidationError.__init__', args={'results': rs})
    sup = [e for e in an.events if e.kind == 'call' and e.name in ('super.__init__', '__init__')]
    if not r.ok(len(sup) == 1 and sup[0].args, sup[0] if sup else an.entry, 'made', "the error is not made with a message"):
        return
    e = sup[0]
    P, X = True, False
    for shape in (((X,), (), ()), ((P, X), (P,), ()), ((), (X,), (P,)), ((X, X), (P, P), ()), ((X, P), (X,), ()), ((P,), (X, X, P), (P,)), ((X, X, X), (X, X), ()),
                  ((), (P,), (X,)), ((X,), (), (X,)), ((), (), (X, P, X)), ((X,), (X,), (X,))):
        res = {k: [Inst(_lab='%d%d' % (k, i), _passed=v, summary='S%d%d' % (k, i), description='D%d%d' % (k, i), comments=('c%d%d' % (k, i), 'd'))
                   for i, v in enumerate(vs)] for k, vs in zip((1, 2, 4), shape)}
        w = results_world(an, res, {}, rs, want=3)
        bad = [i for k in (1, 2, 4) for i in res[k] if not i['_passed']]
        msg = w.val(e.args[0])
        d = e.args[1] if len(e.args) > 1 else e.kw.get('details') if hasattr(e, 'kw') else None
        det = w.val(d) if d is not None else UNKNOWN
        key = 'failed %s' % ', '.join(i['_lab'] for i in bad)
        if not r.ok(isinstance(msg, str) and isinstance(det, (list, tuple)), e, key + ' known', "the text of the error for results with %d failed tests does not follow from the code" % len(bad)):
            continue
        if len(bad) == 1:
            r.ok(bad[0]['summary'] in msg and list(det) == list(bad[0]['comments']), e, key, "the error for one failed test is %r with %r" % (msg, det))
        else:
            r.ok(str(len(bad)) in msg.split() and list(det) == [i['description'] for i in bad], e, key, "the error for %d failed tests is %r with %r" % (len(bad), msg, det))


@rule('C28', 'valid-or-raise',
      "a validator says a bag is valid exactly when the results for the kinds wanted are all right, and the validation "
      "functions raise, with the results, exactly when they are not", floor=14)
def valid_or_raise(c, r):
    me = T('self', 'Validator')
    res = [T('call', '.validate', me, T('param', 'want'))]
    res.append(T('call', '.validate', me, T('kw', 'want', T('param', 'want'))))
    for m in ('is_valid', 'ensure_valid'):
        an = c.an('Validator.' + m)
        rt = [x for x in res if any(contains(e.recv, x) or any(contains(a, x) for a in e.args) for e in an.events if e.recv is not None)]
        if not r.ok(rt, an.entry, m + ' validates', "the bag is not validated for the kinds of tests wanted"):
            continue
        for ok, rs in ((True, (True, True)), (False, (False, True)), (False, (True, False)), (False, (False, False))):
            w = results_world(an, {1: [issue('e', rs[0])], 2: [issue('w', rs[1])], 4: [issue('r', False)]}, {'want': 3}, rt[0], want=3)
            w.env[rt[0]] = Inst()
            if m == 'is_valid':
                r.ok(w.val(an.retval()) is ok, an.entry, 'is_valid %s' % ok, "is_valid() does not say so for %s results: %s" % (
                    'good' if ok else 'bad', show(an.retval())[:80]))
                continue
            rs = [e for e in an.events if e.kind == 'raise']
            hit = [e for e in rs if w.truth(e.guard)]
            r.ok(bool(hit) != ok and all(w.truth(e.guard) is not None for e in rs), rs[0] if rs else an.entry, 'ensure_valid %s' % ok,
                 "ensure_valid() %s for %s results" % ('raises' if ok else 'does not raise', 'good' if ok else 'bad'))
            for e in hit:
                r.ok(e.args and e.args[0].op == 'inst' and e.args[0].args[0] == 'MultibagValidationError' and rt[0] in e.args[0].args,
                     e, 'raised', "what is raised does not carry the results: %s" % show(e.args[0] if e.args else NONE)[:80])
    an = c.an('MultibagValidationError.__init__')
    st = [e for e in an.events if e.kind == 'setattr' and e.name == 'results']
    r.ok(st and st[-1].args[0] is T('param', 'results') and st[-1].guard is TRUE, st[-1] if st else an.entry, 'error results',
         "the error does not carry the results")
    for mod, cls in (('multibag.validate.headbag', 'HeadBagValidator'), ('multibag.validate.member', 'MemberBagValidator')):
        an = c.an('%s:validate' % mod, opaque=[cls])
        ev = [e for e in an.events if e.kind == 'call' and e.name == 'ensure_valid' and e.recv is not None and
              e.recv.op == 'inst' and e.recv.args[:2] == (cls, T('param', 'bagpath'))]
        r.ok(len(ev) == 1 and ev[0].guard is TRUE, ev[0] if ev else an.entry, mod + ' raises',
             "the validation function does not ensure that the bag is valid")
        for e in ev:
            w = arg_of(e, 0, 'want')
            r.ok(w is T('param', 'want'), e, mod + ' want', "the kinds of tests wanted are not passed on")
        an = c.an(cls + '.__init__')
        st = [e for e in an.events if e.kind == 'setattr' and e.name == 'bag']
        r.ok(st and any(call_of(x, 'open_bag', 'bagit.open_bag', 'multibag.access.bagit.open_bag') or x.op == 'call' and x.args[0].endswith('open_bag')
                        for x in [st[-1].args[0]]), st[-1] if st else an.entry, cls + ' bag', "the bag validated is not the one at the path given")
