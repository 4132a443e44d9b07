"""rules for the multibag tag files and the in-memory state of a head bag"""
from ..query import *
from ..shapes import Shape, UNKNOWN
from ..worlds import World
from ..terms import TRUE, FALSE, NONE

SELF = T('self', 'HeadBag')
ROOT = T('attr', SELF, '_bagdir')
TAGDIR = T('attr', SELF, 'multibag_tag_dir')
MEMBERS, LOOKUP, DELETED = [T('attr', SELF, n) for n in ('_memberbags', '_filelu', '_deleted')]
MOD = 'multibag.access.multibag'


# ------------------------------------------------------------------ fields of a line

def unstrip(t, chars=' \t\r\n'):
    """t without surrounding calls that take only blanks off its ends"""
    while call_of(t, '.strip', '.lstrip', '.rstrip') and \
            (len(t.args) == 2 or (is_const(t.args[2]) and isinstance(cval(t.args[2]), str) and
                                  all(c in chars for c in cval(t.args[2])))):
        t = t.args[1]
    return t


def split_of(t, line, sep):
    """t is the list of fields of the (stripped) line"""
    if sep == 'tab':
        if not (call_of(t, '.split') and len(t.args) == 3 and is_const(t.args[2]) and cval(t.args[2]) == '\t'):
            return False
        return unstrip(t.args[1]) is line
    if call_of(t, '.split') and len(t.args) == 2:
        return unstrip(t.args[1]) is line
    if call_of(t, '.split', 're.split') and len(t.args) == 3 and unstrip(t.args[2]) is line:
        p = t.args[1]
        if call_of(p, 're.compile'):
            p = p.args[1]
        return is_const(p) and cval(p) in (' +', r'\s+', r'[ ]+', r'[ \t]+', ' {1,}')
    return False


class Fields(object):
    """evaluates terms over the fields of a line that has n fields; the last one marks a comment iff hash"""

    def __init__(self, line, sep, n, hash, empty=False):
        self.line, self.sep, self.n, self.hash, self.empty = line, sep, n, hash, empty

    def idx(self, t):
        t = unstrip(t)
        if t.op == 'index' and split_of(t.args[0], self.line, self.sep) and is_const(t.args[1]):
            i = cval(t.args[1])
            i = i + self.n if i < 0 else i
            return i if 0 <= i < self.n else None
        return None

    def atom(self, a):
        if a.op == 'lt' and a.args[0].op == 'len' and split_of(a.args[0].args[0], self.line, self.sep) and \
                is_const(a.args[1]):
            return self.n < cval(a.args[1])
        if a.op == 'eq':
            for x, y in (a.args, a.args[::-1]):
                if x.op == 'len' and split_of(x.args[0], self.line, self.sep) and is_const(y):
                    return self.n == cval(y)
                if is_const(y) and cval(y) == '' and self.idx(x) is not None:
                    return self.empty and self.idx(x) == 0
                if self.idx(x) is not None and call_of(y, '.get') is False and is_const(y) and cval(y) == '#':
                    return None
        if a.op == 'startswith' and is_const(a.args[1]) and cval(a.args[1]) == '#' and self.idx(a.args[0]) is not None:
            return self.hash and self.idx(a.args[0]) == self.n - 1
        if a.op == 'eq' and any(is_const(x) and cval(x) == '#' for x in a.args):
            for x in a.args:
                if x.op in ('slice', 'index') and self.idx(x.args[0]) is not None:
                    return self.hash and self.idx(x.args[0]) == self.n - 1
        if a.op == 'truthy':
            if self.idx(a.args[0]) is not None:
                return not (self.empty and self.idx(a.args[0]) == 0)
            if split_of(a.args[0], self.line, self.sep) or unstrip(a.args[0]) is self.line:
                return True
            if a.args[0].op == 'view':
                v = self.seq(a.args[0])
                return None if v is None else bool(v)
        if a.op == 'isnone' and self.idx(a.args[0]) is not None:
            return False
        return None

    def val(self, t):
        """the field number of t, None for the value None, or the resolved term"""
        for _ in range(20):
            i = find_ite(t)
            if i is None:
                break
            v, left = under_normal(i.args[0], self.atom)
            if v is None:
                return t
            t = rebuild(t, i, i.args[1] if v else i.args[2])
        if t is NONE:
            return None
        i = self.idx(t)
        return t if i is None else i

    def comment(self, t):
        """the field number whose text without the comment mark is t"""
        v = self.val(t)
        if not isinstance(v, Term):
            return v if v is None else 'field %d with its mark' % v
        t = unstrip(v)
        if call_of(t, '.lstrip') and len(t.args) == 3 and is_const(t.args[2]) and cval(t.args[2]) == '#':
            return self.idx(t.args[1])
        if t.op == 'slice' and len(t.args) >= 2 and is_const(t.args[1]) and cval(t.args[1]) == 1 and \
                all(a is NONE for a in t.args[2:]):
            return self.idx(t.args[0])
        if call_of(t, '.split') or t.op == 'replace':
            return t
        return v

    def seq(self, t):
        """the field numbers of a list"""
        for _ in range(20):
            i = find_ite(t)
            if i is None:
                break
            v, left = under_normal(i.args[0], self.atom)
            if v is None:
                return None
            t = rebuild(t, i, i.args[1] if v else i.args[2])
        t = uncopy(t)
        if t.op == 'star':
            return self.seq(t.args[0])
        if t.op == 'view' and split_of(t.args[0], self.line, self.sep):
            f, b = cval(t.args[1]), cval(t.args[2])
            return list(range(f, max(f, self.n - b)))
        if split_of(t, self.line, self.sep):
            return list(range(self.n))
        if t.op in ('list', 'tuple'):
            out = []
            for a in t.args:
                if a.op == 'star':
                    s = self.seq(a)
                    if s is None:
                        return None
                    out += s
                else:
                    out.append(self.val(a))
            return out
        if t.op == 'obj' and t.args[0] in ('list', 'tuple'):
            return []
        if t is NONE:
            return []
        return None


def param(an, name=None, i=0):
    """the term of a parameter of the analysed function (by position, leaving out self/cls)"""
    ps = [p for p in an.params if p not in ('self', 'cls')]
    return T('param', ps[i])


def line_param(an):
    ps = sorted(set(s for e in an.events + [r for r in ()] for a in list(e.args) for s in subterms(a)
                    if isinstance(s, Term) and s.op == 'param'), key=lambda x: x.uid)
    r = an.retval()
    ps = sorted(set(ps) | set(s for s in subterms(r) if isinstance(s, Term) and s.op == 'param'), key=lambda x: x.uid)
    if len(ps) != 1:
        raise AnalysisBroken("%s does not have the one line parameter expected" % an.qual)
    return ps[0]


def ctor_attrs(an, cls):
    """attribute values of the returned instance"""
    out = {}
    r = an.retval()
    for e in an.events:
        if e.kind == 'setattr' and e.recv is not None and e.recv.op == 'inst' and e.recv.args[0] == cls:
            out.setdefault(e.name, []).append((e.guard, e.args[0], e))
    return out


def value_at(alts, fn):
    """the value among guarded alternatives [(guard, value, event)] that applies"""
    for g, v, e in alts:
        b, left = under_normal(g, fn)
        if b:
            return v
    return MISSING


@rule('C15', 'member-line-fields', "a member-bags line of n TAB-separated fields reads as name, URI, extra fields and "
      "comment: field 0 is the name; the last field is the comment iff it starts with '#'; of those between, the first is the "
      "URI and the others are the extra information, in order", floor=20)
def member_line(c, r):
    an = c.an('MemberInfo.parse_line_03')
    line = line_param(an)
    at = ctor_attrs(an, 'MemberInfo')
    r.ok(set(at) >= {'name', 'uri', 'comment', 'info'}, an.entry, 'MemberInfo.parse_line_03',
         "the parsed line does not yield a member description")
    if not set(at) >= {'name', 'uri', 'comment', 'info'}:
        return
    for n in range(1, 7):
        for h in (False, True) if n > 1 else (False,):
            F = Fields(line, 'tab', n, h)
            what = "a line of %d fields%s" % (n, ", the last a comment" if h else "")
            w, left = under_normal(normal_guard(an), F.atom)
            r.ok(w is True, an.entry, 'MemberInfo.parse_line_03 n=%d%s' % (n, '#' if h else ''),
                 "%s is not always accepted (depends on %s)" % (what, [describe(a) for a in left]))
            v = value_at(at['name'], F.atom)
            r.ok(v is not MISSING and F.val(v) == 0, an.entry, 'name n=%d%s' % (n, '#' if h else ''),
                 "the name of %s is read from %s" % (what, describe(v) if v is not MISSING else '?'))
            v = value_at(at['uri'], F.atom)
            want = 1 if n - h > 1 else None
            got = F.val(v) if v is not MISSING else MISSING
            r.ok(got == want if not isinstance(got, Term) else (want is None and is_const(got) and cval(got) == ''),
                 an.entry, 'uri n=%d%s' % (n, '#' if h else ''),
                 "the URI of %s is read as %s instead of field %s" % (what, got, want))
            v = value_at(at['comment'], F.atom)
            got = F.comment(v) if v is not MISSING else MISSING
            want = n - 1 if h else None
            r.ok(not isinstance(got, Term) and got == want, an.entry, 'comment n=%d%s' % (n, '#' if h else ''),
                 "the comment of %s is read as %s instead of %s" % (what, describe(got) if isinstance(got, Term) else got, want))
            v = value_at(at['info'], F.atom)
            got = F.seq(v) if v is not MISSING else MISSING
            want = list(range(2, n - h))
            r.ok(got == want, an.entry, 'info n=%d%s' % (n, '#' if h else ''),
                 "the extra information of %s is fields %s instead of %s" % (what, got, want))
    F = Fields(line, 'tab', 2, False, empty=True)
    w, left = under_normal(normal_guard(an), F.atom)
    r.ok(w is False, an.entry, 'MemberInfo.parse_line_03 empty name', "a line without a name is accepted")


@rule('C15', 'member-line-02', "a line of the older, blank-separated member list reads as name and URI", floor=4)
def member_line_02(c, r):
    an = c.an('MemberInfo.parse_line_02')
    line = line_param(an)
    at = ctor_attrs(an, 'MemberInfo')
    if not r.ok(set(at) >= {'name', 'uri'}, an.entry, 'MemberInfo.parse_line_02', "the parsed line does not yield a member description"):
        return
    for n in range(1, 5):
        F = Fields(line, 'blank', n, False)
        v = value_at(at['name'], F.atom)
        r.ok(v is not MISSING and F.val(v) == 0, an.entry, 'name02 n=%d' % n, "the name is read from %s" % show(v)[:120])
        v = value_at(at['uri'], F.atom)
        r.ok(v is not MISSING and F.val(v) == (1 if n > 1 else None), an.entry, 'uri02 n=%d' % n,
             "the URI is read from %s" % show(v)[:120])


@rule('C15', 'lookup-line-fields', "a lookup line reads as (path, bag name): the first two fields; a line with fewer "
      "fields is an error", floor=8)
def lookup_line(c, r):
    for fn, sep in (('parse_file_lookup_line_03', 'tab'), ('parse_group_directory_line', 'blank')):
        an = c.an('%s:%s' % (MOD, fn))
        line = line_param(an)
        rv = an.retval()
        for n in range(2, 5):
            F = Fields(line, sep, n, False)
            got = F.seq(rv)
            r.ok(got == [0, 1], an.entry, '%s n=%d' % (fn, n), "a line of %d fields reads as fields %s" % (n, got))
            w, left = under_normal(normal_guard(an), F.atom)
            r.ok(w is True, an.entry, '%s n=%d accepted' % (fn, n), "a line of %d fields is not always accepted" % n)
        w, left = under_normal(normal_guard(an), Fields(line, sep, 1, False).atom)
        r.ok(w is False, an.entry, '%s n=1' % fn, "a line without bag name is accepted")
    an = c.an('%s:parse_deleted_line_04' % MOD)
    r.ok(unstrip(an.retval()) is line_param(an), an.entry, 'parse_deleted_line_04',
         "a line of the deleted list reads as %s" % show(an.retval())[:120])


@rule('C15', 'member-line-written', "the line written for a member is its name, then (if there is a URI or extra "
      "information) the URI or an empty field, the extra fields in order, and the comment as a last field marked by '#', all separated "
      "by TABs: what reading it back yields", floor=8)
def member_format(c, r):
    an = c.an('MemberInfo.format')
    me = T('self', 'MemberInfo')
    nm, uri, info, com = [T('attr', me, x) for x in ('name', 'uri', 'info', 'comment')]
    rv = an.retval()
    for u in (False, True):
        for i in (False, True):
            for k in (False, True):
                def fn(a):
                    t = a.args[0] if a.op in ('truthy', 'isnone') else None
                    if a.op == 'lt' and a.args[0].op == 'len' and a.args[0].args[0] is info and is_const(a.args[1]):
                        return (1 if i else 0) < cval(a.args[1]) if cval(a.args[1]) <= 1 else None
                    if a.op == 'eq' and any(is_const(x) and cval(x) == '' for x in a.args):
                        t = [x for x in a.args if not is_const(x)][:1]
                        t = t[0] if t else None
                        v = {uri: u, com: k, nm: True}.get(t)
                        return None if v is None else not v
                    if t is None:
                        return None
                    v = {uri: u, info: i, com: k, nm: True}.get(t)
                    return None if v is None else (v if a.op == 'truthy' else not v)
                t = rv
                for _ in range(40):
                    x = find_ite(t)
                    if x is None:
                        break
                    v, left = under_normal(x.args[0], fn)
                    if v is None:
                        break
                    t = rebuild(t, x, x.args[1] if v else x.args[2])
                got = tsv_fields(t)
                what = "a member with %s URI, %s extra information, %s comment" % tuple(
                    'a' if z else 'no' for z in (u, i, k))
                want = [[nm]]
                if u or i:
                    want.append([uri] if u else [])
                if i:
                    want.append([T('join', const('\t'), info)])
                ok = got is not None and len(got) == len(want) + k and got[:len(want)] == want
                if ok and k:
                    z = got[-1]
                    ok = len(z) == 2 and is_const(z[0]) and cval(z[0]).rstrip(' ') == '#' and z[1] is com
                r.ok(ok, an.entry, 'MemberInfo.format %d%d%d' % (u, i, k), "%s is written as %s" % (what, show(t)[:200]))


def tsv_fields(t):
    """[[parts] of each TAB-separated field] of a line of text, or None if it does not end the line"""
    parts = list(t.args) if t.op == 'concat' else [t]
    out = [[]]
    done = False
    for p in parts:
        if done:
            return None
        if p.op == 'join' and is_const(p.args[0]) and cval(p.args[0]) == '\t' and p.args[1].op in ('list', 'tuple'):
            for j, q in enumerate(p.args[1].args):
                if j:
                    out.append([])
                if not (is_const(q) and cval(q) == ''):
                    out[-1].append(q)
            continue
        if is_const(p) and isinstance(cval(p), str):
            s = cval(p)
            if s.endswith('\n'):
                done, s = True, s[:-1]
            if '\n' in s:
                return None
            for j, q in enumerate(s.split('\t')):
                if j:
                    out.append([])
                if q:
                    out[-1].append(const(q))
            continue
        out[-1].append(p)
    return out if done else None


@rule('C15', 'lookup-lines-written', "a saved lookup line is path TAB bag name, and a saved deletion is the path alone: "
      "what reading them back yields", floor=2)
def lines_written(c, r):
    for m, st, f, want in (('save_file_lookup', LOOKUP, 'file-lookup.tsv', 2), ('save_deleted', DELETED, 'deleted.txt', 1)):
        an = c.an('HeadBag.' + m)
        ls = text_lines(an, lambda p: ends_with_name(p, f))
        r.ok(bool(ls), an.entry, m, "%s writes no line to %s" % (m, f))
        for l in ls:
            fs = tsv_fields(l.text)
            el = T('elem', st)
            exp = [[el], [T('index', st, el)]][:want]
            r.ok(fs == exp, l, m, "%s writes the line %s" % (m, show(l.text)[:160]))


# ------------------------------------------------------------------ reading the tag files

def is_iter(t, name):
    t = uncopy(t)
    return call_of(t, '.' + name) and t.args[1].op == 'self'


FILES = {'iter_member_bags': ('group-members.txt', 'member-bags.tsv', 'parse_line_02', 'parse_line_03'),
         'iter_file_lookup': ('group-directory.txt', 'file-lookup.tsv', 'parse_group_directory_line', 'parse_file_lookup_line_03'),
         'iter_deleted': ('deleted.txt', 'deleted.txt', 'parse_deleted_line_04', 'parse_deleted_line_04')}


def ver_atom(old):
    def fn(a):
        if a.op == 'lt' and has(a.args[0], lambda s: attr_of(s, 'profile_version')) and is_ver(a.args[1], '0.3'):
            return old
        if a.op == 'isinstance' and has(a.args[0], lambda s: attr_of(s, 'profile_version')):
            return a.args[1] == 'str'
        if a.op == 'truthy' and a.args[0].op in ('unbound', 'func', 'fref', 'bound', 'ref'):
            return True
        return None
    return fn


def is_ver(t, s):
    return any(is_const(x) and cval(x) == s for x in subterms(t) if isinstance(x, Term))


@rule('C16', 'tag-file-lines', "reading the member list, the lookup or the deleted list opens the file that the bag's "
      "profile version names, in the bag's own tag directory, and yields every line that is not blank, parsed by that version's parser, in "
      "the order of the file", floor=12)
def tag_file_lines(c, r):
    for m in sorted(FILES):
        for cls in ('HeadBag', 'ReadOnlyHeadBag'):
            an = c.an('%s.%s' % (cls, m))
            me = T('self', cls)
            tagdir = T('attr', me, 'multibag_tag_dir')
            ys = [e for e in an.events if e.kind == 'yield']
            if not r.ok(bool(ys), an.entry, '%s.%s' % (cls, m), "%s yields nothing" % m):
                continue
            for old in (True, False):
                fname, pname = FILES[m][0 if old else 1], FILES[m][2 if old else 3]
                path = mk_path([tagdir, const(fname)])
                va = ver_atom(old)
                tag = '%s.%s %s' % (cls, m, 'before 0.3' if old else '')

                def res(t):
                    for _ in range(20):
                        i = find_ite(t)
                        if i is None:
                            return t
                        v, left = under_normal(i.args[0], va)
                        if v is None:
                            return t
                        t = rebuild(t, i, i.args[1] if v else i.args[2])
                    return t
                line = T('elem', T('call', '.open_text_file', me, path))

                def fn(a, blank=False, missing=False):
                    v = va(a)
                    if v is not None:
                        return v
                    if call_of(a, '.isfile', '.exists') and res(a.args[2]) is path:
                        return not missing
                    if a.op == 'bcall' and a.args[0] in ('isfile', 'exists') and res(a.args[-1]) is path:
                        return not missing
                    x = a.args[0] if a.args and isinstance(a.args[0], Term) else None
                    if a.op == 'truthy' and x is not None:
                        x = res(x)
                        if x is not line and unstrip(x) is line:
                            return not blank
                        if call_of(x, '.isspace') and x.args[1] is line:
                            return blank
                    if call_of(a, '.isspace', 'isspace') and res(a.args[-1]) is line:
                        return blank
                    if a.op == 'eq' and any(is_const(y) and cval(y) == '' for y in a.args):
                        y = [res(y) for y in a.args if not is_const(y)]
                        if y and y[0] is not line and unstrip(y[0]) is line:
                            return blank
                    if a.op == 'exc':
                        return False
                    return None
                hits = 0
                for e in ys:
                    v, left = under_normal(e.guard, fn)
                    if v is False:
                        continue
                    if not r.ok(v is True, e, tag, "whether a line of %s is read depends on %s" % (fname, [describe(a) for a in left])):
                        continue
                    hits += 1
                    bases = [uncopy(res(l.base)) for l in e.loops]
                    want = T('call', '.open_text_file', me, path)
                    r.ok(len(bases) == 1 and lines_of(bases[0]) is want, e, tag,
                         "%s reads %s instead of the lines of %s" % (m, [show(b)[:120] for b in bases], show(path)))
                    r.ok(not loop_breaks(e) and not sliced(e) and not any(l.reversed() for l in e.loops),
                         e, tag, "%s does not read all of the file's lines in order" % m)
                    val = res(e.args[0])
                    r.ok(parsed_by(val, pname, line), e, tag, "a line of %s is read as %s, not by %s" % (fname, show(val)[:120], pname))
                    b, left = under_normal(e.guard, lambda a: fn(a, blank=True))
                    r.ok(b is False, e, tag, "a blank line of %s is taken as an entry" % fname)
                    b, left = under_normal(e.guard, lambda a: fn(a, missing=True))
                    r.ok(b is False, e, tag, "an entry is read although there is no file %s" % fname)
                r.ok(hits == 1, an.entry, tag, "%d places yield each line of %s" % (hits, fname))
                bad = [e for e in raises(an) if under_normal(e.guard, fn)[0] is not False]
                r.ok(not bad, bad[0] if bad else an.entry, tag, "reading an existing %s can fail with %s" % (fname, bad[0].name if bad else ''))
                miss = [e for e in raises(an) if under_normal(e.guard, lambda a: fn(a, missing=True))[0] is True]
                if m == 'iter_deleted':
                    r.ok(not miss, miss[0] if miss else an.entry, tag, "a bag without deleted list is refused")
                else:
                    r.ok(miss and miss[0].name == 'MissingMultibagFileError', an.entry, tag,
                         "a missing %s is not reported as a missing multibag file" % fname)


def lines_of(b):
    """look through fd.readlines() / fd.read().splitlines()"""
    if call_of(b, '.readlines', 'iter') and len(b.args) == 2:
        return b.args[1]
    if call_of(b, '.splitlines') and call_of(b.args[1], '.read'):
        return b.args[1].args[1]
    if call_of(b, '.split') and len(b.args) == 3 and is_const(b.args[2]) and cval(b.args[2]) == '\n' and call_of(b.args[1], '.read'):
        return b.args[1].args[1]
    return b


def parsed_by(val, pname, line):
    if val.op == 'call' and str(val.args[0]).split('.')[-1] == pname and val.args[-1] is line:
        return True
    return val.op == 'call' and str(val.args[0]).split('.')[-1] == pname and unstrip(val.args[-1]) is line


@rule('C16', 'head-metadata', "the tag directory, the profile version and the head version are read from the bag's "
      "metadata: the last value of a repeated item; without the item the tag directory is 'multibag' and the profile version the current "
      "one, while a missing head version is an error", floor=6)
def head_metadata(c, r):
    info = T('attr', SELF, 'info')
    for p, key in (('multibag_tag_dir', 'Multibag-Tag-Directory'), ('profile_version', 'Multibag-Version'),
                   ('head_version', 'Multibag-Head-Version')):
        an = c.an('HeadBag.' + p)
        item = T('index', info, const(key))

        def fn(a, lst, empty=False, absent=False):
            if a.op == 'in' and a.args[0] is const(key) and a.args[1] is info:
                return not absent
            if a.op == 'isinstance' and a.args[0] is item:
                return lst if a.args[1] in ('list', 'tuple') else (not lst)
            if a.op == 'truthy' and a.args[0] is item:
                return not empty
            if a.op == 'lt' and a.args[0].op == 'len' and a.args[0].args[0] is item and is_const(a.args[1]):
                return (0 if empty else 5) < cval(a.args[1])
            if a.op == 'eq' and any(x.op == 'len' and x.args[0] is item for x in a.args):
                return empty if any(is_const(x) and cval(x) == 0 for x in a.args) else None
            if a.op == 'isnone' and a.args[0] is item:
                return False
            if a.op == 'exc':
                return (absent and 'KeyError' in show(a)) or (empty and 'IndexError' in show(a)) or \
                    ((absent or empty) and 'MultibagError' in show(a) and 'KeyError' not in show(a) and 'IndexError' not in show(a))
            return None

        def at(**kw):
            got = []
            for ret in an.returns:
                b, left = under_normal(ret[0], lambda a: fn(a, **kw))
                if b is False:
                    continue
                t = ret[1]
                for _ in range(10):
                    i = find_ite(t)
                    if i is None:
                        break
                    v, left = under_normal(i.args[0], lambda a: fn(a, **kw))
                    if v is None:
                        break
                    t = rebuild(t, i, i.args[1] if v else i.args[2])
                got.append(t)
            return got
        for lst, want in ((False, item), (True, T('index', item, const(-1)))):
            got = at(lst=lst)
            r.ok(got and all(g is want for g in got), an.entry, 'HeadBag.' + p,
                 "%s of a bag with %s %s is %s" % (p, 'a repeated' if lst else 'one', key, [show(g)[:100] for g in got]))
        got = at(lst=False, absent=True)
        if p == 'multibag_tag_dir':
            r.ok(got and all(is_const(g) and cval(g) == 'multibag' for g in got), an.entry, 'HeadBag.' + p,
                 "the default tag directory is %s" % [show(g)[:100] for g in got])
            got = at(lst=True, empty=True)
            r.ok(got and all(is_const(g) and cval(g) == 'multibag' for g in got), an.entry, 'HeadBag.' + p,
                 "the tag directory of a bag with no value for it is %s" % [show(g)[:100] for g in got])
        elif p == 'profile_version':
            got = [g for g in got if g is not item and not contains(g, item)]
            r.ok(bool(got) and all(is_const(g) and cval(g) == '0.4' for g in got), an.entry, 'HeadBag.' + p,
                 "the profile version of a bag that does not state one is %s" % [show(g)[:100] for g in got])
        else:
            rs = [e for e in raises(an) if e.name == 'MultibagError']
            r.ok(bool(rs), an.entry, 'HeadBag.' + p, "a missing head version is not an error")


def state_cases(t, attr, loader, an):
    """why t is not the current in-memory state of `attr` (loaded from its file if it was not), or None if it is"""
    for g, v in cases(t):
        if v is attr:
            b, left = under_normal(g, lambda a: True if a.op == 'isnone' and a.args[0] is attr else
                                   (False if a.op in ('exc',) else None))
            if b is not False and implies_possible(g, attr):
                return "%s although it may not have been read yet" % show(attr)
        elif is_iter(v, loader):
            continue
        elif v.op == 'obj' or (v.op in ('list', 'dict', 'set') and not v.args) or (v.op == 'call' and len(v.args) == 1):
            # a fresh container: only where the file is missing
            n = assign(g, lambda a: False if a.op == 'exc' else None)
            n = assign(n, lambda a: True if a.op == 'isnone' and a.args[0] is attr else None)
            m = assign(g, lambda a: False if a.op == 'isnone' and a.args[0] is attr else None)
            if m is not FALSE:
                return "a new container in place of what is in memory"
            if n is not FALSE:
                return "a new container in place of the recorded entries"
        else:
            return show(v)[:120]
    return None


def implies_possible(g, attr):
    """the guard g is satisfiable with attr unloaded (and the load not failing)"""
    n = assign(g, lambda a: True if a.op == 'isnone' and a.args[0] is attr else (False if a.op == 'exc' else None))
    return n is not FALSE


@rule('C16', 'cached-reads', "asking for members, lookups or deletions returns what is in memory; if nothing has been "
      "read yet, or a re-read is asked for, it returns exactly what the tag file holds, and remembers it", floor=10)
def cached_reads(c, r):
    for cls in ('HeadBag', 'ReadOnlyHeadBag'):
        me = T('self', cls)
        for m, at, it in (('member_bags', '_memberbags', 'iter_member_bags'), ('deleted_paths', '_deleted', 'iter_deleted'),
                          ('lookup_file', '_filelu', 'iter_file_lookup')):
            an = c.an('%s.%s' % (cls, m))
            attr = T('attr', me, at)
            for none in (False, True):
                for rr in (False, True):
                    def fn(a):
                        if a.op == 'isnone' and a.args[0] is attr:
                            return none
                        if a.op == 'truthy' and a.args[0].op == 'param' and a.args[0].args[0] == 'reread':
                            return rr
                        if a.op == 'truthy' and a.args[0] is attr:
                            return None
                        if a.op == 'exc':
                            return False
                        return None
                    what = '%s.%s' % (cls, m)
                    how = "%s, %s" % ("nothing read yet" if none else "entries in memory", "re-read asked for" if rr else "no re-read")
                    t = an.retval()
                    fresh = none or rr
                    store = an.final_heap.get(('attr', me, at), attr)
                    t, store = settle(t, fn), settle(store, fn)
                    src = uncopy(store)
                    r.ok(is_iter(store, it) if fresh else store is attr, an.entry, what,
                         "%s: what is remembered (%s) is %s" % (m, how, show(store)[:120]))
                    if m == 'lookup_file':
                        p = T('param', 'filepath')
                        ok = t.op == 'ite' and t.args[2] is NONE and contains(t.args[1], src) and t.args[1].op == 'index' and \
                            t.args[1].args[1] is p and all(a.op == 'in' and a.args[0] is p for a in support(t.args[0]))
                        ok = ok or (call_of(t, '.get') and t.args[1] is store and t.args[2] is p)
                        r.ok(ok, an.entry, what, "%s (%s) answers %s" % (m, how, show(t)[:160]))
                    else:
                        r.ok(uncopy(t) is src or t is store, an.entry, what, "%s (%s) returns %s" % (m, how, show(t)[:160]))
    an = c.an('HeadBag.member_bag_names')
    t = an.retval()
    ok = t.op == 'comp' and len(t.args[2]) == 1 and call_of(uncopy(t.args[2][0].args[0]), '.member_bags') and \
        t.args[3].args[0] is TRUE and attr_of(t.args[1], 'name', T('elem', t.args[2][0].args[0])) and not t.args[2][0].args[1].args
    if not ok and t.op == 'obj':
        ps = producers(an, t)
        ok = bool(ps) and len(ps) == 1 and ps[0][1] is TRUE and len(ps[0][2]) == 1 and call_of(uncopy(ps[0][2][0].base), '.member_bags') and \
            attr_of(ps[0][0], 'name', T('elem', ps[0][2][0].base)) and not ps[0][2][0].order
    r.ok(ok, an.entry, 'HeadBag.member_bag_names', "member_bag_names returns %s" % show(t)[:160])


def settle(t, fn):
    """t with the gates that the assignment fn decides resolved"""
    memo = {}

    def go(x):
        if x.op != 'ite':
            return x
        n = assign(x.args[0], fn)
        if n is TRUE:
            return go(x.args[1])
        if n is FALSE:
            return go(x.args[2])
        return T('ite', n, go(x.args[1]), go(x.args[2]))
    for _ in range(20):
        if t.op == 'ite':
            t2 = go(t)
            if t2 is t:
                break
            t = t2
            continue
        i = find_ite(t)
        if i is None:
            break
        j = go(i)
        if j is i:
            break
        t = rebuild(t, i, j)
    return t


@rule(['C16', 'C17'], 'files-in-member', "the files of a member are exactly the paths whose lookup entry names that member", floor=2)
def files_in_member(c, r):
    an = c.an('HeadBag.files_in_member')
    rv = an.retval()
    nm = T('param', 'bagname')
    for none in (False, True):
        def fn(a):
            if a.op == 'isnone' and a.args[0] is LOOKUP:
                return none
            if a.op == 'exc':
                return False
            return None
        hits, bad = [], None
        alts = [(FALSE, None)]
        for g, t in lift(rv, normal_guard(an)):
            b, left = under_normal(g, fn)
            if b is False:
                continue
            t = uncopy(t)
            if t.op == 'comp':
                src = uncopy(t.args[2][0].args[0])
                cond = t.args[3].args[0]
                el = t.args[1]
                hits.append((src, cond, el, an.entry))
            elif t.op == 'obj':
                for v, pg, pl, pe in producers(an, t) or []:
                    if under_normal(pg, fn)[0] is False:
                        continue
                    if len(pl) != 1 or loop_breaks(pe) or sliced(pe):
                        bad = pe
                    hits.append((uncopy(pl[0].base) if pl else NONE, assign(pg, fn), v, pe))
        want = T('call', '.iter_file_lookup', SELF) if none else LOOKUP
        r.ok(len(hits) == 1 and bad is None, bad or an.entry, 'HeadBag.files_in_member',
             "%d enumerations of the lookup" % len(hits))
        for src, cond, el, w in hits:
            src2 = src.args[1] if call_of(src, '.items') else src
            key = T('elem', src)
            ok = uncopy(src2) is want and el is key or (el.op == 'index' and el.args[0] is key)
            okc = len(support(cond)) == 1 and all(a.op == 'eq' and nm in a.args and
                                                  (any(x.op == 'index' and contains(x, key) for x in a.args)) for a in support(cond)) \
                and assign(cond, lambda a: True) is TRUE
            r.ok(ok and okc, w, 'HeadBag.files_in_member', "files are selected by %s from %s" % (fshow(cond)[:120], show(src)[:80]))


# ------------------------------------------------------------------ updating

def loader_fn(attr, none):
    def fn(a):
        if a.op == 'isnone' and a.args[0] is attr:
            return none
        if a.op == 'exc':
            return False
        return None
    return fn


def final(an, attr):
    return an.final_heap.get(('attr', SELF, attr.args[1]), attr)


def same_state(an, recv, attr):
    """the container recv is the one the head bag ends up remembering"""
    g = normal_guard(an)
    f = final(an, attr)

    def norm(t):
        return settle(t, lambda a: False if a.op == 'exc' else None)
    return norm(_res(recv, g)) is norm(_res(f, g))


def _res(t, g):
    from ..query import _resolve_guard
    return _resolve_guard(t, g)


@rule('C17', 'lookup-and-deleted-updates', "registering or unregistering a lookup entry or a deletion changes that one entry "
      "of the current state, which is read from the bag first if it has not been", floor=8)
def entry_updates(c, r):
    spec = [('add_file_lookup', (), LOOKUP, 'iter_file_lookup', 'put'),
            ('remove_file_lookup', (), LOOKUP, 'iter_file_lookup', 'del'),
            ('set_deleted', ('HeadBagReadMixin.deleted_paths',), DELETED, 'iter_deleted', 'add'),
            ('unset_deleted', ('HeadBagReadMixin.deleted_paths',), DELETED, 'iter_deleted', 'del')]
    for m, inl, attr, it, op in spec:
        an = c.an('HeadBag.' + m, inline=inl)
        f = T('param', 'filepath')
        ng = normal_guard(an)
        muts = [e for e in an.events if e.kind in ('store', 'mutate') and e.recv is not None and
                has(e.recv, lambda s: s is attr or is_iter(s, it) or s.op == 'obj')]
        names = {'put': ('[]', '__setitem__', 'update'), 'add': ('add', 'append', 'update'),
                 'del': ('del', 'remove', 'discard', 'pop', '__delitem__')}[op]
        good = []
        for e in muts:
            ok = e.name in names and e.args and (e.args[0] is f)
            if op == 'put':
                ok = ok and len(e.args) > 1 and e.args[1] is T('param', 'bagname')
            if not r.ok(ok, e, 'HeadBag.' + m, "%s also does %s(%s)" % (m, e.name, ', '.join(show(a)[:40] for a in e.args))):
                continue
            good.append(e)
        # a rebuilt set or dict
        f_end = final(an, attr)
        if not good:
            r.fail(an.entry, 'HeadBag.' + m, "%s changes no entry" % m)
            continue
        for e in good:
            why = None
            for none in (False, True):
                fn = loader_fn(attr, none)
                rv = settle(e.recv, fn)
                want_ok = is_iter(rv, it) if none else rv is attr
                if not want_ok and assign(e.guard, fn) is not FALSE:
                    why = "with %s it changes %s" % ("nothing read yet" if none else "entries in memory", show(rv)[:100])
                fin = settle(f_end, fn)
                if assign(e.guard, fn) is not FALSE and fin is not rv:
                    why = why or "the changed entries (%s) are not those remembered (%s)" % (show(rv)[:80], show(fin)[:80])
            r.ok(why is None, e, 'HeadBag.' + m, "%s: %s" % (m, why))
        # when is it done
        for none in (False, True):
            g = FALSE
            for e in good:
                g = f_or(g, assign(e.guard, loader_fn(attr, none)))

            def fn(a):
                if a.op == 'truthy' and a.args[0].op == 'param':
                    return True
                if a.op == 'isinstance' and a.args[0].op == 'param':
                    return True
                if a.op == 'in' and a.args[0] is f:
                    return True
                if a.op == 'isnone' and (a.args[0].op == 'param'):
                    return False
                if a.op == 'isnone':
                    return False
                return None
            b, left = under_normal(g, fn)
            r.ok(b is True, good[0], 'HeadBag.' + m, "%s (%s) is left out under a condition (%s)" % (
                m, "nothing read yet" if none else "entries in memory", [describe(a) for a in left]))


@rule('C17', 'add-member', "adding a member appends its description (name, URI, comment, extra fields) after all current "
      "members, unconditionally; an entry of the same name is removed first exactly when override is on", floor=4)
def add_member(c, r):
    an = c.an('HeadBag.add_member_bag', inline=('HeadBagUpdateMixin.member_bags',))
    nm = T('param', 'name')
    adds = [e for e in an.events if e.kind in ('mutate', 'store') and e.recv is not None and
            has(e.recv, lambda s: s is MEMBERS or is_iter(s, 'iter_member_bags'))]
    setters = [e for e in an.events if e.kind == 'setattr' and e.recv is SELF and e.name == '_memberbags' and
               has(e.args[0], lambda s: s.op == 'inst' and s.args[0] == 'MemberInfo')]
    r.ok(len(adds) + len(setters) == 1, adds[0] if adds else an.entry, 'HeadBag.add_member_bag',
         "%d changes of the member list" % (len(adds) + len(setters)))
    rm = calls(an, 'remove_member_bag')
    for e in adds:
        r.ok(e.name == 'append' and e.args[0].op == 'inst', e, 'HeadBag.add_member_bag', "the member is not appended at the end (%s)" % e.name)
        b, left = under_normal(e.guard, lambda a: False if a.op == 'exc' else None)
        r.ok(b is True, e, 'HeadBag.add_member_bag', "the member is added only if %s" % [describe(a) for a in left])
        for none in (False, True):
            fn = loader_fn(MEMBERS, none)
            rv = settle(e.recv, fn)
            r.ok(is_iter(rv, 'iter_member_bags') if none else rv is MEMBERS, e, 'HeadBag.add_member_bag',
                 "the member is added to %s" % show(rv)[:100])
    for e in setters:
        v = e.args[0]
        for none in (False, True):
            x = settle(v, loader_fn(MEMBERS, none))
            ok = x.op == 'add' or x.op == 'concat' or x.op == 'binop' or (x.op == 'list' and x.args and x.args[0].op == 'star')
            last = x.args[-1] if ok else None
            ok = ok and has(last, lambda s: s.op == 'inst') and has(x.args[0] if x.op != 'binop' else x.args[1],
                                                                     lambda s: is_iter(s, 'iter_member_bags') if none else s is MEMBERS)
            r.ok(ok, e, 'HeadBag.add_member_bag', "the member list becomes %s" % show(x)[:120])
    at = ctor_attrs(an, 'MemberInfo')
    for k, p in (('name', nm), ('uri', T('param', 'uri')), ('comment', T('param', 'comment'))):
        vs = [v for g, v, e in at.get(k, [])]
        r.ok(vs and all(v is p for v in vs), an.entry, 'HeadBag.add_member_bag ' + k, "the new member's %s is %s" % (k, [show(v)[:60] for v in vs]))
    vs = [settle(uncopy(v), lambda a: False if a.op == 'isnone' and a.args[0] is T('param', 'info') else
                 (True if a.op == 'truthy' and a.args[0] is T('param', 'info') else None)) for g, v, e in at.get('info', [])]
    r.ok(vs and all(uncopy(v) is T('param', 'info') for v in vs), an.entry, 'HeadBag.add_member_bag info',
         "the new member's extra information is %s" % [show(v)[:60] for v in vs])
    given = lambda a: False if a.op == 'isnone' else True if a.op == 'truthy' else None
    for k, _v, _e in at.get('info', []):
        r.ok(not has(_v, lambda s: s.op == 'copy' and s.args[0] in ('sorted', 'reversed', 'set', 'frozenset') or call_of(s, 'sorted', 'reversed', 'set')),
             _e or an.entry, 'HeadBag.add_member_bag info-order', "the order of the extra information is not kept: %s" % show(_v)[:60])
    for e in an.events:
        if e.kind == 'mutate' and e.recv is not None and settle(e.recv, given) is T('param', 'info'):
            r.fail(e, 'HeadBag.add_member_bag info-changed', "the caller's list of information is changed (%s)" % e.name)
    g = FALSE
    for e in rm:
        if r.ok(e.recv is SELF and e.args and e.args[0] is nm, e, 'HeadBag.add_member_bag', "it removes %s" % show(e.args[0])[:60]):
            g = f_or(g, e.guard)
        r.ok(all(e.seq < x.seq for x in adds + setters), e, 'HeadBag.add_member_bag', "the earlier entry is removed after the new one is added")
    ov = atom(T('truthy', T('param', 'override')))
    w = assign(g, lambda a: False if a.op == 'exc' else (False if a.op == 'isnone' and a.args[0] is MEMBERS else
                                                         (True if is_present(a, nm) else None)))
    r.ok(w is ov, rm[0] if rm else an.entry, 'HeadBag.add_member_bag', "an earlier entry of the same name is removed if %s" % fshow(g)[:120])


def is_present(a, nm):
    """the name is already among the members"""
    if a.op == 'in' and a.args[0] is nm and has(a.args[1], lambda s: attr_of(s, 'name') or call_of(s, '.member_bags') or s is MEMBERS or attr_of(s, 'member_bag_names')):
        return True
    if a.op == 'existsq' and has(a, lambda s: s is nm):
        return True
    return False


@rule('C17', 'remove-member', "removing a member takes every entry of that name out of the current member list and no "
      "other, and takes every file registered with it out of both the lookup and the deleted list", floor=5)
def remove_member(c, r):
    an = c.an('HeadBag.remove_member_bag', inline=('HeadBagUpdateMixin.member_bags',))
    nm = T('param', 'bagname')
    base = lambda s: s is MEMBERS or is_iter(s, 'iter_member_bags')
    muts = [e for e in an.events if e.kind in ('mutate', 'store') and e.recv is not None and has(e.recv, base)]
    sets = [e for e in an.events if e.kind == 'setattr' and e.recv is SELF and e.name == '_memberbags' and
            not is_iter(e.args[0], 'iter_member_bags') and has(e.args[0], base)]
    done = set()
    for e, none in [(e, none) for e in muts for none in (False, True)]:
        fn = loader_fn(MEMBERS, none)
        guard = assign(e.guard, fn)
        if guard is FALSE:
            continue
        L = settle(e.recv, fn)
        r.ok(is_iter(L, 'iter_member_bags') if none else L is MEMBERS, e, 'HeadBag.remove_member_bag', "it changes %s" % show(L)[:100])
        if (e.kind == 'store' or e.name == 'setslice') and e.args and all(is_filter(v, nm, base) for g, v in cases(settle(e.args[-1], fn))):
            done.add(none)
            continue
        ok = e.name in ('del', 'pop', 'remove') and len(e.loops) == 1 and has(e.loops[0].base, base)
        if not r.ok(ok, e, 'HeadBag.remove_member_bag', "it changes the member list by %s(%s)" % (e.name, ', '.join(show(a)[:60] for a in e.args))):
            continue
        l = e.loops[0]
        r.ok(not loop_breaks(e) and not sliced(e), e, 'HeadBag.remove_member_bag', "not every entry is looked at")
        if e.name in ('del', 'pop'):
            r.ok(e.args and e.args[0].op == 'pos' and 'rev' in l.order, e, 'HeadBag.remove_member_bag',
                 "entries are deleted by position from the front, which skips entries")
        else:
            r.ok('copy' in l.order or l.base.op in ('copy', 'comp'), e, 'HeadBag.remove_member_bag',
                 "entries are removed from the list that is being iterated")
        n = assign(guard, lambda a: (True if a.op == 'truthy' else None))
        at = [a for a in support(n) if a.op == 'eq' and nm in a.args]
        good = at and all(any(attr_of(x, 'name') and x.args[0].op == 'elem' for x in a.args) for a in at)
        left = [a for a in support(n) if a not in at]
        r.ok(good and not left and assign(n, lambda a: False if a in at else None) is FALSE and
             assign(n, lambda a: True if a in at else None) is TRUE,
             e, 'HeadBag.remove_member_bag', "an entry is removed if %s" % fshow(n)[:160])
        done.add(none)
    for e in sets:
        for g, v in cases(e.args[0]):
            r.ok(is_filter(v, nm, base), e, 'HeadBag.remove_member_bag', "the member list becomes %s" % show(v)[:120])
            done.update((False, True))
    r.ok(len(done) == 2, an.entry, 'HeadBag.remove_member_bag', "no entry of the member list is removed")
    for op in ('unset_deleted', 'remove_file_lookup'):
        es = calls(an, op)
        ok = [e for e in es if e.recv is SELF and len(e.loops) == 1 and call_of(uncopy(e.loops[0].base), '.files_in_member') and
              uncopy(e.loops[0].base).args[1] is SELF and uncopy(e.loops[0].base).args[2] is nm and
              e.args[0] is T('elem', e.loops[0].base) and not loop_breaks(e) and not sliced(e)]
        r.ok(ok, es[0] if es else an.entry, 'HeadBag.remove_member_bag ' + op, "%s is not called for every file of the member" % op)
        for e in ok:
            b, left = under_normal(e.guard, lambda a: False if a.op == 'exc' else (True if a.op == 'truthy' and a.args[0] is e.loops[0].base else None))
            # a test that the path is marked deleted before unmarking it changes nothing
            left = [a for a in left if not (op == 'unset_deleted' and a.op == 'in' and has_call(a.args[1], '.deleted_paths'))]
            r.ok(b is True or (b is None and not left), e, 'HeadBag.remove_member_bag ' + op, "%s depends on %s" % (op, [describe(a) for a in left]))


def is_filter(v, nm, base):
    """v keeps exactly the entries of another name"""
    v = uncopy(v)
    if v.op != 'comp' or len(v.args[2]) != 1 or any(o not in ('list', 'tuple') for o in v.args[2][0].args[1].args):
        return False
    src = v.args[2][0].args[0]
    el = T('elem', src)
    if v.args[1] is not el or not has(src, base):
        return False
    cond = v.args[3].args[0]
    return cond is f_not(f_eq(T('attr', el, 'name'), nm))


@rule('C17', 'set-members', "replacing the member list takes over exactly the given descriptions in order, after checking "
      "that all of them are member descriptions", floor=1)
def set_members(c, r):
    an = c.an('HeadBag.set_member_bags')
    p = T('param', 'meminfos')
    fin = _res(final(an, MEMBERS), normal_guard(an))
    r.ok(uncopy(fin) is p and fin.op == 'copy' and fin.args[0] == 'list', an.entry, 'HeadBag.set_member_bags',
         "the member list becomes %s" % show(fin)[:120])
    bad = [e for e in raises(an)]
    r.ok(any(e.name in ('TypeError', 'ValueError') for e in bad), an.entry, 'HeadBag.set_member_bags', "other objects are accepted as members")
    g = normal_guard(an)
    r.ok(all(a.op in ('existsq', 'forallq', 'isinstance') and 'MemberInfo' in show(a)
             for a in support(g)), an.entry, 'HeadBag.set_member_bags', "a list of members is refused if %s" % fshow(g)[:120])


# ------------------------------------------------------------------ saving

@rule('C18', 'state-saved', "saving members, lookups or deletions replaces the tag file in the bag's tag directory by one "
      "line for each entry in memory, in UTF-8, whenever anything was read or set; with nothing read or set it touches nothing", floor=9)
def state_saved(c, r):
    for m, attr, f in (('save_member_bags', MEMBERS, 'member-bags.tsv'), ('save_file_lookup', LOOKUP, 'file-lookup.tsv'),
                       ('save_deleted', DELETED, 'deleted.txt')):
        an = c.an('HeadBag.' + m)
        paths = [mk_path([ROOT, TAGDIR, const(f)]), mk_path([T('attr', SELF, 'path'), TAGDIR, const(f)])]
        q = 'HeadBag.' + m

        def fn(a, none=False):
            if a.op == 'isnone' and a.args[0] is attr:
                return none
            if a.op == 'isinstance' or a.op == 'exc':
                return None
            return None
        for x in effects(an):
            if x.kind == 'mkdir' and x.target is mk_path(path_parts(paths[0])[:-1]):
                pass
            else:
                r.ok(x.target in paths, x.event, q, "%s changes %s" % (m, show(x.target)[:120]))
            b = assign(x.event.guard, lambda a: fn(a, True))
            r.ok(b is FALSE, x.event, q, "%s touches %s although nothing was read or set" % (m, show(x.target)[:80]))
        opens = [e for e in an.events if e.kind == 'open' and mode_of(e) not in ('r', 'rt')]
        live = [e for e in opens if under_normal(e.guard, fn)[0] is not False]
        r.ok(live and all(under_normal(e.guard, fn)[0] is True for e in live), live[0] if live else an.entry, q,
             "the file is rewritten only if %s" % [fshow(e.guard)[:100] for e in live])
        ls = text_lines(an, lambda p: p in paths)
        r.ok(len(ls) >= 1, an.entry, q, "%s writes nothing to %s" % (m, f))
        for l in ls:
            r.ok(cval(l.mode) in ('w', 'wt') if is_const(l.mode) else False, l, q, "%s does not replace the file (mode %s)" % (m, show(l.mode)))
            r.ok(is_const(l.enc) and str(cval(l.enc)).lower().replace('_', '-') in ('utf-8', 'utf8', 'utf-8-sig') and 'sig' not in str(cval(l.enc)),
                 l, q, "%s writes with encoding %s" % (m, show(l.enc)))
            bs = [uncopy(b) for b in l.bases()]
            r.ok(len(bs) == 1 and (bs[0] is attr or (call_of(bs[0], '.items', '.member_bags', '.deleted_paths') and contains(bs[0], SELF))), l, q,
                 "%s writes a line for each of %s" % (m, [show(b)[:80] for b in bs]))
            b, left = under_normal(l.guard, fn)
            r.ok(b is True, l, q, "%s leaves an entry out unless %s" % (m, fshow(l.guard)[:120]))
            r.ok(not loop_breaks(l.event) and not sliced(l.event), l, q, "%s does not write all entries" % m)
            if attr is MEMBERS:
                r.ok(not any(o in ('rev', 'sorted') for lp in l.loops for o in lp.order), l, q, "%s changes the order of the members" % m)
                t = [p for p in l.parts()]
                ok = len(t) == 1 and call_of(t[0], '.format') and t[0].args[1] is T('elem', l.loops[-1].base) if l.loops else False
                r.ok(ok, l, q, "%s writes %s for a member" % (m, show(l.text)[:100]))
        rm = [x for x in effects(an) if x.kind in ('remove', 'rmtree', 'move')]
        for x in rm:
            after = [e for e in live if e.seq > x.event.seq]
            r.ok(after or assign(x.event.guard, lambda a: True if a.op == 'truthy' and a.args[0] is attr else None) is FALSE, x.event, q,
                 "%s deletes the file although there are entries" % m)


@rule('C18', 'lookup-cleared', "clearing the lookup removes its tag file and forgets the entries in memory", floor=2)
def lookup_cleared(c, r):
    an = c.an('HeadBag.clear_file_lookup')
    fin = final(an, LOOKUP)
    r.ok(all(v is NONE or v.op in ('obj', 'dict') for g, v in cases(fin)), an.entry, 'HeadBag.clear_file_lookup', "the entries in memory become %s" % show(fin)[:80])
    p = mk_path([ROOT, TAGDIR, const('file-lookup.tsv')])
    rm = [x for x in effects(an) if x.kind in ('remove',) and x.target is p]
    ok = rm and all(all(a.op in ('exists', 'bcall', 'exc') for a in support(x.event.guard)) for x in rm)
    r.ok(ok or [x for x in effects(an) if x.kind == 'write' and x.target is p], an.entry, 'HeadBag.clear_file_lookup', "the tag file is not emptied")
    r.ok(all(x.target is p for x in effects(an)), an.entry, 'HeadBag.clear_file_lookup', "something else is changed on disk")


@rule('C18', 'tag-directory-renamed', "changing the tag directory records the new name in the metadata; an existing directory is renamed "
      "only when asked for, and never onto something that exists", floor=3)
def tagdir_renamed(c, r):
    an = c.an('HeadBag.set_multibag_tag_dir')
    info = T('attr', SELF, 'info')
    d = T('param', 'dirname')
    st = [e for e in an.events if e.kind == 'store' and e.recv is info]
    r.ok(st and all(is_const(e.args[0]) and cval(e.args[0]) == 'Multibag-Tag-Directory' and has(e.args[1], lambda s: s is d) for e in st),
         an.entry, 'HeadBag.set_multibag_tag_dir', "the new name is not recorded")
    mv = [x for x in effects(an) if x.kind == 'move']
    for name in ('mb', 'tags/mb', 'a.b/c d/.e', 'multi'):
        w = World({d: name, ROOT: '/w/bag', TAGDIR: 'multibag', T('param', 'migrate'): True}, None, None, an)
        for e in st:
            v = w.val(e.args[1])
            r.ok(v is UNKNOWN or v == name, e, 'HeadBag.set_multibag_tag_dir', "the tag directory %s is recorded as %s" % (name, v))
        for x in mv:
            v = w.val(x.target)
            r.ok(v is UNKNOWN or v == '/w/bag/' + name, x.event, 'HeadBag.set_multibag_tag_dir', "the tag directory %s is put at %s" % (name, v))
    mig = atom(T('truthy', T('param', 'migrate')))
    for x in mv:
        r.ok(implies(x.event.guard, mig), x.event, 'HeadBag.set_multibag_tag_dir', "the directory is renamed without being asked for")
        ex = [a for a in fatoms_g(x.event.guard) if a.op == 'exists' and a.args[0] is x.target]
        r.ok(ex and assign(x.event.guard, lambda a: True if a in ex else None) is FALSE, x.event, 'HeadBag.set_multibag_tag_dir',
             "the directory may be renamed onto an existing one")
        r.ok(x.src is mk_path([ROOT, TAGDIR]), x.event, 'HeadBag.set_multibag_tag_dir', "%s is renamed" % show(x.src)[:80])
    r.ok(mv, an.entry, 'HeadBag.set_multibag_tag_dir', "an existing directory is not renamed")
    for e in st:
        b = assign(e.guard, lambda a: True if a.op == 'truthy' and a.args[0] is T('param', 'migrate') else
                   (False if a.op == 'exists' and contains(a.args[0], d) else (False if a.op == 'eq' else None)))
        n = assign(b, lambda a: None)
        r.ok(b is TRUE or all(a.op == 'exists' for a in support(b)) and assign(b, lambda a: True) is TRUE and assign(b, lambda a: False) is TRUE,
             e, 'HeadBag.set_multibag_tag_dir', "the new name is recorded only if %s" % fshow(e.guard)[:120])


# ------------------------------------------------------------------ registering a bag's files

INC, EXC, BAG = T('param', 'include'), T('param', 'exclude'), T('param', 'bag')
FORMS = [('none', const('data'), dict(isnone=True, isstr=False, islist=False)),
         ('one path', INC, dict(isnone=False, isstr=True, islist=False)),
         ('a list', T('elem', INC), dict(isnone=False, isstr=False, islist=True))]
EXFORMS = [('none', dict(isnone=True, isstr=False, islist=False)),
           ('one path', dict(isnone=False, isstr=True, islist=False)),
           ('a list', dict(isnone=False, isstr=False, islist=True))]


def form_atom(p, f):
    def fn(a):
        if a.op == 'isnone' and a.args[0] is p:
            return f['isnone']
        if a.op == 'isinstance' and a.args[0] is p:
            return f['isstr'] if a.args[1] in ('str', 'unicode', 'basestring') else (f['islist'] if a.args[1] in ('list', 'tuple') else None)
        if a.op == 'truthy' and a.args[0] is p:
            return not f['isnone']
        return None
    return fn


class Register(object):
    def __init__(self, c):
        self.an = c.an('HeadBag.update_for_member')
        self.adds = calls(self.an, 'add_file_lookup')
        self.isstr = False

    @staticmethod
    def path(e):
        """the path registered, for a file in a subdirectory"""
        if e.args[0].op != 'ite':
            return e.args[0]

        def sub(a):
            return True if a.op == 'truthy' and a.args[0].op == 'index' and a.args[0].args[1] is const(0) and \
                a.args[0].args[0].op == 'elem' and call_of(uncopy(a.args[0].args[0].args[0]), '.walk') else None
        out = {t for g, t in lift(e.args[0], e.guard) if assign(g, sub) is not FALSE}
        return out.pop() if len(out) == 1 else e.args[0]

    def excl_atom(self, a, x):
        """a tests whether path x is one of the excluded ones"""
        if a.op == 'in' and a.args[0].op == 'ite' and x in leaves(a.args[0]):
            return self.excl_atom(T('in', x, a.args[1]), x)
        if a.op == 'in' and a.args[0] is x:
            if self.isstr and a.args[1] is EXC:
                return False          # looks for the path in the text of the single excluded path
            return has(a.args[1], lambda s: s is EXC) or is_empty_obj(self.an, a.args[1]) or (a.args[1].op in ('list', 'tuple') and not a.args[1].args)
        if a.op == 'eq' and EXC in a.args and x in a.args:
            return True
        return False

    def anc_atom(self, a, d, f):
        """a tests whether a directory above is excluded: it starts with an excluded path and a slash"""
        def pre(s):
            return s.op == 'startswith' and s.args[0] in (d, f)

        def whole(s):
            p = s.args[1]
            return p.op == 'path' and len(p.args) > 1 and p.args[-1] is const('') or \
                p.op == 'concat' and is_const(p.args[-1]) and str(cval(p.args[-1])).endswith('/')
        ss = []
        has(a, lambda s: ss.append(s) if pre(s) else None)
        return bool(ss) and (a.op in ('existsq', 'startswith')) and all(whole(s) for s in ss)


@rule('C19', 'included-files-registered', "registering a bag adds a lookup entry (path, member name) for every included "
      "path that is a file of the bag and for every file below an included directory; excluded paths and everything below an excluded "
      "directory are left out, and nothing else is", floor=30)
def included_files(c, r):
    R = Register(c)
    an = R.an
    q = 'HeadBag.update_for_member'
    names = [T('param', 'member_name'), T('attr', BAG, 'name')]
    for e in R.adds:
        r.ok(e.recv is SELF and len(e.args) == 2 and set(leaves(e.args[1])) <= set(names), e, q, "the files are registered with %s" % show(e.args[1])[:80])
        for given in (True, False):
            v = settle(e.args[1], lambda a: given if a.op == 'truthy' and a.args[0] is names[0] else
                       (not given if a.op == 'isnone' and a.args[0] is names[0] else None))
            r.ok(v is names[0 if given else 1], e, q, "the files are registered with %s although a name is %s" % (show(v)[:60], "given" if given else "not given"))
    for fname, item, form in FORMS:
        for xname, xform in EXFORMS:
            tag = '%s include=%s exclude=%s' % (q, fname, xname)
            R.isstr = xform['isstr']
            fi, fx = form_atom(INC, form), form_atom(EXC, xform)
            for isfile in (True, False):
                walk = T('call', '.walk', BAG, item)
                el = T('elem', walk)
                d = T('index', el, const(0))
                f = item if isfile else mk_path([d, T('elem', T('index', el, const(2)))])

                def fn(a, excl=None, anc=False, isdir=not isfile, isf=isfile):
                    v = fi(a)
                    v = fx(a) if v is None else v
                    if v is not None:
                        return v
                    if a.op == 'bcall' and a.args[0] in ('.isfile', '.isdir', '.exists') and a.args[2] is item:
                        return {'.isfile': isf, '.isdir': isdir, '.exists': True}[a.args[0]]
                    if R.excl_atom(a, item):
                        return excl == 'item'
                    if R.excl_atom(a, d):
                        return excl == 'dir'
                    if R.excl_atom(a, f):
                        return excl == 'file'
                    if R.anc_atom(a, d, f):
                        return anc
                    if a.op == 'truthy' and a.args[0] is d:
                        return True
                    if a.op == 'truthy' and (a.args[0].op == 'obj' or a.args[0] is walk):
                        return None
                    return None
                cand = [e for e in R.adds if R.path(e) is f and under_normal(e.guard, fn)[0] is not False]
                if not r.ok(len(cand) == 1, cand[1] if len(cand) > 1 else an.entry, tag,
                            "%d places register %s" % (len(cand), "an included file" if isfile else "the files below an included directory")):
                    continue
                e = cand[0]
                what = "an included file" if isfile else "a file below an included directory"
                b, left = under_normal(e.guard, fn)
                r.ok(b is True, e, tag, "%s is not registered unless %s" % (what, [describe(a) for a in left]))
                r.ok(not loop_breaks(e) and not sliced(e), e, tag, "not all of the included files are looked at")
                if xname == 'none':
                    continue
                for ex in (['item'] if isfile else ['item', 'dir', 'file']):
                    b, left = under_normal(e.guard, lambda a: fn(a, excl=ex))
                    r.ok(b is False, e, tag, "%s is registered although the %s is excluded" % (what, ex))
                if not isfile:
                    b, left = under_normal(e.guard, lambda a: fn(a, anc=True))
                    r.ok(b is False, e, tag, "a file is registered although a directory above it is excluded")
                    anc_complete(R, r, e, d, f, tag)
    # an empty list of paths includes nothing
    for e in R.adds:
        if any(uncopy(l.base) is INC for l in e.loops):
            continue
        fi = form_atom(INC, dict(isnone=False, isstr=False, islist=True))
        b, left = under_normal(e.guard, lambda a: False if a.op == 'truthy' and a.args[0] is INC else fi(a))
        r.ok(b is False, e, q + ' include=[]', "files are registered although the list of included paths is empty")
    for e in prunes(an):
        walk = uncopy(e.recv.args[0].args[0])
        d, sd = T('index', e.recv.args[0], const(0)), T('elem', e.recv)
        f = mk_path([d, sd])

        def keep(a):
            if R.excl_atom(a, d) or R.excl_atom(a, f) or R.excl_atom(a, walk.args[2] if len(walk.args) > 2 else d) or R.anc_atom(a, d, f):
                return False
            return None
        R.isstr = False
        if e.name == 'setslice' and e.args and uncopy(e.args[-1]).op == 'comp' and uncopy(e.args[-1]).args[1] is sd:
            ok = under_normal(uncopy(e.args[-1]).args[3].args[0], keep)[0] is True
        else:
            ok = assign(e.guard, keep) is FALSE
        r.ok(ok, e, q + ' pruning', "directories that are not excluded are left out of the walk of the bag")
    known = set()
    for fname, item, form in FORMS:
        el = T('elem', T('call', '.walk', BAG, item))
        known |= {item, mk_path([T('index', el, const(0)), T('elem', T('index', el, const(2)))])}
    for e in R.adds:
        r.ok(R.path(e) in known, e, q, "it registers %s" % show(e.args[0])[:100])
    # in the root directory of the bag as well as below it
    ex = c.an('HeadBag.update_for_member', exact=True)
    n = 0
    for e in calls(ex, 'add_file_lookup'):
        ws = [l.base for l in e.loops if call_of(uncopy(l.base), '.walk')]
        for w in ws[:1]:
            el = T('elem', w)
            for dv in ('', 'data', 'data/s t', 'data/.h'):
                s = Shape({T('index', el, const(0)): dv, T('elem', T('index', el, const(2))): 'x'})
                v = {str(s.val(t)) for g, t in lift(e.args[0], e.guard) if s.truth(g) is not False}
                n += 1
                r.ok(v <= {dv + '/x' if dv else 'x'}, e, q + ' in %r' % dv, "the file x in the directory %r of the bag is registered as %s" % (dv, ', '.join(sorted(v))))
    r.ok(n, ex.entry, q + ' paths', "no file of a directory is registered")


def anc_complete(R, r, e, d, f, tag):
    """where the test on the directories above uses a list collected during the walk, every excluded directory is put there"""
    R.isstr = False
    for a in fatoms_g(e.guard):
        if a.op == 'existsq' and R.anc_atom(a, d, f) and a.args[0].op == 'obj':
            L = a.args[0]
            ps = producers(R.an, L)
            ok = bool(ps)
            g = FALSE
            for v, pg, pl, pe in ps or []:
                if v is not d and v.op not in ('index', 'path'):
                    ok = False
                g = f_or(g, pg)
            if ok and ps[0][0] is d:
                # put there whenever the directory itself is excluded
                def fn(x):
                    if R.excl_atom(x, d):
                        return True
                    if R.anc_atom(x, d, f):
                        return False
                    if x.op == 'truthy' and x.args[0] is d:
                        return True
                    return None
                n = assign(g, fn)
                h = assign(e.guard, lambda x: False if R.excl_atom(x, d) or R.anc_atom(x, d, f) or R.excl_atom(x, f) else
                           (True if x.op == 'truthy' and x.args[0] is d else None))
                # the same outer conditions as the registration
                ok = implies(h, n) or implies(assign(h, fn), n)
            r.ok(ok, e, tag, "an excluded directory is not remembered when the walk comes to the directories below it")


@rule('C19', 'bag-made-member', "the bag is added to the member list exactly when asked for, under the given name or its own", floor=2)
def made_member(c, r):
    an = c.an('HeadBag.update_for_member')
    es = calls(an, 'add_member_bag')
    mk = atom(T('truthy', T('param', 'make_member')))
    g = FALSE
    for e in es:
        r.ok(e.recv is SELF and e.args and set(leaves(e.args[0])) <= {T('param', 'member_name'), T('attr', BAG, 'name')}, e, 'HeadBag.update_for_member',
             "the member is added as %s" % show(e.args[0])[:80])
        g = f_or(g, e.guard)
    ok = False
    for fn in (lambda a: None, lambda a: (form_atom(INC, FORMS[2][2])(a) if form_atom(INC, FORMS[2][2])(a) is not None else form_atom(EXC, EXFORMS[2][1])(a))):
        ok = ok or assign(g, fn) is mk
    r.ok(ok, es[0] if es else an.entry, 'HeadBag.update_for_member', "the bag is made a member if %s" % fshow(g)[:120])


# ------------------------------------------------------------------ head bag metadata

def map_writes(an, base):
    """[(op, key, value, event)] of changes to the map `base`: op is set, default, del or other"""
    out = []
    for e in an.events:
        if e.recv is not base or e.kind not in ('store', 'mutate'):
            continue
        if e.name in ('[]', '__setitem__') and len(e.args) == 2:
            out.append(('set', e.args[0], e.args[1], e))
        elif e.name == 'setdefault':
            out.append(('default', e.args[0], e.args[1] if len(e.args) > 1 else NONE, e))
        elif e.name in ('del', 'pop', '__delitem__') and e.args:
            out.append(('del', e.args[0], NONE, e))
        elif e.name == 'update':
            for a in e.args:
                if a.op == 'dict' and all(isinstance(x, Term) and x.op == 'tuple' and len(x.args) == 2 for x in a.args):
                    for x in a.args:
                        out.append(('set', x.args[0], x.args[1], e))
                elif a.op == 'obj' and a.args[0] == 'dict':
                    st = [x for x in an.events if x.kind == 'store' and x.recv is a and x.seq < e.seq]
                    for x in st:
                        out.append(('set', x.args[0], x.args[1], EventView(x, f_and(x.guard, e.guard))))
                    if not st:
                        out.append(('other', NONE, NONE, e))
                else:
                    out.append(('other', NONE, NONE, e))
            for k, v in e.kw.items():
                out.append(('set', const(k), v, e))
        else:
            out.append(('other', NONE, NONE, e))
    return out


@rule('C20', 'head-metadata-set', "updating the metadata records the head version (the given one; else the recorded one; else '1'), the "
      "profile version, the tag directory (kept if recorded) and the profile reference", floor=6)
def head_metadata_set(c, r):
    an = c.an('HeadBag.update_info')
    info = T('attr', SELF, 'info')
    ws = map_writes(an, info)
    q = 'HeadBag.update_info'
    for op, k, v, e in ws:
        r.ok(op != 'other' and is_const(k), e, q, "the metadata is changed by %s" % e.name)
    ver, prof = T('param', 'version'), T('param', 'profver')

    def final_of(key, given, present):
        """the alternatives for the final value of a metadata item"""
        cur = [T('index', info, const(key))] if present else [None]
        val = cur[0]

        def fn(a):
            if a.op == 'truthy' and a.args[0] is ver:
                return given
            if a.op == 'isnone' and a.args[0] is ver:
                return not given
            if a.op == 'in' and a.args[1] is info and a.args[0] is const(key):
                return val is not None
            return None
        bad = None
        for op, k, v, e in ws:
            if k is not const(key):
                continue
            b, left = under_normal(e.guard, fn)
            if b is False:
                continue
            if b is None:
                bad = (e, left)
                continue
            if op == 'set' or (op == 'default' and val is None):
                val = settle(v, fn)
            elif op == 'del':
                val = None
        return val, bad
    K = 'Multibag-Head-Version'
    for given in (False, True):
        for present in (False, True):
            v, bad = final_of(K, given, present)
            if given:
                ok = v is ver
            elif present:
                ok = v is not None and (v is T('index', info, const(K)) or (call_of(v, '.get') and contains(v, const(K))))
            else:
                ok = v is not None and is_const(v) and cval(v) == '1'
            r.ok(ok and bad is None, bad[0] if bad else an.entry, q + ' head version',
                 "the head version (%s, %s) becomes %s" % ("given" if given else "not given", "one recorded" if present else "none recorded",
                                                           show(v) if v is not None else 'unset'))
    for given in (False, True):
        for present in (False, True):
            v, bad = final_of('Multibag-Version', given, present)
            r.ok(v is prof and bad is None, an.entry, q + ' profile version', "the profile version becomes %s" % (show(v) if v is not None else 'unset'))
            v, bad = final_of('Multibag-Tag-Directory', given, present)
            okd = v is not None and (v is T('index', info, const('Multibag-Tag-Directory')) if present else is_const(v) and cval(v) == 'multibag')
            okd = okd or v is TAGDIR
            r.ok(okd and bad is None, an.entry, q + ' tag directory', "the tag directory becomes %s" % (show(v) if v is not None else 'unset'))
            v, bad = final_of('Multibag-Reference', given, present)
            r.ok(v is not None and is_const(v) and isinstance(cval(v), str) and cval(v) and bad is None, an.entry, q + ' reference',
                 "the profile reference becomes %s" % (show(v) if v is not None else 'unset'))
    # nothing else of the metadata is lost
    for op, k, v, e in ws:
        if is_const(k) and cval(k) not in ('Multibag-Head-Version', 'Multibag-Version', 'Multibag-Tag-Directory', 'Multibag-Reference',
                                           'Internal-Sender-Description', 'Bag-Size', 'Bag-Count'):
            r.fail(e, q, "it also changes the item %s" % cval(k))


@rule('C20', 'description-kept', "existing descriptions of the bag are kept; the statement about the multibag profile is added if none of "
      "them makes it", floor=2)
def description_kept(c, r):
    an = c.an('HeadBag.update_info')
    info = T('attr', SELF, 'info')
    K = const('Internal-Sender-Description')
    cur = T('index', info, K)
    curs = [cur] + [T('call', '.get', info, K, *x) for x in ((), (NONE,), (const(''),))]
    q = 'HeadBag.update_info description'
    for op, k, v, e in map_writes(an, info):
        if k is not K:
            continue
        if op == 'del':
            r.fail(e, q, "the description is removed")
            continue
        if has(v, lambda s: s in curs):
            r.ok(v.op in ('list', 'ite', 'concat', 'add', 'copy', 'binop', 'comp') or v in curs, e, q, "the description becomes %s" % show(v)[:100])
            continue
        b = assign(e.guard, lambda a: True if a.op == 'in' and a.args[0] is K and a.args[1] is info else False if a.op == 'isnone' and a.args[0] in curs else None)
        r.ok(b is FALSE, e, q, "an existing description is replaced by %s" % show(v)[:80])
    adds = [e for e in an.events if e.kind == 'mutate' and e.recv is not None and has(e.recv, lambda s: s in curs) and e.recv is not info]
    for e in adds:
        r.ok(e.name in ('append', 'extend', 'insert'), e, q, "existing descriptions are changed by %s" % e.name)
    said = "This bag complies with the Multibag BagIt profile.  See its reference."
    for what, have in [("no description", None), ("one description", 'A bag.'), ("a description with the statement", said), ("two descriptions", ['A bag.', 'B']),
                       ("the statement first", [said, 'B']), ("the statement last", ['A bag.', said]), ("the statement between others", ['A', said, 'B'])]:
        def facts(a, s):
            if a.op == 'isinstance':
                v, k = s.val(a.args[0]), show(a)
                return None if v is UNKNOWN else isinstance(v, list) if "'list'" in k and 'str' not in k else isinstance(v, str) if 'str' in k and 'list' not in k else None
            return None
        w = World({info: {} if have is None else {'Internal-Sender-Description': have}}, facts, None, an)
        now, known, at, added = have, True, an.entry, []
        for e in an.events:
            st = e.kind == 'store' and e.recv is info and e.args and e.args[0] is K
            if not st and e not in adds:
                continue
            g = w.truth(e.guard)
            if g is False:
                continue
            v = w.val(e.args[-1]) if e.args else UNKNOWN
            if g is None or e.loops or v is UNKNOWN or not st and e.name not in ('append', 'extend'):
                known = False
            elif st:
                # the value is that of the list before what was added to it
                now, at = v + [x for x in added if x not in v] if isinstance(v, list) else v, e
            else:
                x = v if e.name == 'extend' and isinstance(v, list) else [v]
                now, at, added = (now if isinstance(now, list) else [now]) + x, e, added + x
        if not known:
            continue
        lst = lambda x: [] if x is None else x if isinstance(x, list) else [x]
        old, new = lst(have), lst(now)
        r.ok(new[:len(old)] == old, at, q, "for a bag with %s, the descriptions become %s" % (what, new))
        more = new[len(old):]
        if any('complies with the Multibag BagIt profile' in x for x in old):
            r.ok(not more, at, q, "for a bag with %s, the statement is added again" % what)
        else:
            r.ok(len(more) == 1 and 'complies with the Multibag BagIt profile' in str(more[0]), at, q, "for a bag with %s, the statement is not added" % what)


@rule('C20', 'metadata-saved', "the bag is saved after the last change of the metadata; the recorded bag size is the formatted sum of the sizes of all "
      "files of the bag, taken after the bag was saved without one", floor=5)
def metadata_saved(c, r):
    an = c.an('HeadBag.update_info')
    info = T('attr', SELF, 'info')
    q = 'HeadBag.update_info'
    saves = [e for e in an.events if e.kind == 'call' and e.name in ('save', 'bagit.Bag.save', 'Bag.save') or
             (e.kind == 'call' and e.name.endswith('.save') and e.name.split('.')[-2:][0] in ('Bag', 'bagit'))]
    r.ok(saves, an.entry, q, "the bag is not saved")
    ws = map_writes(an, info)
    muts = [e for o, k, v, e in ws] + [e for e in an.events if e.kind == 'mutate' and e.recv is not None and has(e.recv, lambda s: s is info)]
    uncond = [s for s in saves if s.guard is TRUE and not s.loops]
    for e in muts:
        r.ok(any(s.seq > e.seq for s in uncond), e, q, "a change of the metadata is not saved")
    sz = [(o, k, v, e) for o, k, v, e in ws if is_const(k) and cval(k) == 'Bag-Size' and o == 'set']
    r.ok(sz and all(e.guard is TRUE for o, k, v, e in sz), an.entry, q, "the bag size is not always recorded")
    dl = [e for o, k, v, e in ws if is_const(k) and cval(k) == 'Bag-Size' and o == 'del']
    for o, k, v, e in sz:
        before = [s for s in uncond if s.seq < e.seq]
        walks = [x for x in an.events if x.kind == 'call' and x.name == 'os.walk']
        r.ok(before and dl and all(x.seq < before[-1].seq for x in dl), e, q, "the bag size is computed before the bag is saved without one")
        for w in walks:
            r.ok(w.args and w.args[0] in (ROOT, T('attr', SELF, 'path')), w, q, "the bag size is that of %s" % show(w.args[0])[:60])
            r.ok(before and w.seq > before[-1].seq, w, q, "the files are measured before the bag is saved")
        r.ok(has(v, lambda s: call_of(s, 'os.walk')) or has_call(v, '._bag_size'), e, q, "the recorded bag size is %s" % show(v)[:80])
        acc = [s for s in subterms(v) if isinstance(s, Term) and s.op == 'accum' and has_call(s, 'os.walk')]
        for s in acc:
            if not has(s, lambda x: x.op == 'attr' and x.args[1] == 'st_size' or call_of(x, 'os.path.getsize')):
                continue
            conds = [x for x in s.args if isinstance(x, Term) and x.op == 'F']
            r.ok(all(x.args[0] is TRUE for x in conds), e, q, "some files do not count for the bag size: %s" % [fshow(x.args[0])[:80] for x in conds])
