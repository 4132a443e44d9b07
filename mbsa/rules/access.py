"""access to the content of a bag: paths, walks, text files (C23), copies (C24), opening (C27), sizes (C34)"""
import datetime, posixpath
from ..query import *
from .text import lossy
from ..shapes import Shape, UNKNOWN, CWD
from .headbag import settle

RW, RO = T('self', 'ExtendedReadWritableBag'), T('self', 'ExtendedReadOnlyBag')
PATH = T('param', 'path')
BAGDIR = T('attr', RW, '_bagdir')
ROOT = T('attr', RO, '_root')

# (path given, canonical path in the bag or None if it is not in the bag)
SHAPES = [('data/f', 'data/f'), ('bag-info.txt', 'bag-info.txt'), ('data', 'data'), ('data/sub/f.txt', 'data/sub/f.txt'),
          ('data/.hidden', 'data/.hidden'), ('data/..f', 'data/..f'), ('..f', '..f'), ('...', '...'), ('./data/f', 'data/f'),
          ('data//f', 'data/f'), ('data/sub/../f', 'data/f'), ('data/', 'data'), ('bag/f', 'bag/f'), ('data/a b', 'data/a b'),
          ('', ''), ('.', '')]
OUTSIDE = ['..', '../x', '../bag/data/f', '../bag2/f', 'data/../../x', 'data/../../bag/data/f', '/etc/x', '/p/bag2/f', '/p/bag/data/f', './../x']
RO_SHAPES = [x for x in SHAPES]


class PathV(object):
    """a location in a file system"""

    def __init__(self, fs, path):
        self.fs, self.path = fs, path

    def __eq__(self, o):
        return isinstance(o, PathV) and (o.fs, o.path) == (self.fs, self.path)

    def __hash__(self):
        return hash((self.fs, self.path))

    def __repr__(self):
        return 'Path(%s,%s)' % (self.fs, self.path)


class FsV(object):
    def __init__(self, at):
        self.at = at

    def __eq__(self, o):
        return isinstance(o, FsV) and o.at == self.at

    def __hash__(self):
        return hash(self.at)

    def __repr__(self):
        return 'FS(%s)' % self.at


def pos(args):
    return [a for a in args if not (isinstance(a, Term) and a.op == 'kw')]


def kws(args):
    return {a.args[0]: a.args[1] for a in args if isinstance(a, Term) and a.op == 'kw'}


def ext(t, s):
    """values of file-system locations"""
    o, a = t.op, t.args
    if o == 'inst' and a[0] == 'Path' and len(a) >= 3:
        f, p = s.val(a[1]), s.val(a[2])
        if isinstance(f, FsV) and isinstance(p, str):
            return PathV(f, p)
    if o == 'attr':
        if a[1] in ('fs', 'path', 'walk'):
            v = s.val(a[0])
            if isinstance(v, PathV) and a[1] != 'walk':
                return v.fs if a[1] == 'fs' else v.path
            if isinstance(v, FsV) and a[1] == 'walk':
                return ('walker', v)
        if a[1] == 'arguments' and call_of(a[0], '.bind'):
            return ('arguments', a[0])
    if o == 'index' and is_const(a[1]):
        v = s.val(a[0])
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'arguments':
            c = v[1]
            ps = [x for x in subterms(c.args[1]) if isinstance(x, Term) and call_of(x, 'inspect.Parameter')]
            names = [cval(x.args[1]) for x in ps if is_const(x.args[1])]
            vals = pos(c.args[2:])
            if len(names) == 1 and len(vals) == 1 and cval(a[1]) == names[0]:
                return s.val(vals[0])
    if o == 'call' and a:
        if a[0] == '.relpath' and len(a) == 3:
            v, p = s.val(a[1]), s.val(a[2])
            if isinstance(v, PathV) and isinstance(p, str):
                return PathV(v.fs, (v.path + '/' if v.path else '') + p.lstrip('/') if p else v.path)
        if a[0] == '.subfspath' and len(a) in (2, 3):
            v = s.val(a[1])
            p = s.val(a[2]) if len(a) == 3 else ''
            if isinstance(v, PathV) and (isinstance(p, str) or p is None):
                at = posixpath.join(v.fs.at, v.path, p or '')
                return PathV(FsV(at.rstrip('/')), '')
        if a[0] == '.opendir' and len(a) == 3:
            v, p = s.val(a[1]), s.val(a[2])
            if isinstance(v, FsV) and isinstance(p, str):
                return FsV(posixpath.join(v.at, p).rstrip('/'))
        if a[0] == '.walk' and len(a) == 2:
            v = s.val(a[1])
            if isinstance(v, tuple) and v and v[0] == 'walker':
                return ('steps', v[1])
            if isinstance(v, FsV):
                return ('steps', v)
        if a[0] in ('fs.osfs.OSFS', 'fs.open_fs', 'OSFS', 'open_fs') and len(a) == 2:
            p = s.val(a[1])
            if isinstance(p, str):
                return FsV(p if p not in ('', '.') else '')
    return UNKNOWN


PROBES = {'exists': ('file', 'dir'), 'isfile': ('file',), 'isdir': ('dir',), 'lexists': ('file', 'dir')}


def probe(a, s):
    """(test, canonical absolute path) of a condition on the file system"""
    if a.op in PROBES:
        p = s.val(a.args[0])
        return (a.op, posixpath.normpath(p)) if isinstance(p, str) else ((a.op, None) if p is None else None)
    if a.op == 'bcall' and a.args[0][1:] in PROBES:
        recv = s.val(a.args[1])
        m = a.args[0][1:]
        if isinstance(recv, PathV):
            return m, posixpath.normpath(posixpath.join(recv.fs.at, recv.path))
        if isinstance(recv, FsV) and len(a.args) > 2:
            p = s.val(a.args[2])
            if isinstance(p, str):
                return m, posixpath.normpath(posixpath.join(recv.at, p.lstrip('/')))
    return None


def world(at, state):
    """the path `at` is a file, a directory or absent; everything else exists as both"""
    def facts(a, s):
        p = probe(a, s)
        if p is not None:
            m, x = p
            if x is None:
                return None
            if at is not None and x == posixpath.normpath(at):
                return state in PROBES[m]
            return True if at is None else None
        if a.op == 'exc':
            return False
        return None
    return facts


def norm_ret(an, s):
    """the value returned under the given conditions"""
    vs = []
    for r in an.returns:
        t = s.truth(r[0])
        if t is False:
            continue
        vs.append(s.val(r[1]) if t else UNKNOWN)
    return vs


CLASSES = (('ExtendedReadWritableBag', RW), ('ExtendedReadOnlyBag', RO))


def env_of(cls):
    if cls is RW or cls == 'ExtendedReadWritableBag':
        return {BAGDIR: '/p/bag'}
    return {ROOT: PathV(FsV('/p/bag'), '')}


@rule('C23', 'paths-tested-in-the-bag', "whether a path exists, is a file or is a directory is decided by the entry of that path below the bag's root; a "
      "path that leads out of the bag is not in it", floor=100)
def paths_tested(c, r):
    for cls, me in CLASSES:
        for m in ('exists', 'isfile', 'isdir'):
            an = c.an('%s.%s' % (cls, m))
            q = '%s.%s' % (cls, m)
            for given, canon in SHAPES:
                at = posixpath.join('/p/bag', canon)
                for state in ('file', 'dir', None):
                    s = Shape(dict(env_of(cls), **{}), world(at, state), ext)
                    s.env[PATH] = given
                    vs = norm_ret(an, s)
                    want = state in PROBES[m]
                    r.ok(vs and all(v is not UNKNOWN and bool(v) == want for v in vs), an.entry, '%s(%r), %s' % (q, given, state or 'absent'),
                         "it says %s although the entry %s is %s" % (vs, canon or 'root', state or 'absent'))
            if me is RW:
                for given in OUTSIDE:
                    s = Shape(env_of(cls), world(None, None), ext)
                    s.env[PATH] = given
                    vs = norm_ret(an, s)
                    r.ok(all(v is not UNKNOWN and not v for v in vs), an.entry, '%s(%r)' % (q, given), "a path outside of the bag may be found (%s)" % vs)
            else:
                ps = [a for a in atoms_of(an) if a.op in PROBES]
                r.ok(not ps, an.entry, q, "it looks at the local file system: %s" % [describe(a) for a in ps])


def atoms_of(an):
    out = set()
    for e in an.events:
        out |= fatoms_g(e.guard)
        for a in e.args:
            out |= fatoms(a)
    for g, v in [(x[0], x[1]) for x in an.returns]:
        out |= fatoms_g(g) | fatoms(v)
    return out


STAT = ('os.stat', 'os.lstat', 'os.path.getsize', 'os.path.getmtime', 'os.path.getctime', 'os.path.getatime')


def stat_terms(an):
    out = set()
    todo = [x for e in an.events for x in list(e.args) + list(e.kw.values())] + [x[1] for x in an.returns]
    for t in todo:
        for x in subterms(t):
            if isinstance(x, Term) and x.op == 'call' and x.args[0] in STAT:
                out.add(x)
    return out


def info_of(t, s):
    """(path, attribute) of a size or time term"""
    if t.op == 'attr' and t.args[1].startswith('st_') and call_of(t.args[0], 'os.stat'):
        return s.val(t.args[0].args[1]), t.args[1]
    if t.op == 'attr' and call_of(t.args[0], '.getinfo', '.getdetails'):
        k = t.args[0]
        f, p = s.val(k.args[1]), s.val(k.args[2])
        ns = kws(k.args).get('namespaces')
        if k.args[0] == '.getinfo' and ns is None and len(pos(k.args)) > 3:
            ns = k.args[3]
        det = k.args[0] == '.getdetails' or ns is not None and has(ns, lambda x: is_const(x) and cval(x) == 'details')
        if isinstance(f, FsV) and isinstance(p, str) and det:
            return posixpath.join(f.at, p.lstrip('/')), t.args[1]
    if call_of(t, '.getsize') and len(t.args) == 3:
        f, p = s.val(t.args[1]), s.val(t.args[2])
        if isinstance(f, FsV) and isinstance(p, str):
            return posixpath.join(f.at, p.lstrip('/')), 'size'
    if call_of(t, 'os.path.getsize'):
        return s.val(t.args[1]), 'st_size'
    if call_of(t, 'os.path.getmtime', 'os.path.getctime', 'os.path.getatime'):
        return s.val(t.args[1]), 'st_' + t.args[0][-5:]
    return None, None


SIZE = ('st_size', 'size')
TIMES = {'ctime': ('st_ctime', 'created'), 'mtime': ('st_mtime', 'modified'), 'atime': ('st_atime', 'accessed')}


def resolve(t, s):
    """drop gates that the shape decides"""
    for _ in range(12):
        if t.op != 'ite':
            return t
        v = s.truth(t.args[0])
        if v is None:
            return t
        t = t.args[1] if v else t.args[2]
    return t


@rule('C23', 'size-and-times-of-the-entry', "the size and the times of a path are those of the entry below the bag's root; for a path that leads out of the "
      "bag nothing outside is looked at", floor=40)
def size_times(c, r):
    for cls, me in CLASSES:
        for m in ('sizeof', 'timesfor'):
            an = c.an('%s.%s' % (cls, m))
            q = '%s.%s' % (cls, m)
            for given, canon in SHAPES:
                at = posixpath.normpath(posixpath.join('/p/bag', canon))
                s = Shape(env_of(cls), world(at, 'file'), ext)
                s.env[PATH] = given
                if m == 'sizeof':
                    vs = [resolve(x[1], s) for x in an.returns if s.truth(x[0]) is not False]
                    got = [info_of(v, s) for v in vs]
                    ok = got and all(isinstance(p, str) and posixpath.normpath(p) == at and k in SIZE for p, k in got)
                    r.ok(ok, an.entry, '%s(%r)' % (q, given), "the size is %s" % [show(v)[:80] for v in vs])
                else:
                    ft = [e for e in an.events if e.kind == 'call' and ('ctime' in e.kw or len(e.args) >= 3 and 'FileTimes' in show(e.recv or NONE) + e.name)]
                    ok = False
                    for e in ft:
                        vals = dict(zip(('ctime', 'mtime', 'atime'), e.args))
                        vals.update(e.kw)
                        ok = all(k in vals and time_ok(vals[k], k, at, s) for k in TIMES)
                    r.ok(ok, ft[0] if ft else an.entry, '%s(%r)' % (q, given), "the times are not those of the entry")
            if me is RW:
                for given in OUTSIDE:
                    s = Shape(env_of(cls), world(None, None), ext)
                    s.env[PATH] = given
                    for t in stat_terms(an):
                        v = s.val(t.args[1])
                        r.ok(v is None or all(s.truth(x[0]) is False for x in an.returns), an.entry, '%s(%r)' % (q, given), "it looks at %s" % (v,))
            else:
                r.ok(not stat_terms(an), an.entry, q, "it looks at the local file system")


def time_ok(t, k, at, s):
    """t is the entry's time k, possibly converted to seconds"""
    ok = False
    for x in subterms(t):
        if isinstance(x, Term):
            p, a = info_of(x, s)
            if a is not None and isinstance(p, str):
                if posixpath.normpath(p) != at or a not in TIMES[k]:
                    return False
                ok = True
    return ok and in_seconds(t, s)


WHEN = datetime.datetime(2017, 7, 14, 2, 40, 0, 500000, tzinfo=datetime.timezone.utc)
LOSSY = ('mktime', 'timetuple', 'utctimetuple', 'strftime', 'strptime', 'localtime', 'gmtime', 'fromtimestamp', 'isoformat', 'int', 'round', 'replace', 'date', 'floor')


def in_seconds(t, s):
    """the time is given in seconds of the epoch with their fractions: the value that a modification time in the middle of a second gets"""
    def tfacts(a, sh):
        if a.op == 'isinstance':
            v = sh.val(a.args[0])
            if v is not UNKNOWN:
                n = str(cval(a.args[1]) if isinstance(a.args[1], Term) and is_const(a.args[1]) else a.args[1]).split('.')[-1]
                return n == type(v).__name__ or n in ('Number', 'object') and not isinstance(v, datetime.datetime)
        if a.op in ('truthy', 'isnone') and sh.val(a.args[0]) is not UNKNOWN:
            return (a.op == 'truthy')
        return s.facts(a, sh) if s.facts else None

    def tval(x, sh):
        if isinstance(x, Term):
            p, k = info_of(x, s)
            if k is not None and isinstance(p, str):
                return 1500000000.5 if k.startswith('st_') else WHEN
            o, a = x.op, x.args
            if o == 'call' and a[0] in ('datetime.datetime', 'datetime'):
                v = [sh.val(y) for y in pos(a[1:])]
                kw = {n: sh.val(y) for n, y in kws(a).items()}
                if all(isinstance(y, int) for y in v) and not any(y is UNKNOWN for y in kw.values()):
                    try:
                        return datetime.datetime(*v, **kw)
                    except (TypeError, ValueError):
                        return UNKNOWN
            if o == 'attr' and a[1] in ('tzinfo', 'year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'days', 'seconds', 'microseconds'):
                v = sh.val(a[0])
                if isinstance(v, (datetime.datetime, datetime.timedelta)):
                    return getattr(v, a[1], UNKNOWN)
            if o == 'attr' and a[1] == 'utc':
                return datetime.timezone.utc
            if o == 'sub':
                v = sh.vals(a)
                if v is not None:
                    try:
                        return v[0] - v[1]
                    except TypeError:
                        return UNKNOWN
            if o == 'call' and a[0] in ('.total_seconds', '.timestamp') and len(a) == 2:
                v = sh.val(a[1])
                if hasattr(v, a[0][1:]):
                    return getattr(v, a[0][1:])() if v is WHEN or a[0] == '.total_seconds' else UNKNOWN
            if o == 'call' and a[0] == 'float' and len(a) == 2:
                v = sh.val(a[1])
                return v if isinstance(v, float) else UNKNOWN
        return ext(x, sh)
    v = Shape(s.env, tfacts, tval).val(t)
    if v is not UNKNOWN:
        return v == 1500000000.5
    return not has(t, lambda x: x.op == 'call' and str(x.args[0]).split('.')[-1] in LOSSY or x.op == 'floordiv')


@rule('C23', 'text-opened-from-the-bag', "opening a text file opens the entry of that path below the bag's root for reading, with the encoding asked for; by default "
      "as UTF-8 without a byte-order mark, for either kind of bag", floor=30)
def text_opened(c, r):
    ENC = T('param', 'encoding')
    for cls, me in CLASSES:
        an = c.an('%s.open_text_file' % cls)
        q = '%s.open_text_file' % cls
        d = default_of(c, cls, 'open_text_file', 'encoding')
        r.ok(d == 'utf-8-sig', an.entry, q, "the default encoding is %s" % d)
        for given, canon in SHAPES:
            at = posixpath.normpath(posixpath.join('/p/bag', canon))

            def facts(a, s):
                if a.op == 'isinstance' and isinstance(s.val(a.args[0]), PathV):
                    return a.args[1] == 'Path'
                return world(at, 'file')(a, s)
            s = Shape(env_of(cls), facts, ext)
            s.env[PATH] = given
            vs = [resolve(x[1], s) for x in an.returns if s.truth(x[0]) is not False]
            ok = bool(vs)
            for v in vs:
                p, mode, enc = opened_file(v, s)
                ok = ok and isinstance(p, str) and posixpath.normpath(p) == at and mode in ('r', 'rt') and enc is ENC
            r.ok(ok, an.entry, '%s(%r)' % (q, given), "it opens %s" % [show(v)[:100] for v in vs])
        if me is RW:
            for given in OUTSIDE:
                s = Shape(env_of(cls), world(None, None), ext)
                s.env[PATH] = given
                for x in an.returns:
                    v = resolve(x[1], s)
                    p = opened_file(v, s)[0]
                    r.ok(p is None or s.truth(x[0]) is False, an.entry, '%s(%r)' % (q, given), "it opens %s" % (p,))
        else:
            os_open = [e for e in an.events if e.kind == 'open']
            r.ok(not os_open, an.entry, q, "it opens a local file")
        for e in an.events:
            if lossy(e):
                r.fail(e, q + ' errors', "text that is not well encoded is read as something else (errors=%s)" % show(lossy(e)))


def opened_file(v, s):
    """(path, mode, encoding term)"""
    if v.op == 'file':
        m = s.val(v.args[1])
        return s.val(v.args[0]), m, v.args[2] if len(v.args) > 2 else NONE
    if call_of(v, '.open', '.open_text_file') and len(v.args) > 2:
        f = s.val(v.args[1])
        if isinstance(f, FsV):
            ps, k = pos(v.args[2:]), kws(v.args[2:])
            p = s.val(ps[0])
            m = s.val(ps[1]) if len(ps) > 1 else (s.val(k['mode']) if 'mode' in k else 'r')
            e = ps[3] if len(ps) > 3 else k.get('encoding', NONE)
            return (posixpath.join(f.at, p.lstrip('/')) if isinstance(p, str) else UNKNOWN), m, e
    return UNKNOWN, None, None


def default_of(c, cls, meth, par):
    import ast
    f = c.prog.method(cls, meth)
    a = f.node.args
    names = [x.arg for x in a.args]
    if par in names:
        i = names.index(par) - (len(names) - len(a.defaults))
        if i >= 0 and isinstance(a.defaults[i], ast.Constant):
            return a.defaults[i].value
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == par and isinstance(d, ast.Constant):
            return d.value
    return None


START = T('param', 'start')
STARTS = [(None, ''), ('', ''), ('data', 'data'), ('data/', 'data'), ('data/sub', 'data/sub'), ('data//sub', 'data/sub'), ('data/sub//', 'data/sub'), ('data/.hid', 'data/.hid'), ('multibag', 'multibag'), ('bag', 'bag')]


@rule('C23', 'walk-reports-everything', "a walk reports every directory at or below the start with all of its subdirectories and files, top down, the directory as a path relative to "
      "the bag's root ('' for the root itself) with forward slashes; a start that is absolute, missing or outside of the bag is refused", floor=60)
def walk(c, r):
    for cls, me in CLASSES:
        an = c.an('%s.walk' % cls, exact=True)
        q = '%s.walk' % cls
        ys = [e for e in an.events if e.kind == 'yield']
        if not r.ok(len(ys) == 1 and ys[0].args[0].op == 'tuple' and len(ys[0].args[0].args) == 3, an.entry, q, "it yields something else than triples"):
            continue
        y = ys[0]
        d, subs, files = y.args[0].args
        src = step_source(y, d, subs, files)
        if not r.ok(src is not None, y, q, "the triple is not taken from one directory listing"):
            continue
        S, W = src
        exits = [x for x in loop_breaks(y) if not stop_exit(x)]
        r.ok(not exits and not sliced(y) and not [o for l in y.loops for o in l.order if o in ('rev', 'sorted', 'set')], y, q, "the walk ends early or is reordered")
        for i, t in ((1, subs), (2, files)):
            r.ok(all_names(an, y, t, T('index', S, const(i))), y, q, "the %s reported are %s" % ('subdirectories' if i == 1 else 'files', show(t)[:80]))
        for bd in (['/p/bag', 'bag', './bag', '/p/bag/bag'] if me is RW else ['/p/bag']):
            for st, canon in STARTS:
                def facts(a, s, ok=True):
                    if a.op == 'bcall' and a.args[0] in ('.isdir', '.exists') and a.args[1] is me:
                        v = s.val(a.args[2])
                        return ok if isinstance(v, str) and posixpath.normpath(v) == (canon or '.') else None
                    p = probe(a, s)
                    if p is not None and p[1] is not None:
                        return ok if p[1] == posixpath.normpath(posixpath.join(bd, canon)) and p[0] != 'isfile' else None
                    if a.op == 'exc':
                        return False
                    if a.op in ('while',) or a.op == 'truthy' and a.args[0].op == 'while':
                        return True
                    return None
                env = {BAGDIR: bd} if me is RW else env_of(cls)
                s = Shape(dict(env), facts, ext)
                s.env[START] = st
                tag = '%s(%r) in %s' % (q, st, bd)
                root = walk_root(W, s)
                want = posixpath.normpath(posixpath.join(bd, canon))
                if not r.ok(root is not None and posixpath.normpath(root) == want, y, tag, "it walks %s" % (show(W)[:100])):
                    continue
                r.ok(s.left(y.guard) is TRUE, y, tag, "directories are reported only if %s" % fshow(s.left(y.guard))[:120])
                for sub in ('', 'x', '.y', 'x/.y', 'bag/x', 'data/x', '.'+'.z', 'start/data'):
                    s2 = Shape(dict(env), facts, ext)
                    s2.env[START] = st
                    s2.env[T('index', S, const(0))] = (posixpath.join(root, sub) if sub else root) if me is RW else '/' + sub
                    v = s2.val(d)
                    r.ok(v == posixpath.join(canon, sub).rstrip('/'), y, '%s, below %r' % (tag, sub), "the directory is reported as %s" % (v,))
        for st in OUTSIDE + (['missing'] if me is RW else []):
            if me is RO and not st.startswith('/'):
                continue

            def out(a, s):
                if a.op == 'bcall' and a.args[1] is me and a.args[0] in ('.isdir', '.exists'):
                    return False
                p = probe(a, s)
                if p is not None:
                    return st != 'missing'
                if a.op == 'exc':
                    return False
                return None
            s = Shape(env_of(cls), out, ext)
            s.env[START] = st
            r.ok(s.truth(y.guard) is False, y, '%s(%r)' % (q, st), "a walk from there is not refused")
            r.ok(any(s.truth(e.guard) is True for e in raises(an)), an.entry, '%s(%r)' % (q, st), "a walk from there is no error")


def stop_exit(x):
    """leaving a loop because the listing is exhausted"""
    l, k, g, ln = x
    return implies(g, f_or(*([FALSE] + [atom(a) for a in support(g) if a.op == 'exc' and 'StopIteration' in [str(z) for z in a.args]])))


def step_source(y, d, subs, files):
    """(listing element, walk call) the yielded triple comes from"""
    cand = set()
    for t in (d, subs, files):
        for x in subterms(t):
            if isinstance(x, Term) and x.op == 'elem' and (call_of(x.args[0], 'os.walk', '.walk')):
                cand.add((x, x.args[0]))
            if isinstance(x, Term) and call_of(x, 'next') and call_of(x.args[1], 'os.walk', '.walk'):
                cand.add((x, x.args[1]))
    return cand.pop() if len(cand) == 1 else None


def walk_root(W, s):
    if W.args[0] == 'os.walk':
        k = kws(W.args)
        if len(pos(W.args)) > 2 and not (is_const(W.args[2]) and cval(W.args[2])):
            return None
        if 'topdown' in k and not (is_const(k['topdown']) and cval(k['topdown'])):
            return None
        if 'followlinks' in k and not (is_const(k['followlinks']) and not cval(k['followlinks'])):
            return None
        v = s.val(W.args[1])
        return v if isinstance(v, str) else None
    v = s.val(W)
    if isinstance(v, tuple) and v[0] == 'steps':
        return v[1].at
    return None


def all_names(an, y, t, base):
    """t lists exactly the names in base, which is left as it was found"""
    if [e for e in an.events if e.kind in ('mutate', 'store') and e.recv is base and e.name not in ('sort', 'reverse')]:
        return False
    t0 = uncopy(t)
    if t0 is base:
        return True
    if t0.op == 'comp' and len(t0.args[2]) == 1:
        g = t0.args[2][0]
        ok = uncopy(g.args[0]) is base and t0.args[3].op == 'F' and t0.args[3].args[0] is TRUE
        el = T('elem', g.args[0])
        return ok and (t0.args[1] is T('attr', el, 'name') or t0.args[1] is el)
    if t0.op == 'obj':
        got = producers(an, t0)
        if got is None or len(got) != 1:
            return False
        v, g, ls, e = got[0]
        own = [l for l in ls if l not in y.loops]
        if len(own) != 1 or uncopy(own[0].base) is not base or [x for x in loop_breaks(e) if x[0] is own[0]] or e.seq > y.seq:
            return False
        el = T('elem', own[0].base)
        return v in (T('attr', el, 'name'), el) and implies(y.guard, g)
    return False


def onplace(p):
    return posixpath.normpath(posixpath.join(CWD, p))


@rule('C23', 'bag-root-known', "a bag opened from a directory remembers that directory as its root, whatever the form of the path given; a "
      "bag in another file system is confined to a file system that begins at the bag's root", floor=12)
def bag_root(c, r):
    an = c.an('ExtendedReadWritableBag.__init__')
    q = 'ExtendedReadWritableBag.__init__'
    p = [a for a in c.prog.method('ExtendedReadWritableBag', '__init__').node.args.args][1].arg
    for given, name in (('/p/bag', 'bag'), ('/p/bag/', 'bag'), ('bag', 'bag'), ('q/bag//', 'bag'), ('./bag', 'bag'), ('../x/bag/', 'bag'),
                        ('.', 'here'), ('../', 'work'), ('/p/bag/.', 'bag')):
        s = Shape({T('param', p): given}, None, ext)
        d, n = [s.val(an.final_heap.get(('attr', RW, a), NONE)) for a in ('_bagdir', '_bagname')]
        r.ok(isinstance(d, str) and onplace(d) == onplace(given) and not d.endswith('/'), an.entry, '%s(%r)' % (q, given), "the root is %s" % (d,))
        r.ok(n == name, an.entry, '%s(%r)' % (q, given), "the name is %s" % (n,))
    an = c.an('ReadOnlyBag.__init__')
    q = 'ReadOnlyBag.__init__'
    me = T('self', 'ReadOnlyBag')
    B = T('param', 'bagpath')
    fin = an.final_heap.get(('attr', me, '_root'), NONE)
    nm = an.final_heap.get(('attr', me, '_name'), NONE)
    for given, at, name in (('/p/bag', '/p/bag', 'bag'), ('/p/bag/', '/p/bag', 'bag'), ('bag', 'bag', 'bag'), ('q/bag//', 'q/bag', 'bag'),
                            ('.', '.', 'here'), ('../', '..', 'work'), ('/p/bag/.', '/p/bag', 'bag'),
                            (PathV(FsV('/z'), 'a/bag'), '/z/a/bag', 'bag'), (PathV(FsV('/z'), ''), '/z', 'given')):
        for gname in (None, 'given'):
            if gname is None and name == 'given':
                continue

            def facts(a, s):
                if a.op == 'isinstance' and a.args[0] is B:
                    return isinstance(given, PathV) == (a.args[1] == 'Path') if a.args[1] in ('Path', 'str') else None
                if a.op == 'truthy' and a.args[0] is B:
                    return True
                return None
            s = Shape({B: given, T('param', 'name'): gname, T('param', 'location'): None}, facts, ext)
            v, n = s.val(fin), s.val(nm)
            tag = '%s(%r, %r)' % (q, given, gname)
            r.ok(isinstance(v, PathV) and v.path == '' and onplace(v.fs.at) == onplace(at), an.entry, tag, "the root is %s" % (v,))
            r.ok(n == (gname or name), an.entry, tag, "the name is %s" % (n,))


@rule('C23', 'paths-in-file-systems', "a location relative to another one is in the same file system, below it; a file system made for a location begins "
      "there; existence tests of a location are made at that location", floor=20)
def path_class(c, r):
    me = T('self', 'Path')
    FSA, PA = T('attr', me, 'fs'), T('attr', me, 'path')
    an = c.an('Path.__init__')
    r.ok(an.final_heap.get(('attr', me, 'fs')) is T('param', 'filesys'), an.entry, 'Path.__init__', "the file system is not kept")
    r.ok(an.final_heap.get(('attr', me, 'path')) is T('param', 'path'), an.entry, 'Path.__init__', "the path is not kept")
    ps = [a.arg for a in c.prog.method('Path', 'relpath').node.args.args][1]
    an = c.an('Path.relpath')
    for base in ('', 'x', 'x/y'):
        for rel, canon in (('', ''), ('f', 'f'), ('/f', 'f'), ('d/f', 'd/f'), ('.f', '.f')):
            s = Shape({FSA: FsV('/z'), PA: base, T('param', ps): rel}, None, ext)
            vs = norm_ret(an, s)
            want = posixpath.join(base, canon).rstrip('/')
            r.ok(len(vs) == 1 and vs[0] == PathV(FsV('/z'), want), an.entry, 'Path.relpath(%r) of %r' % (rel, base), "it is %s" % vs)
    an = c.an('Path.subfspath')
    ps = [a.arg for a in c.prog.method('Path', 'subfspath').node.args.args][1]
    for base in ('', 'x', 'x/y'):
        for rel in (None, '', 'd', 'd/e'):
            s = Shape({FSA: FsV('/z'), PA: base, T('param', ps): rel}, None, ext)
            vs = norm_ret(an, s)
            want = PathV(FsV(posixpath.join('/z', base, rel or '').rstrip('/')), '')
            r.ok(len(vs) == 1 and vs[0] == want, an.entry, 'Path.subfspath(%r) of %r' % (rel, base), "it is %s" % vs)
    for m in ('exists', 'isfile', 'isdir'):
        an = c.an('Path.' + m)
        for state in ('file', 'dir', None):
            s = Shape({FSA: FsV('/z'), PA: 'a/f'}, world('/z/a/f', state), ext)
            vs = norm_ret(an, s)
            r.ok(len(vs) == 1 and vs[0] is not UNKNOWN and bool(vs[0]) == (state in PROBES[m]), an.entry, 'Path.%s' % m, "it says %s for %s" % (vs, state or 'nothing'))


# ---------------------------------------------------------------------------------------------------------------- copies

DEST = '/o'
DESTDIR = T('param', 'destdir')
WIDE = ('OSError', 'IOError', 'EnvironmentError', 'Exception', 'BaseException', 'None', '')
QUIET_FS = ('exists', 'isfile', 'isdir', 'hassyspath', 'getsyspath', 'getinfo', 'getdetails', 'getsize', 'close', 'islink')


class Disk(object):
    """the few directories and files a copy is about; `bad` collects what must not happen"""

    def __init__(self, dirs, files):
        self.dirs, self.files, self.bad, self.failed = set(dirs), dict(files), [], False

    def parent_ok(self, p):
        return posixpath.dirname(p) in self.dirs

    def mkdir(self, p, exist_ok, deep):
        if p in self.dirs:
            if not exist_ok:
                self.fail('%s exists already' % p)
            return
        if p in self.files:
            return self.fail('%s is a file' % p)
        if not deep and not self.parent_ok(p):
            return self.fail('the parent of %s is missing' % p)
        while p not in self.dirs and p not in ('', '/'):
            self.dirs.add(p)
            p = posixpath.dirname(p)

    def fail(self, why):
        self.failed = True
        self.bad.append(why)

    def put(self, p, ino):
        """a new name for a file, or its content written into the file that has the name"""
        if not self.parent_ok(p):
            return self.fail('the directory of %s is missing' % p)
        if p in self.dirs:
            return self.fail('%s is a directory' % p)
        old = self.files.get(p)
        if old is not None and old != 'SRC':
            self.bad.append('it writes into the existing file %s' % p)
        if old == 'SRC':
            return
        self.files[p] = ino

    def rm(self, p):
        if p not in self.files:
            return self.fail('%s is not there to be removed' % p)
        if self.files[p] == 'SRC':
            self.bad.append("the bag's own file may be removed")
        del self.files[p]


def fsplace(recv, p, s):
    v = s.val(recv) if recv is not None else None
    p = s.val(p)
    if isinstance(v, FsV) and isinstance(p, str):
        return posixpath.normpath(posixpath.join(v.at, p.lstrip('/')))
    return None


def localplace(p, s):
    p = s.val(p)
    return posixpath.normpath(p) if isinstance(p, str) else None


def copy_ops(an):
    """the events of a copy operation that touch a file system"""
    out = []
    for e in an.events:
        if e.kind == 'open' or e.kind in ('call', 'mutate') and (e.name.startswith(('os.', 'shutil.', 'fs.')) or e.name in FS_METHODS or e.name in ('remove', 'copy', 'move', 'copy_file', 'replicate', 'save', 'write')):
            if e.name.startswith('os.path.') or e.name in ('fs.open_fs', 'fs.osfs.OSFS', 'os.stat', 'os.lstat', 'os.listdir', 'os.walk', 'os.access'):
                continue
            out.append(e)
    return out


def step(e, s, d, linkfail):
    """apply one operation to the disk; False if it is not understood"""
    n, a = e.name, e.args
    if n in ('shutil.copymode', 'shutil.copystat', 'os.chmod', 'os.utime', 'fs.copy.copy_modified_time') and len(a) >= 2:
        y = localplace(a[0 if n.startswith('os.') else 1], s)
        if y is not None and d.files.get(y) == 'SRC' and n.startswith('os.'):
            d.bad.append("the bag's own file is changed by %s" % n)
        return y is not None
    flag = lambda *ks: any(k in e.kw and is_const(e.kw[k]) and bool(cval(e.kw[k])) for k in ks)
    if n in ('os.makedirs', 'os.mkdir') and a and e.kind == 'call':
        p = localplace(a[0], s)
        if p is None:
            return False
        d.mkdir(p, flag('exist_ok'), n == 'os.makedirs')
        return True
    if n in ('makedirs', 'makedir') and e.recv is not None and a:
        p = fsplace(e.recv, a[0], s)
        if p is None:
            return False
        d.mkdir(p, flag('recreate'), n == 'makedirs')
        return True
    if n in ('os.remove', 'os.unlink') and a:
        p = localplace(a[0], s)
        if p is None:
            return False
        d.rm(p)
        return True
    if n == 'remove' and e.recv is not None and a:
        p = fsplace(e.recv, a[0], s)
        if p is None:
            return False
        d.rm(p)
        return True
    if n in ('os.link', 'shutil.copy', 'shutil.copy2', 'shutil.copyfile') and len(a) >= 2:
        x, y = localplace(a[0], s), localplace(a[1], s)
        if x is None or y is None:
            return False
        if n == 'os.link':
            if linkfail or y in d.files or y in d.dirs or not d.parent_ok(y):
                return True
            if d.files.get(x) == 'SRC':
                d.files[y] = 'SRC'
                return True
            return False
        fl = e.kw.get('follow_symlinks')
        if fl is not None and not (is_const(fl) and cval(fl)):
            d.fail('%s, if it is a symbolic link, is copied as the link and not as the file' % x)
            return True
        if x not in d.files:
            d.fail('%s is copied, which is not there' % x)
            return True
        if y in d.dirs and n != 'shutil.copyfile':
            y = posixpath.join(y, posixpath.basename(x))
        d.put(y, ('copy', d.files[x]))
        return True
    if n in ('fs.copy.copy_file', 'copy_file') and len(a) >= 4:
        x, y = fsplace(a[0], a[1], s), fsplace(a[2], a[3], s)
        if x is None or y is None:
            return False
        if x not in d.files:
            d.fail('%s is copied, which is not there' % x)
            return True
        d.put(y, ('copy', d.files[x]))
        return True
    if n in ('os.rename', 'os.replace', 'shutil.move') and len(a) >= 2:
        x, y = localplace(a[0], s), localplace(a[1], s)
        if x is None or y is None or x not in d.files:
            return False
        if d.files[x] == 'SRC':
            d.bad.append("the bag's own file is moved away")
        d.files[y] = d.files.pop(x)
        return True
    return False


def run_copy(an, cls, me, path, src, dest, parent, hl, linkfail, copyfail, syspath, logger):
    """the outcome of a copy in one situation: (disk, may return, refused)"""
    S = posixpath.join('/p/bag', path)
    D = posixpath.join(DEST, path)
    dirs, files = {'/p/bag', DEST, '/', '/p', posixpath.dirname(S)}, {}
    if src == 'file':
        files[S] = 'SRC'
    elif src == 'dir':
        dirs.add(S)
    if parent:
        x = posixpath.dirname(D)
        while x not in dirs:
            dirs.add(x)
            x = posixpath.dirname(x)
    if dest == 'dir':
        dirs.add(D)
    elif dest:
        files[D] = 'SRC' if dest == 'same' else 'OLD'
    d = Disk(dirs, files)
    init = (set(dirs), dict(files))

    def state(p):
        return 'file' if p in init[1] else 'dir' if p in init[0] else None

    def facts(a, s):
        if a.op == 'bcall' and a.args[1] is me and a.args[0][1:] in PROBES:
            v = s.val(a.args[2])
            return None if not isinstance(v, str) else state(posixpath.normpath(posixpath.join('/p/bag', v))) in PROBES[a.args[0][1:]]
        p = probe(a, s)
        if p is not None and p[1] is not None:
            return state(p[1]) in PROBES[p[0]]
        if a.op in ('truthy', 'bcall') and (a.args[0] if a.op == 'truthy' else a).op in ('call', 'bcall'):
            k = a.args[0] if a.op == 'truthy' else a
            if k.args[0] == '.hassyspath':
                v = s.val(k.args[1])
                return (syspath or me is RW) if isinstance(v, FsV) and v.at.startswith('/p/bag') else True
            if k.args[0] == 'os.path.samefile':
                v = [s.val(x) for x in k.args[1:3]]
                if all(isinstance(x, str) for x in v):
                    v = [posixpath.normpath(x) for x in v]
                    return v[0] in init[1] and init[1][v[0]] == init[1].get(v[1])
        if a.op == 'exc':
            what = ' '.join(str(x) for x in a.args[1:])
            wide = str(a.args[1]).split('.')[-1] in WIDE or any(w in str(a.args[1]) for w in WIDE if w)
            if 'os.link' in what:
                return bool(linkfail) and wide
            if 'copy' in what:
                return bool(copyfail) and wide
            return False
        return None

    def more(t, s):
        if call_of(t, '.getsyspath') and len(t.args) == 3:
            p = fsplace(t.args[1], t.args[2], s)
            if p is not None:
                return p
        return ext(t, s)
    env = dict(env_of(cls))
    env.update({PATH: path, DESTDIR: DEST, T('param', 'logger'): None})
    if logger:
        env[T('param', 'logger')] = 'logger'
    if me is RW:
        env[T('attr', RW, 'replicate_with_hardlink')] = env[T('attr', RW, '_replwhl')] = hl
    s = Shape(env, facts, more)
    for e in copy_ops(an):
        t = s.truth(e.guard)
        if t is False:
            continue
        if t is None:
            d.bad.append('%s is done only if %s' % (e.name, fshow(s.left(e.guard))[:100]))
            continue
        if not step(e, s, d, linkfail):
            d.bad.append('%s(%s): not a copy of the file' % (e.name, ', '.join(show(x)[:40] for x in e.args)))
    ret = [s.truth(x[0]) for x in an.returns]
    refused = [e for e in raises(an) if s.truth(e.guard) is True]
    return d, ret, refused, S, D, init


@rule('C24', 'replicate-makes-the-file', "replicating a file leaves a file with the same content at the same path below the destination, whatever is there: missing directories are "
      "made, a file of that name is replaced and not written into, and a link that cannot be made becomes a copy", floor=40)
def replicate_file(c, r):
    for cls, me in CLASSES:
        an = c.an('%s.replicate' % cls)
        q = '%s.replicate' % cls
        for path in ('data/f', 'data/sub/f.txt', 'f', 'data/.h', '.h'):
            for dest in (None, 'other', 'same'):
                for parent in ((True, False) if dest is None and '/' in path else (True,)):
                    for hl in ((True, False) if me is RW else (False,)):
                        for linkfail in ((True, False) if hl else (False,)):
                            for sysp in ((True, False) if me is RO and dest != 'same' else (True,)):
                                for logger in (False, True):
                                    d, ret, refused, S, D, init = run_copy(an, cls, me, path, 'file', dest, parent, hl, linkfail, False, sysp, logger)
                                    tag = '%s(%r)%s%s%s%s%s' % (q, path, ', a file is there' if dest == 'other' else ', the same file is there' if dest else '', '' if parent else ', no directory',
                                                              ', link' if hl else '', ' fails' if linkfail else '', '' if sysp else ', not local')
                                    if dest == 'same':
                                        r.ok(not d.bad and d.files == init[1], an.entry, tag, "%s" % '; '.join(d.bad or ['the files change']))
                                        continue
                                    r.ok(not d.bad and not refused and any(ret), an.entry, tag, '; '.join(d.bad) or 'it is refused')
                                    r.ok(d.files.get(D) in ('SRC', ('copy', 'SRC')), an.entry, tag, "the file is not there afterwards")
                                    r.ok(hl or d.files.get(D) == ('copy', 'SRC'), an.entry, tag, "the file is shared with the bag although a copy was asked for")
                                    r.ok(d.files.get(S) == 'SRC' and set(d.files) <= {S, D}, an.entry, tag, "other files are changed: %s" % sorted(d.files))
                                    up = set()
                                    x = posixpath.dirname(D)
                                    while x != '/':
                                        up.add(x)
                                        x = posixpath.dirname(x)
                                    r.ok(d.dirs <= init[0] | up, an.entry, tag, "other directories are made: %s" % sorted(d.dirs - init[0] - up))


@rule('C24', 'replicate-makes-the-directory', "replicating a directory leaves a directory at the same path below the destination and nothing else; replicating a path that is not in the bag is "
      "refused and leaves nothing", floor=12)
def replicate_dir(c, r):
    for cls, me in CLASSES:
        an = c.an('%s.replicate' % cls)
        q = '%s.replicate' % cls
        for path in ('data/d', 'data/sub/d', 'd'):
            for dest, parent in ((None, True), (None, False), ('dir', True)):
                for hl in ((True, False) if me is RW else (False,)):
                    for logger in (False, True):
                        d, ret, refused, S, D, init = run_copy(an, cls, me, path, 'dir', dest, parent, hl, False, False, True, logger)
                        tag = '%s(directory %r)%s' % (q, path, ', it is there' if dest else '' if parent else ', no parent')
                        r.ok(not d.bad and not refused and any(ret), an.entry, tag, '; '.join(d.bad) or 'it is refused')
                        r.ok(D in d.dirs and d.files == init[1], an.entry, tag, "the directory is not there afterwards")
        for src, dest, what in (('dir', 'other', 'a directory where there is a file'), ('file', 'dir', 'a file where there is a directory')):
            for hl in ((True, False) if me is RW else (False,)):
                for logger in (False, True):
                    d, ret, refused, S, D, init = run_copy(an, cls, me, 'data/x', src, dest, True, hl, hl and src == 'file', False, True, logger)
                    tag = '%s(%s)' % (q, what)
                    r.ok(d.failed or refused, an.entry, tag, "it returns as if it were there, but it is not")
                    r.ok(set(d.files) <= set(init[1]) and d.dirs == init[0], an.entry, tag, "something else is left in its place: %s" % sorted(set(d.files) - set(init[1]) | d.dirs - init[0]))
        for path in ('data/nope', 'nope'):
            for hl in ((True, False) if me is RW else (False,)):
                d, ret, refused, S, D, init = run_copy(an, cls, me, path, None, None, True, hl, False, False, True, True)
                tag = '%s(%r), not in the bag' % (q, path)
                r.ok(not any(x is not False for x in ret) and len(refused) == 1 and exc_name(refused[0]) == 'ValueError', an.entry, tag, "it is not refused with a ValueError")
                r.ok((d.dirs, d.files) == init and not d.bad, an.entry, tag, "something is left: %s" % (d.bad or sorted(d.dirs - init[0])))


def exc_name(e):
    return e.name.split('.')[-1]


@rule('C24', 'replicate-reports-failure', "a copy that fails is reported to the caller as an error", floor=6)
def replicate_failure(c, r):
    for cls, me in CLASSES:
        an = c.an('%s.replicate' % cls)
        q = '%s.replicate' % cls
        ex = [a for a in atoms_of(an) if a.op == 'exc' and 'copy' in ' '.join(str(x) for x in a.args[1:])]
        cps = [e for e in copy_ops(an) if 'copy' in e.name]
        r.ok(cps, an.entry, q, "there is no copy")
        for e in cps:
            r.ok(True, e, q, '')
        for hl in ((True, False) if me is RW else (False,)):
            for logger in (False, True):
                for dest in (None, 'other'):
                    d, ret, refused, S, D, init = run_copy(an, cls, me, 'data/f', 'file', dest, True, hl, hl, True, True, logger)
                    tag = '%s, the copy fails%s%s' % (q, ' after the link' if hl else '', ' with a file there' if dest else '')
                    r.ok(not ex or all(x is False for x in ret), an.entry, tag, "it returns as if the file were there")
