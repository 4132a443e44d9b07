"""rules for the sizes recorded in a bag's metadata (access/extended, access/multibag)"""
import posixpath
from ..query import *
from ..shapes import UNKNOWN
from ..worlds import World
from ..terms import TRUE, FALSE, NONE

DIRSIZE = 40960


def tree(files, start=''):
    """what a walk below start reports: [directory, subdirectories, files]"""
    start = start.strip('/')
    dirs = {start: ([], [])}
    for f in sorted(files):
        if start and not f.startswith(start + '/'):
            continue
        rel = f[len(start) + 1 if start else 0:]
        d = start
        parts = rel.split('/')
        for p in parts[:-1]:
            sub = d + '/' + p if d else p
            if p not in dirs[d][0]:
                dirs[d][0].append(p)
                dirs.setdefault(sub, ([], []))
            d = sub
        if parts[-1]:
            dirs[d][1].append(parts[-1])
    return [[d, list(s), list(f)] for d, (s, f) in sorted(dirs.items())]


class Sizes(object):
    """the files of a bag with their sizes; a name that ends in '/' is an empty directory"""

    def __init__(self, an, files, info=None, root='/store/bag'):
        self.files, self.root = dict(files), root
        self.me = [t for e in an.events for x in [e.recv] + list(e.args) if isinstance(x, Term) for t in subterms(x) if isinstance(t, Term) and t.op == 'self']
        self.me = self.me[0] if self.me else T('self', None)
        self.dirs = set()
        for f in self.files:
            d = posixpath.dirname(f)
            while d:
                self.dirs.add(d)
                d = posixpath.dirname(d)
        self.w = World({T('attr', self.me, '_bagdir'): root, T('attr', self.me, 'path'): root, T('attr', self.me, 'info'): dict(info or {})},
                       None, self.ext, an)

    def size(self, p):
        if not isinstance(p, str):
            return UNKNOWN
        if p.startswith(self.root + '/'):
            p = p[len(self.root) + 1:]
        p = posixpath.normpath(p).lstrip('/')
        if p in self.files:
            return self.files[p]
        return DIRSIZE if p in self.dirs else UNKNOWN

    def ext(self, t, s):
        o, a = t.op, t.args
        if o == 'call':
            n = a[0]
            if n == '.walk' and a[1] is self.me:
                st = s.val(a[2].args[1] if a[2].op == 'kw' else a[2]) if len(a) > 2 else ''
                if st is None:
                    st = ''
                return tree(self.files, st) if isinstance(st, str) else UNKNOWN
            if n == 'os.walk' and len(a) > 1:
                st = s.val(a[1])
                if not isinstance(st, str) or not (st + '/').startswith(self.root + '/') or any(x.op == 'kw' and x.args[0] == 'topdown' for x in a[2:]):
                    return UNKNOWN
                sub = st[len(self.root):].strip('/')
                return [[posixpath.join(self.root, d) if d else self.root, u, f] for d, u, f in tree(self.files, sub)]
            if n == '.sizeof' and a[1] is self.me:
                return self.size(s.val(a[2]))
            if n in ('os.path.getsize', '.getsize'):
                return self.size(s.val(a[-1]))
            if n == 'len':
                v = s.val(a[1])
                return len(v) if isinstance(v, (list, str, dict)) else UNKNOWN
            if n == 'sum':
                v = s.val(a[1])
                return sum(v) if isinstance(v, list) and all(isinstance(x, int) for x in v) else UNKNOWN
        if o == 'attr' and a[1] == 'st_size' and a[0].op == 'call' and a[0].args[0] in ('os.stat', 'os.lstat'):
            return self.size(s.val(a[0].args[1]))
        return UNKNOWN


BAGS = (
    ("an empty payload", {'bagit.txt': 55, 'data/': 0}, 0, 0),
    ("a single file", {'bagit.txt': 55, 'data/a': 17}, 17, 1),
    ("an empty file", {'data/a': 0, 'bag-info.txt': 7}, 0, 1),
    ("files at all depths", {'data/a': 17, 'data/b': 4, 'data/s/a': 100, 'data/s/t/u/a': 2000, 'bagit.txt': 55, 'multibag/file-lookup.tsv': 31}, 2121, 4),
    ("hidden files", {'data/.a': 3, 'data/.s/b': 5, 'data/_c': 7}, 15, 3),
    ("a data directory below another", {'data/data/a': 3, 'data/a': 5, 'metadata/data/a': 9, 'database/x': 11}, 8, 2),
    ("an empty directory", {'data/a': 3, 'data/s/': 0}, 3, 1),
)


@rule('C32', 'payload-oxum', "the payload size computed for a bag is the sum of the sizes of all files below its data directory and their number, and is "
      "recorded as bytes, a dot, and files", floor=12)
def oxum(c, r):
    an = c.an('ExtendedReadWritableBag.calc_oxum')
    for what, files, size, n in BAGS:
        files = dict((f, s) for f, s in files.items() if not f.endswith('/'))
        v = Sizes(an, files).w.val(an.retval())
        r.ok(isinstance(v, (list, tuple)) and len(v) == 2 and v[0] == size and v[1] == n, an.entry, 'calc_oxum of ' + what,
             "the size of the payload of a bag with %s is computed as %s instead of (%d, %d)" % (what, v, size, n))
    for e in prunes(an):
        r.fail(e, 'calc_oxum prune', "the payload count leaves out directories")
    for lp in an.loops:
        r.ok(not [x for x in lp.exits if x[1] is not FALSE], an.entry, 'calc_oxum loop', "the payload count can stop early")
    up = c.an('ExtendedReadWritableBag.update_oxum', opaque=('calc_oxum',))
    st = [e for e in up.events if e.kind in ('store', 'setattr') and e.args and is_const(e.args[0]) and cval(e.args[0]) == 'Payload-Oxum']
    r.ok(len(st) == 1 and st[0].guard is TRUE and attr_of(st[0].recv, 'info'), st[0] if st else up.entry, 'update_oxum',
         "the Payload-Oxum is not recorded in the metadata")
    me = st[0].recv.args[0] if st and st[0].recv.op == 'attr' else None
    for size, n in ((17, 3), (0, 0), (100, 1), (2000000000000, 12)):
        for e in st:
            v = World({T('call', '.calc_oxum', me): [size, n]}, None, None, up).val(e.args[1])
            r.ok(v == '%d.%d' % (size, n), e, 'update_oxum %d %d' % (size, n), "%d bytes in %d files are recorded as %r" % (size, n, v))


@rule('C32', 'bag-size', "the size computed for a bag covers every file in it, in all its directories", floor=8)
def bagsize(c, r):
    for q, ret in (('ExtendedReadWritableBag.calc_bag_size', lambda an: an.retval()), ('HeadBag._bag_size', None)):
        an = c.an(q, opaque=('_format_bytes',))
        for what, files, size, n in BAGS:
            files = dict((f, s) for f, s in files.items() if not f.endswith('/'))
            z = Sizes(an, files)
            tot = sum(files.values())
            if ret is not None:
                v = z.w.val(ret(an))
            else:
                fb = [e for e in an.events if e.kind == 'call' and e.name == '_format_bytes']
                v = z.w.val(fb[-1].args[0]) if fb else UNKNOWN
            ok = isinstance(v, int) and tot <= v and (v - tot <= 40 or (v - tot) % DIRSIZE <= 40 and (v - tot) // DIRSIZE <= len(z.dirs))
            r.ok(ok, an.entry, '%s of %s' % (q.split('.')[1], what), "the size of a bag with %s is computed as %s (its files: %d)" % (what, v, tot))
        for e in prunes(an):
            r.fail(e, q.split('.')[1] + ' prune', "the size computation leaves out directories")
        for lp in an.loops:
            r.ok(not [x for x in lp.exits if x[1] is not FALSE], an.entry, q.split('.')[1] + ' loop', "the size computation can stop early")
