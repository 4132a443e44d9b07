"""rules for read-only bags: what is loaded from manifests and fetch files, what validation finds (access/bagit)"""
from ..query import *
from ..shapes import UNKNOWN, Inst, walked, CWD
from ..worlds import World, first_seq
from ..terms import TRUE, FALSE, NONE
import posixpath, unicodedata

SELF = T('self', 'ReadOnlyBag')
OPENERS = ('_open_text_file_Path', 'open_text_file', 'bagit.open_text_file', '.open', '.opentext', '.open_text_file')
BOM = u'\ufeff'


class Stop(Exception):
    def __init__(self, event):
        self.event = event


class Unknown(Exception):
    def __init__(self, event, what):
        self.event, self.what = event, what


def relname(s, t):
    """the name, below the bag's root, of the file a term points to"""
    t = uncopy(t)
    if t.op == 'call' and t.args[0] in ('.relpath', 'Path.relpath'):
        return s.val(t.args[2])
    if t.op == 'attr' and t.args[1] == 'path':
        return relname(s, t.args[0])
    v = s.val(t)
    return v


def opened(t):
    """(path term, encoding term or None) of a call that opens a text file"""
    if t.op != 'call' or t.args[0] not in OPENERS:
        return None
    rest = list(t.args[1:])
    kw = dict((x.args[0], x.args[1]) for x in rest if isinstance(x, Term) and x.op == 'kw')
    pos = [x for x in rest if not (isinstance(x, Term) and x.op == 'kw')]
    if t.args[0] == '.open_text_file':            # the method of a bag: (path, encoding, ...)
        return (pos[1] if len(pos) > 1 else None), kw.get('encoding') or (pos[2] if len(pos) > 2 else const('utf-8-sig'))
    if t.args[0].startswith('.'):
        return (pos[1] if len(pos) > 1 else None), kw.get('encoding') or (pos[4] if len(pos) > 4 else const(None))
    return (pos[0] if pos else None), kw.get('encoding') or (pos[2] if len(pos) > 2 else const('utf-8'))


class Replay(object):
    """folds the recorded changes of the nested dictionary of entries over one world, in execution order"""

    def __init__(self, an, files, version, encoding='UTF-8', unsafe=(), manifests=(), tagmanifests=()):
        self.an, self.files, self.version, self.encoding, self.unsafe = an, files, version, encoding, unsafe
        self.root = {}
        self.entries = [e.args[0] for e in an.events if e.kind == 'setattr' and e.name == 'entries' and e.recv is SELF]
        self.heap = {}
        self.live_on = False
        self.badenc = None
        env = {T('attr', SELF, 'version_info'): list(version), T('attr', SELF, 'encoding'): encoding,
               T('call', '.manifest_files', SELF): list(manifests), T('call', '.tagmanifest_files', SELF): list(tagmanifests),
               T('attr', SELF, 'path'): '/w/bag'}
        for t in self.entries:
            env[t] = UNKNOWN                       # only known while the changes are folded
        self.w = World(env, self.facts, self.ext, an)

    # -- opaque inputs
    def ext(self, t, s):
        o, a = t.op, t.args
        if o == 'call':
            op = opened(t)
            if op is not None and op[0] is not None:
                return self.lines(t, op, s)
            if a[0] in ('.read', '.readline') and opened(a[1]):
                text = self.raw(a[1], opened(a[1]), s)
                if text is None:
                    return UNKNOWN
                text = ''.join(text)
                if len(a) > 2 and a[0] == '.read':
                    n = s.val(a[2])
                    return text[:n] if isinstance(n, int) else UNKNOWN
                return text if a[0] == '.read' else text.splitlines(True)[0] if text else ''
            if a[0] == '.readlines':
                return s.val(a[1])
            if a[0].endswith('_decode_filename'):
                v = s.val(a[1])
                return v.replace('%0D', '\r').replace('%0A', '\n') if isinstance(v, str) else UNKNOWN
            if a[0].endswith('normalize_unicode'):
                v = s.val(a[1])
                return unicodedata.normalize('NFC', v) if isinstance(v, str) else UNKNOWN
            if a[0] == '.get' and self.live_on:
                d = self.live(a[1], s)
                k = s.val(a[2])
                if isinstance(d, dict) and k is not UNKNOWN:
                    return d.get(k, s.val(a[3]) if len(a) > 3 else None)
        if o == 'ext' and a[0].endswith('UNICODE_BYTE_ORDER_MARK'):
            return BOM
        if o == 'attr' and a[1] == 'encoding' and opened(a[0]):
            v = s.val(opened(a[0])[1])
            return v
        if o == 'index' and self.live_on:
            d = self.live(a[0], s)
            if isinstance(d, dict):
                k = s.val(a[1])
                return d[k] if k in d else UNKNOWN
        if o in ('setdef', 'obj') and self.live_on or t in self.entries and self.live_on:
            d = self.live(t, s)
            return d if d is not None else UNKNOWN
        return UNKNOWN

    def raw(self, t, op, s):
        name = relname(s, op[0])
        if not isinstance(name, str) or name.lstrip('/') not in self.files:
            return None
        lines = list(self.files[name.lstrip('/')])
        enc = s.val(op[1])
        if isinstance(enc, str) and enc.lower().replace('_', '-') == 'utf-8-sig' and lines and lines[0].startswith(BOM):
            lines[0] = lines[0][1:]
        elif enc != self.encoding:
            self.badenc = self.badenc or (t, enc)
        return lines

    def lines(self, t, op, s):
        """what iterating over the file gives: characters read before, on this handle, are gone"""
        ls = self.raw(t, op, s)
        if ls is None:
            return UNKNOWN
        n = 0
        for e in self.an.events:
            if e.kind != 'call':
                continue
            mine = e.recv is t and e.name in ('read', 'seek')
            if not mine and not (e.recv is None and e.name in OPENERS and e.args and op[0] is e.args[0]):
                continue
            g = s.truth(e.guard)
            if g is None:
                return UNKNOWN
            if not g:
                continue
            if e.recv is t and e.name == 'read':
                k = s.val(e.args[0]) if e.args else UNKNOWN
                if not isinstance(k, int):
                    return UNKNOWN
                n += k
            elif e.recv is t:
                k = s.val(e.args[0]) if e.args else UNKNOWN
                if not isinstance(k, int):
                    return UNKNOWN
                n = k
            else:
                n = 0
        return ''.join(ls)[n:].splitlines(True)

    def facts(self, a, s):
        if a.op in ('exc', 'excafter'):
            return False
        if a.op == 'existsq':
            return False
        if a.op in ('truthy', 'call', 'bcall'):
            t = a.args[0] if a.op == 'truthy' else a
            if t.op in ('call', 'bcall') and t.args[0] in ('._path_is_dangerous', '_path_is_dangerous'):
                p = s.val(t.args[-1])
                return p in self.unsafe if isinstance(p, str) else None
            if t.op == 'call' and t.args[0] in OPENERS:
                return True
            if t.op in ('bcall', 'call') and t.args[0] in ('.isfile', '.exists') and len(t.args) > 1:
                p = relname(s, t.args[-1])
                return p.lstrip('/') in self.files if isinstance(p, str) else None
        if a.op == 'in' and self.live_on:
            d = self.live(a.args[1], s)
            if isinstance(d, dict):
                k = s.val(a.args[0])
                return None if k is UNKNOWN else k in d
        if a.op == 'isnone' and self.live_on:
            v = s.val(a.args[0])
            return None if v is UNKNOWN else v is None
        return None

    # -- live dictionaries
    def live(self, t, s):
        if t in self.entries or t is T('attr', SELF, 'entries'):
            return self.root
        if t.op in ('setdef', 'index'):
            d = self.live(t.args[0], s)
            k = s.val(t.args[1])
            return d.get(k) if isinstance(d, dict) and k is not UNKNOWN else None
        if t.op == 'obj' and t.args[0] in ('dict', 'OrderedDict'):
            return self.heap.get((t, s.inloop))
        if t.op == 'ite':
            c = s.truth(t.args[0])
            return None if c is None else self.live(t.args[1 if c else 2], s)
        return None

    def made(self, t, s):
        """the value a term stores: a fresh dictionary for one made in this iteration"""
        if t.op == 'obj' and t.args[0] in ('dict', 'OrderedDict'):
            return self.heap.setdefault((t, s.inloop), {})
        v = s.val(t)
        return v

    def run(self):
        todo = []
        for e in self.an.events:
            if e.kind not in ('store', 'mutate', 'raise', 'yield', 'del'):
                continue
            if e.kind != 'raise' and e.kind != 'yield' and not self.about(e.recv):
                continue
            sts = self.w.states(e)
            if sts is None:
                if self.w.truth(e.guard) is False:
                    continue
                raise Unknown(e, 'how often this is reached')
            for s in sts:
                todo.append((first_seq(self.an, e), [i for b, i in s.inloop], e.seq, s, e))
        todo.sort(key=lambda x: x[:3])
        self.live_on = True
        out = []
        for _, _, _, s, e in todo:
            g = s.truth(e.guard)
            if g is None:
                raise Unknown(e, fshow(s.left(e.guard))[:120])
            if not g:
                continue
            if e.kind == 'raise':
                raise Stop(e)
            if e.kind == 'yield':
                v = [s.val(x) for x in e.args]
                if any(x is UNKNOWN for x in v):
                    raise Unknown(e, 'what is yielded')
                out.append(v[0] if len(v) == 1 else v)
                continue
            d = self.live(e.recv, s)
            if not isinstance(d, dict):
                raise Unknown(e, 'the collection that is changed')
            k = s.val(e.args[0]) if e.args else UNKNOWN
            if e.name in ('[]', 'setdefault') and len(e.args) == 2:
                v = self.made(e.args[1], s)
                if k is UNKNOWN or v is UNKNOWN:
                    raise Unknown(e, 'what is recorded')
                if e.name == '[]':
                    d[k] = v
                else:
                    d.setdefault(k, v)
            elif e.kind == 'del' or e.name == 'pop':
                d.pop(k, None)
            else:
                raise Unknown(e, 'this change')
        return out

    def about(self, t):
        if t is None:
            return False
        if t in self.entries or t is T('attr', SELF, 'entries'):
            return True
        if t.op in ('setdef', 'index') and self.about(t.args[0]):
            return True
        if t.op == 'ite':
            return self.about(t.args[1]) or self.about(t.args[2])
        if t.op == 'obj':
            return any(e.kind in ('store', 'mutate') and self.about0(e.recv) and t in e.args for e in self.an.events)
        return False

    def about0(self, t):
        return t in self.entries or t is T('attr', SELF, 'entries')


PATHS = [  # (path, unsafe)
    ('data/x', False), ('data/d/x.txt', False), ('tag.txt', False), ('data/../tag.txt', False), ('data/~x', False), ('data/...x', False),
    ('..x/y', False), ('data/a b', False), ('.', False),
    ('/etc/x', True), ('/w/bag/data/x', True), ('../x', True), ('..', True), ('data/../../x', True), ('data/d/../../../bag2/x', True),
    ('../bag2/data/x', True), ('../bag-other', True), ('~/x', True), ('~u/x', True), ('$HOME/x', True), ('data/${HOME}/x', True),
]


@rule('C25', 'path-safety', "the safety test of read-only bags rejects every class of path that leaves the bag directory, or depends on "
      "the environment, and accepts the others", floor=40)
def path_safety(c, r):
    an = c.an('ReadOnlyBag._path_is_dangerous')
    for loc in ('/w/bag', '/w/bag/', '/w/bag.zip', 'bag', '/w/../w/bag', './bag', '../bag'):
        for p, unsafe in PATHS:
            if loc.startswith('/w/bag') is False and p.startswith('/w'):
                pass
            if loc == '/w/bag.zip' and p.startswith('../bag2') and False:
                continue
            env = {T('attr', SELF, 'path'): loc, T('param', 'path'): p}
            w = World(env, None, None, an)
            hit = []
            for g, v, h, ln in an.returns:
                t = w.truth(g)
                if t is False:
                    continue
                x = w.val(v)
                hit.append(UNKNOWN if t is None or x is UNKNOWN else bool(x))
            key = 'path %s of the bag at %s' % (p, loc)
            if not r.ok(hit and UNKNOWN not in hit, an.entry, key + ' known', "whether %s is safe does not follow from the code" % key):
                continue
            r.ok(all(x == unsafe for x in hit), an.entry, key,
                 "the %s is taken as %s" % (key, 'safe' if unsafe else 'unsafe'))


def rows(*ls):
    return [l + '\n' for l in ls]


LOADS = [
    ("a plain manifest", {'manifest-md5.txt': rows('aa data/x', 'bb  data/d/y')}, (0, 97), {'data/x': {'md5': 'aa'}, 'data/d/y': {'md5': 'bb'}}),
    ("one with a last line without end", {'manifest-md5.txt': ['aa data/x\n', 'bb data/y']}, (0, 97), {'data/x': {'md5': 'aa'}, 'data/y': {'md5': 'bb'}}),
    ("tabs and carriage returns", {'manifest-md5.txt': ['aa\tdata/x\r\n', '  bb data/y  \r\n']}, (1, 0), {'data/x': {'md5': 'aa'}, 'data/y': {'md5': 'bb'}}),
    ("the asterisk of binary mode", {'manifest-md5.txt': rows('aa *data/x', 'bb *data/p*q', 'cc data/r*', 'dd *data/*s*')}, (0, 97),
     {'data/x': {'md5': 'aa'}, 'data/p*q': {'md5': 'bb'}, 'data/r*': {'md5': 'cc'}, 'data/*s*': {'md5': 'dd'}}),
    ("names with spaces", {'manifest-md5.txt': rows('aa data/a b  c')}, (0, 97), {'data/a b  c': {'md5': 'aa'}}),
    ("blank lines and comments", {'manifest-md5.txt': rows('', '# note', 'aa data/x', '   ', ' #x y', 'bb data/#y')}, (0, 97),
     {'data/x': {'md5': 'aa'}, 'data/#y': {'md5': 'bb'}}),
    ("a malformed line between others", {'manifest-md5.txt': rows('aa data/x', 'bb', 'cc data/z')}, (0, 97), {'data/x': {'md5': 'aa'}, 'data/z': {'md5': 'cc'}}),
    ("paths that are not in their simplest form", {'manifest-md5.txt': rows('aa ./data/x', 'bb data//d/./y')}, (0, 97),
     {'data/x': {'md5': 'aa'}, 'data/d/y': {'md5': 'bb'}}),
    ("an encoded line feed", {'manifest-md5.txt': rows('aa data/x%0Ay', 'bb data/p%0Dq')}, (0, 97), {'data/x\ny': {'md5': 'aa'}, 'data/p\rq': {'md5': 'bb'}}),
    ("long hashes", {'manifest-sha512.txt': rows('0123456789abcdef' * 8 + ' data/x', '0123456789ABCDEF' * 8 + '  data/y')}, (0, 97),
     {'data/x': {'sha512': '0123456789abcdef' * 8}, 'data/y': {'sha512': '0123456789ABCDEF' * 8}}),
    ("a hash in capitals", {'manifest-md5.txt': rows('AA data/x')}, (0, 97), {'data/x': {'md5': 'AA'}}),
    ("names in capitals", {'manifest-md5.txt': rows('aa data/X', 'bb data/x')}, (0, 97), {'data/X': {'md5': 'aa'}, 'data/x': {'md5': 'bb'}}),
    ("two algorithms", {'manifest-md5.txt': rows('aa data/x', 'bb data/y'), 'manifest-sha256.txt': rows('cc data/y', 'dd data/x')}, (0, 97),
     {'data/x': {'md5': 'aa', 'sha256': 'dd'}, 'data/y': {'md5': 'bb', 'sha256': 'cc'}}),
    ("two algorithms that list different files", {'manifest-md5.txt': rows('aa data/x'), 'manifest-sha256.txt': rows('cc data/y')}, (0, 97),
     {'data/x': {'md5': 'aa'}, 'data/y': {'sha256': 'cc'}}),
    ("a tag manifest", {'manifest-md5.txt': rows('aa data/x'), 'tagmanifest-md5.txt': rows('bb bagit.txt', 'cc multibag/m.tsv')}, (0, 97),
     {'data/x': {'md5': 'aa'}, 'bagit.txt': {'md5': 'bb'}, 'multibag/m.tsv': {'md5': 'cc'}}),
    ("a tag manifest of another algorithm", {'manifest-md5.txt': rows('aa data/x'), 'tagmanifest-sha1.txt': rows('bb bagit.txt')}, (1, 0),
     {'data/x': {'md5': 'aa'}, 'bagit.txt': {'sha1': 'bb'}}),
    ("a tag manifest in an early version", {'manifest-md5.txt': rows('aa data/x'), 'tagmanifest-md5.txt': rows('bb bagit.txt')}, (0, 96),
     {'data/x': {'md5': 'aa'}}),
    ("an empty manifest", {'manifest-md5.txt': []}, (0, 97), {}),
    ("no manifest", {}, (0, 97), {}),
    ("a file listed twice, early version", {'manifest-md5.txt': rows('aa data/x', 'bb data/y', 'aa data/x')}, (0, 97), {'data/x': {'md5': 'aa'}, 'data/y': {'md5': 'bb'}}),
    ("a file listed twice, version 1", {'manifest-md5.txt': rows('aa data/x', 'bb data/y', 'aa data/x')}, (1, 0), None),
    ("a file listed twice in two forms, version 1", {'manifest-md5.txt': rows('aa data/x', 'bb data/y', 'aa ./data/x')}, (1, 0), None),
    ("a file listed with two hashes, early version", {'manifest-md5.txt': rows('aa data/x', 'bb data/y', 'cc data/x')}, (0, 97), None),
    ("a file listed with two hashes, version 1", {'manifest-md5.txt': rows('aa data/x', 'cc data/x')}, (1, 0), None),
    ("a file listed with two hashes in two forms", {'manifest-md5.txt': rows('aa data/x', 'cc data/d/../x')}, (0, 97), None),
    ("a file with two hashes in the second manifest", {'manifest-md5.txt': rows('aa data/x'), 'manifest-sha1.txt': rows('bb data/x', 'cc data/x')}, (0, 97), None),
    ("a file with two hashes in the tag manifest", {'manifest-md5.txt': rows('aa data/x'), 'tagmanifest-md5.txt': rows('bb t', 'cc t')}, (0, 97), None),
    ("an unsafe path", {'manifest-md5.txt': rows('aa data/x', 'bb ../y')}, (0, 97), None),
    ("an unsafe path first", {'manifest-md5.txt': rows('bb ../y', 'aa data/x')}, (0, 96), None),
    ("an unsafe path that has to be normalised", {'manifest-md5.txt': rows('aa data/x', 'bb data/../../y')}, (1, 0), None),
    ("an unsafe path in the second manifest", {'manifest-md5.txt': rows('aa data/x'), 'manifest-sha1.txt': rows('aa data/x', 'bb *../y')}, (0, 97), None),
    ("an unsafe path in the tag manifest", {'manifest-md5.txt': rows('aa data/x'), 'tagmanifest-md5.txt': rows('bb ../y')}, (0, 97), None),
    ("a byte-order mark", {'manifest-md5.txt': [BOM + 'aa data/x\n', 'bb data/y\n']}, (0, 97), {'data/x': {'md5': 'aa'}, 'data/y': {'md5': 'bb'}}),
    ("a byte-order mark in the second manifest", {'manifest-md5.txt': rows('aa data/x'), 'manifest-sha1.txt': [BOM + 'bb data/x\n']}, (0, 97),
     {'data/x': {'md5': 'aa', 'sha1': 'bb'}}),
]
LOAD_OPAQUE = ['open_text_file', '_open_text_file_Path', '_path_is_dangerous', 'manifest_files', 'tagmanifest_files']


@rule('C25', 'manifest-contents', "loading the manifests records exactly the (path, algorithm, hash) entries of every class of manifest lines, "
      "tag manifests included from version 0.97 on, and fails for unsafe paths and for conflicting or (version 1) repeated entries", floor=60)
def manifest_contents(c, r):
    an = c.an('ReadOnlyBag._load_manifests', opaque=LOAD_OPAQUE)
    for what, files, ver, want in LOADS:
        for enc in ('UTF-8', 'ISO-8859-1'):
            if enc != 'UTF-8' and 'mark' in what:
                continue
            key = '%s (%s)' % (what, enc)
            rp = Replay(an, files, ver, enc, ('../y',), [f for f in files if f.startswith('m')], [f for f in files if f.startswith('t')])
            if not r.ok(rp.entries, an.entry, key + ' entries', "the loaded manifest entries are not kept as the bag's entries"):
                return
            got, ev = rp.root, an.entry
            try:
                rp.run()
            except Stop as s:
                got, ev = None, s.event
                if not r.ok(ev.name in ('BagError', 'BagValidationError'), ev, key + ' error', "loading fails with %s for %s" % (ev.name, key)):
                    continue
            except Unknown as u:
                r.fail(u.event, key + ' known', "what loading the manifests of %s records does not follow from the code: %s" % (key, u.what))
                continue
            if want is None:
                r.ok(got is None, ev, key, "loading a bag does not fail for %s" % key)
            elif r.ok(got is not None, ev, key + ' accepted', "loading a bag fails for %s" % key):
                diff = [p for p in sorted(set(got) | set(want)) if got.get(p) != want.get(p)]
                r.ok(not diff, ev, key, "for %s the bag's entries become %s" % (key, ', '.join('%r: %r' % (p, got.get(p)) for p in diff)[:160]))
            r.ok(rp.badenc is None, an.entry, key + ' encoding', "the manifest is read in the encoding %r, not that of the bag" %
                 (rp.badenc[1] if rp.badenc else None,))


FETCHES = [
    ("no fetch file", None, []),
    ("an empty fetch file", [], []),
    ("plain lines", rows('http://a.org/x 12 data/x', 'http://a.org/y\t-\tdata/d/y'), [['http://a.org/x', '12', 'data/x'], ['http://a.org/y', '-', 'data/d/y']]),
    ("names with spaces", ['http://a.org/x  12  data/a b  c\r\n'], [['http://a.org/x', '12', 'data/a b  c']]),
    ("an unsafe path", rows('http://a.org/x 12 ../y'), None),
    ("an unsafe path after another", rows('http://a.org/x 12 data/x', 'http://a.org/y 1 ../y'), None),
]


@rule('C25', 'fetch-contents', "the fetch entries are the (url, size, path) of each line of the fetch file, in order, and reading them fails for "
      "unsafe paths", floor=10)
def fetch_contents(c, r):
    an = c.an('ReadOnlyBag.fetch_entries', opaque=LOAD_OPAQUE)
    for what, lines, want in FETCHES:
        for enc in ('UTF-8', 'ISO-8859-1'):
            key = '%s (%s)' % (what, enc)
            rp = Replay(an, {} if lines is None else {'fetch.txt': lines}, (0, 97), enc, ('../y',))
            ev = an.entry
            try:
                got = rp.run()
            except Stop as s:
                got, ev = None, s.event
                if not r.ok(ev.name in ('BagError', 'BagValidationError'), ev, key + ' error', "reading fails with %s for %s" % (ev.name, key)):
                    continue
            except Unknown as u:
                r.fail(u.event, key + ' known', "the fetch entries for %s do not follow from the code: %s" % (key, u.what))
                continue
            r.ok(got == want, ev, key, "for %s the fetch entries are %r" % (key, got))
            r.ok(rp.badenc is None, an.entry, key + ' encoding', "the fetch file is read in the encoding %r, not that of the bag" %
                 (rp.badenc[1] if rp.badenc else None,))


@rule('C25', 'manifest-algorithms', "every manifest that is read has its algorithm among those of the bag, and every path that is loaded can be "
      "looked up by its normalised form", floor=6)
def manifest_algorithms(c, r):
    an = c.an('ReadOnlyBag._load_manifests', opaque=LOAD_OPAQUE)
    algs = T('attr', SELF, 'algorithms')
    for what, man, tag, ver, want in [
            ("one manifest", ['manifest-md5.txt'], [], (0, 97), ['md5']),
            ("two manifests", ['manifest-md5.txt', 'manifest-sha512.txt'], [], (0, 96), ['md5', 'sha512']),
            ("tag manifests", ['manifest-md5.txt'], ['tagmanifest-md5.txt', 'tagmanifest-sha1.txt'], (1, 0), ['md5', 'sha1'])]:
        files = {f: rows('aa data/x' if f in man else 'bb bagit.txt') for f in man + tag}
        rp = Replay(an, files, ver, 'UTF-8', (), man, tag)
        got, unk = [], None
        for e in an.events:
            if e.recv is algs and e.kind == 'mutate' and e.name in ('append', 'add', 'extend', '+='):
                for s in rp.w.states(e) or [None]:
                    g = s.truth(e.guard) if s is not None else rp.w.truth(e.guard)
                    if g is False:
                        continue
                    v = s.val(e.args[0]) if s is not None and g else UNKNOWN
                    if v is UNKNOWN:
                        unk = e
                    else:
                        got += v if isinstance(v, list) else [v]
        if r.ok(unk is None, unk or an.entry, what + ' known', "which algorithms the bag has does not follow from the code for %s" % what):
            r.ok(sorted(set(got)) == sorted(want), an.entry, what, "for %s the bag's algorithms become %s" % (what, got))
    # the normalised names
    names = T('attr', SELF, 'normalized_manifest_names')
    entries = [e.args[0] for e in an.events if e.kind == 'setattr' and e.name == 'entries' and e.recv is SELF]
    paths = {u'data/x': {'md5': 'aa'}, u'data/e\u0301': {'md5': 'bb'}}
    files = {'manifest-md5.txt': rows('aa data/x', u'bb data/e\u0301')}
    rp = Replay(an, files, (0, 97), 'UTF-8', (), ['manifest-md5.txt'], [])
    rp.w.env.update({e: paths for e in entries})
    got, unk = {}, None
    for e in an.events:
        if e.recv is not names or e.kind not in ('mutate', 'store'):
            continue
        for s in rp.w.states(e) or [None]:
            g = s.truth(e.guard) if s is not None else rp.w.truth(e.guard)
            if g is False:
                continue
            v = [s.val(x) for x in e.args] if s is not None else [UNKNOWN]
            if g is None or any(x is UNKNOWN for x in v):
                unk = e
            elif e.kind == 'store' or e.name == 'setdefault':
                got[v[0]] = v[1]
            elif isinstance(v[0], dict):
                got.update(v[0])
            elif isinstance(v[0], list):
                got.update(dict((x[0], x[1]) for x in v[0]))
    if r.ok(unk is None, unk or an.entry, 'normalised names known', "which normalised names are kept does not follow from the code"):
        want = {unicodedata.normalize('NFC', p): p for p in paths}
        r.ok(got == want, an.entry, 'normalised names', "the normalised names of the manifest entries become %r" % (got,))


@rule(['C25', 'C26'], 'manifest-files', "the (tag) manifest files of a read-only bag are those existing as files in the bag under the name of a "
      "supported algorithm, and the tag files missing are the listed ones that are no files of the bag", floor=6)
def manifest_files(c, r):
    algos = ['md5', 'sha1', 'sha256']
    for meth, pre in (('manifest_files', 'manifest-'), ('tagmanifest_files', 'tagmanifest-')):
        an = c.an('ReadOnlyBag.' + meth)
        for have in ([], ['md5'], ['sha256'], ['md5', 'sha1', 'sha256']):
            files = [pre + a + '.txt' for a in have]
            # files of the other kind are not mistaken for these
            other = ['manifest-sha1.txt' if pre.startswith('tag') else 'tagmanifest-sha1.txt', 'manifest-foo.txt']
            check_yields(c, r, an, '%s of a bag with %s' % (meth, ', '.join(files) or 'none'), files, files=files + other, algos=algos)
    an = c.an('ReadOnlyBag.missing_optional_tagfiles')
    for what, listed, files, want in [
            ("all tag files there", ['bagit.txt', 'multibag/a.tsv'], ['bagit.txt', 'multibag/a.tsv'], []),
            ("one tag file missing", ['bagit.txt', 'multibag/a.tsv'], ['bagit.txt'], ['multibag/a.tsv']),
            ("a directory in place of a tag file", ['bagit.txt', 'multibag'], ['bagit.txt', 'multibag/x'], ['multibag'])]:
        check_yields(c, r, an, 'missing_optional_tagfiles with ' + what, want, files=files, tagfiles=listed)


def check_yields(c, r, an, what, want, files=(), algos=(), tagfiles=()):
    def ext(t, s):
        if t.op == 'ext' and t.args[0].endswith('CHECKSUM_ALGOS'):
            return list(algos)
        if t.op == 'call' and t.args[0] == '.tagfile_entries':
            return {p: {'md5': 'aa'} for p in tagfiles}
        if t.op == 'call' and t.args[0] == '.keys':
            v = s.val(t.args[1])
            return list(v) if isinstance(v, dict) else UNKNOWN
        if t.op == 'binop' and t.args[0] == 'Mod':
            f, v = s.val(t.args[1]), s.val(t.args[2])
            if isinstance(f, str) and isinstance(v, (str, list)):
                return f % (v if isinstance(v, str) else tuple(v))
        if t.op == 'call' and t.args[0] in ('.format', 'format') and isinstance(s.val(t.args[1]), str):
            v = s.vals([x for x in t.args[2:] if not (isinstance(x, Term) and x.op == 'kw')])
            return s.val(t.args[1]).format(*v) if v is not None else UNKNOWN
        return UNKNOWN

    def facts(a, s):
        if a.op in ('exc', 'excafter'):
            return False
        if a.op in ('bcall', 'call') and a.args[0] in ('.isfile', '.exists', '.isdir'):
            p = relname(s, a.args[-1])
            if not isinstance(p, str):
                return None
            p = p.lstrip('/')
            isd = any(f.startswith(p + '/') for f in files)
            return {'.isfile': p in files, '.isdir': isd, '.exists': p in files or isd}[a.args[0]]
        return None
    w = World({}, facts, ext, an)
    got, unk = [], None
    ys = [e for e in an.events if e.kind == 'yield']
    rets = [] if ys else [(x[0], x[1]) for x in an.returns]
    for e in ys:
        for s in w.states(e) or [None]:
            g = s.truth(e.guard) if s is not None else None
            if g is False:
                continue
            v = s.val(e.args[0]) if g else UNKNOWN
            if e.name in ('yield from', 'from') and isinstance(v, list):
                got += v
            elif v is UNKNOWN:
                unk = e
            else:
                got.append(v)
    for g, v in rets:
        g = w.truth(g)
        if g is False:
            continue
        x = w.val(v) if g else UNKNOWN
        if isinstance(x, list):
            got += x
        else:
            unk = an.entry
    if r.ok(unk is None, unk or an.entry, what + ' known', "what %s gives does not follow from the code" % what):
        r.ok(sorted(got) == sorted(want), ys[0] if ys else an.entry, what, "%s gives %s" % (what, got))


# ---------------------------------------------------------------------- validation
FSERRS = ('FSError', 'ResourceNotFound', 'ResourceError', 'Exception', 'BaseException', '*')


def catches(a):
    return any(x.split('.')[-1] in FSERRS for x in str(a.args[1]).split('|'))


def opens(an):
    """the events that open a file of the bag for reading bytes"""
    return [e for e in an.events if e.kind in ('call', 'open') and e.name in
            ('open_bin_file', 'openbin', 'open', 'readbytes', 'getbytes') and e.args]


class BagWorld(object):
    """a bag with the given files ({name: digest per algorithm, bytes or size}), metadata, entries"""

    def __init__(self, an, files=None, info=None, entries=None, algs=None, dirs=('data',), names=None, tags=None, missing=(), processes=1,
                 manifests=None):
        self.an, self.files, self.info, self.dirs, self.missing = an, dict(files or {}), dict(info or {}), set(dirs), set(missing)
        self.tags = tags
        env = {T('attr', SELF, 'info'): self.info, T('attr', SELF, 'entries'): dict(entries or {}), T('attr', SELF, 'algorithms'): list(algs or []),
               T('attr', SELF, 'normalized_filesystem_names'): dict(names or {}), T('param', 'processes'): processes,
               T('call', '.manifest_files', SELF): list(manifests if manifests is not None else
                                                        [f for f in self.files if f.startswith('manifest-')]),
               T('call', '.payload_files', SELF): [f for f in self.files if f.startswith('data/')]}
        self.w = World(env, self.facts, self.ext, an)
        self.opens = opens(an)
        self.inner = any(a.op == 'exc' and catches(a) and any(x in str(a.args[2]) for x in ('open', 'read')) and 'BagVal' not in str(a.args[1])
                         and a.args[1] != '*' for e in an.events for a in support(e.guard))

    def there(self, p):
        p = posixpath.normpath(p).lstrip('/')
        return p in self.files and p not in self.missing

    def isdir(self, p):
        p = posixpath.normpath(p).lstrip('/')
        return p in self.dirs or p == '.' or any(f.startswith(p + '/') for f in self.files)

    def current(self, s):
        """the file that is read in this iteration"""
        for e in self.opens:
            for t in [e.args[0]] + ([e.recv] if e.recv is not None else []):
                p = relname(s, t)
                if isinstance(p, str):
                    return p.lstrip('/')
        return None

    def ext(self, t, s):
        o, a = t.op, t.args
        if o == 'call':
            n = a[0]
            if n == '.hexdigest':
                h = a[1]
                if h.op == 'call' and h.args[0].endswith(('hashlib.new', 'new')):
                    alg, f = s.val(h.args[1]), self.current(s)
                    if isinstance(alg, str) and f in self.files and isinstance(self.files[f], dict) and self.fed(h, s):
                        return self.files[f].get(alg, UNKNOWN)
                return UNKNOWN
            if n.endswith('ChecksumMismatch'):
                v = s.vals(a[1:3])
                return 'mismatch %s %s' % tuple(v) if v else UNKNOWN
            if n.endswith('BagValidationError') or n.endswith('BagError'):
                return 'error'
            if n in ('.getinfo', '.getdetails') or n == '.getsize':
                p = s.val(a[2])
                if not isinstance(p, str) or posixpath.normpath(p).lstrip('/') not in self.files:
                    return UNKNOWN
                v = self.files[posixpath.normpath(p).lstrip('/')]
                v = v if isinstance(v, int) else UNKNOWN
                return v if n == '.getsize' else Inst(size=v)
            if n == '.read' and a[1].op == 'call' and a[1].args[0] in ('open_bin_file', '.openbin'):
                p = relname(s, a[1].args[1 if a[1].args[0] == 'open_bin_file' else 2])
                k = s.val(a[2]) if len(a) > 2 else None
                v = self.files.get(p) if isinstance(p, str) else None
                return v[:k] if isinstance(v, bytes) and (k is None or isinstance(k, int)) else UNKNOWN
            if n.endswith('_load_tag_file') or n.endswith('load_tag_file'):
                p = relname(s, a[1])
                v = self.tags.get(p) if self.tags and isinstance(p, str) else None
                return dict(v) if v is not None else UNKNOWN
            if n in ('.keys', '.values', '.items') and len(a) == 2:
                v = s.val(a[1])
                if isinstance(v, dict):
                    return [list(x) if isinstance(x, tuple) else x for x in getattr(v, n[1:])()]
        if o == 'excval':
            return 'what went wrong'
        if o == 'ext' and a[0].endswith('BOM_UTF8'):
            return b'\xef\xbb\xbf'
        if o == 'binop' and a[0] == 'Mod' and isinstance(s.val(a[1]), str):
            return 'message'
        return UNKNOWN

    def fed(self, h, s):
        """the hasher gets every block of the file that is open, in one pass"""
        ups = [e for e in self.an.events if e.kind in ('mutate', 'call') and e.name == 'update' and e.recv is h]
        if len(ups) != 1:
            return False
        u = ups[0]
        b = u.args[0]
        if not (b.op == 'call' and b.args[0] in ('.read', '.readbytes')):
            return False
        if not any(e.args[0] in b.args[1].args for e in self.opens):
            return False
        whiles = [l for l in u.loops if l.kind == 'while']
        sized = len(b.args) > 2 and b.args[2] is not const(-1)
        untils = [l for l in u.loops if l.base.op == 'iter2' and l.base.args[0] is b]
        if untils and not whiles:
            return untils[0].base.args[1] in (const(b''), const('')) and not untils[0].exits and s.truth(u.guard) is True
        if not whiles:
            return not sized

        def under(full):
            w = World(dict(s.env), lambda a, x: full if a.op == 'truthy' and a.args[0] is b else
                      (not full if a.op == 'eq' and b in a.args else
                       full if a.op == 'lt' and len(a.args) == 2 and a.args[1].op == 'len' and a.args[1].args[0] is b else self.facts(a, x)),
                      self.ext, self.an, s.at, s.inloop, s.root)
            return w
        full, end = under(True), under(False)
        if full.truth(u.guard) is not True:
            return False
        l = whiles[-1]
        if any(full.truth(g) is not False for k, g, ln in l.exits):
            return False
        cond = getattr(l, 'cond', None)
        ends = any(end.truth(g) is True for k, g, ln in l.exits)
        return ends or (cond is not None and end.truth(cond) is False and full.truth(cond) is True) or \
            (cond is not None and full.truth(cond) is None and end.truth(cond) is None)

    def facts(self, a, s):
        o = a.op
        if o == 'exc':
            names = str(a.args[2])
            if any(x in names for x in ('open', 'read')):
                if 'BagValidationError' in str(a.args[1]):
                    f = self.current(s)
                    return None if f is None else self.inner and not self.there(f)
                if a.args[1] == '*':
                    return bool(not self.inner and any(not self.there(f) for f in self.val_entries()))
                if not catches(a):
                    return False
                f = self.current(s)
                return None if f is None else not self.there(f)
            return self.raised(a, s)
        if o == 'excafter':
            return False
        if o == 'isinstance' and a.args[0] is T('attr', SELF, '_root'):
            return a.args[1] == 'Path'
        if o in ('bcall', 'call') and a.args[0] in ('.isfile', '.exists', '.isdir'):
            p = relname(s, a.args[-1])
            if not isinstance(p, str):
                return None
            return {'.isfile': self.there(p), '.isdir': self.isdir(p), '.exists': self.there(p) or self.isdir(p)}[a.args[0]]
        if o == 'isinstance' and a.args[1] == 'list':
            v = s.val(a.args[0])
            return None if v is UNKNOWN else isinstance(v, list)
        return None

    def raised(self, a, s):
        return False

    def val_entries(self):
        return self.w.env[T('attr', SELF, 'entries')]

    def outcome(self):
        """the first raise that is reached, None without one"""
        hits = []
        for e in self.an.events:
            if e.kind != 'raise' or e.name == 'reraise' and self.inner:
                continue
            sts = self.w.states(e)
            if sts is None:
                if self.w.truth(e.guard) is False:
                    continue
                raise Unknown(e, 'how often this is reached')
            for s in sts:
                if inner_raise(self.an, e, s):
                    continue
                g = s.truth(e.guard)
                if g is None:
                    raise Unknown(e, fshow(s.left(e.guard))[:140])
                if g:
                    hits.append((e, s))
        return hits


def inner_raise(an, e, s):
    """a raise that the function itself handles (it shows in a later guard)"""
    for x in an.events:
        if x.seq > e.seq:
            for a in support(x.guard):
                if a.op == 'exc' and e.name in str(a.args[1]).split('|') and any(l in x.loops for l in e.loops):
                    return True
    return any(a.op == 'exc' and e.name in str(a.args[1]).split('|') and e.loops for x in an.events for a in support(x.guard) if x.seq > e.seq)


def judge_outcome(r, an, what, bw, want, names=('BagValidationError',)):
    """want: True (must fail), False (must not)"""
    try:
        hits = bw.outcome()
    except Unknown as u:
        r.fail(u.event, what + ' known', "what validation finds for %s does not follow from the code: %s" % (what, u.what))
        return None
    if not want:
        r.ok(not hits, hits[0][0] if hits else an.entry, what, "validation fails for %s" % what)
    elif r.ok(hits, an.entry, what, "validation does not fail for %s" % what):
        e = hits[0][0]
        r.ok(e.name in names, e, what + ' as', "the failure for %s is raised as %s" % (what, e.name))
        return hits[0]
    return None


H = {'md5': 'aa', 'sha256': 'bb'}
G = {'md5': 'cc', 'sha256': 'dd'}
ENTRIES = [
    ("a bag without entries", {}, {}, ['md5'], {}, 0),
    ("matching files", {'data/x': H, 'data/y': G}, {'data/x': {'md5': 'aa'}, 'data/y': {'md5': 'cc'}}, ['md5'], {}, 0),
    ("a stored hash in capitals", {'data/x': H}, {'data/x': {'md5': 'AA'}}, ['md5'], {}, 0),
    ("two matching hashes of a file", {'data/x': H}, {'data/x': {'md5': 'aa', 'sha256': 'bb'}}, ['md5', 'sha256'], {}, 0),
    ("a changed file", {'data/x': H, 'data/y': G}, {'data/x': {'md5': 'ac'}, 'data/y': {'md5': 'cc'}}, ['md5'], {}, 1),
    ("a changed file after others", {'data/x': H, 'data/y': G}, {'data/x': {'md5': 'aa'}, 'data/y': {'md5': 'ca'}}, ['md5'], {}, 1),
    ("exchanged files", {'data/x': G, 'data/y': H}, {'data/x': {'md5': 'aa'}, 'data/y': {'md5': 'cc'}}, ['md5'], {}, 2),
    ("a hash of which only the start is right", {'data/x': H}, {'data/x': {'md5': 'a'}}, ['md5'], {}, 1),
    ("a longer hash", {'data/x': H}, {'data/x': {'md5': 'aab'}}, ['md5'], {}, 1),
    ("an empty hash", {'data/x': H}, {'data/x': {'md5': ''}}, ['md5'], {}, 1),
    ("a file whose second hash is wrong", {'data/x': H}, {'data/x': {'md5': 'aa', 'sha256': 'ba'}}, ['md5', 'sha256'], {}, 1),
    ("a file whose first hash is wrong", {'data/x': H}, {'data/x': {'md5': 'ab', 'sha256': 'bb'}}, ['md5', 'sha256'], {}, 1),
    ("a file with two wrong hashes", {'data/x': H}, {'data/x': {'md5': 'ab', 'sha256': 'ba'}}, ['md5', 'sha256'], {}, 2),
    ("two files with two wrong hashes", {'data/x': H, 'data/y': G}, {'data/x': {'md5': 'ab', 'sha256': 'ba'}, 'data/y': {'md5': 'ab', 'sha256': 'ba'}},
     ['md5', 'sha256'], {}, 4),
    ("a changed tag file", {'data/x': H, 'bagit.txt': G}, {'data/x': {'md5': 'aa'}, 'bagit.txt': {'md5': 'aa'}}, ['md5', 'md5'], {}, 1),
    ("a missing file", {'data/x': H}, {'data/x': {'md5': 'aa'}, 'data/y': {'md5': 'cc'}}, ['md5'], {}, 1),
    ("a missing tag file", {'data/x': H}, {'data/x': {'md5': 'aa'}, 'multibag/y': {'sha256': 'cc'}}, ['md5', 'sha256'], {}, 1),
    ("a file under another form of its name", {u'data/e\u0301': H}, {u'data/\xe9': {'md5': 'aa'}}, ['md5'], {u'data/\xe9': u'data/e\u0301'}, 0),
    ("a changed file under another form of its name", {u'data/e\u0301': G}, {u'data/\xe9': {'md5': 'aa'}}, ['md5'], {u'data/\xe9': u'data/e\u0301'}, 1),
]


@rule('C26', 'checksum-verdicts', "checksum validation of a read-only bag hashes the whole of each listed file and fails exactly if a file is missing "
      "or any listed hash differs, with one detail for each difference", floor=30)
def checksum_verdicts(c, r):
    an = c.an('ReadOnlyBag._validate_entries')
    for what, files, entries, algs, names, nbad in ENTRIES:
        bw = BagWorld(an, files, {}, entries, algs, names=names)
        hit = judge_outcome(r, an, what, bw, nbad > 0)
        if hit:
            e, s = hit
            lists = [x for x in subterms(e.args[0]) if x.op == 'obj' and x.args[0] == 'list'] if e.args else []
            n = [s.val(x) for x in lists]
            r.ok(not lists or any(isinstance(x, list) and len(x) == nbad for x in n), e, what + ' details',
                 "the details of the failure for %s are %s" % (what, n))
    # the parallel form computes the same, with the same function, for the same arguments
    calls_ = [e for e in an.events if e.kind == 'call' and e.name in ('map', 'imap', 'starmap', 'imap_unordered')]
    for e in calls_:
        r.ok(e.args and 'calc_hashes' in show(e.args[0]), e, 'parallel', "the parallel validation does not use the hash calculation of the serial one")
        gen = uncopy(e.args[1]) if len(e.args) > 1 else NONE
        base = gen.args[2][0].args[0] if gen.op == 'comp' else gen
        r.ok(base is T('attr', SELF, 'entries') and (gen.op != 'comp' or gen.args[3].args[0] is TRUE), e, 'parallel all',
             "the parallel validation does not cover all entries of the bag: %s" % show(gen)[:120])


@rule('C26', 'oxum-verdicts', "the Payload-Oxum test of a read-only bag fails exactly if the number of payload files or their total size differ from "
      "the (first) value given, and reports a malformed value", floor=12)
def oxum_verdicts(c, r):
    an = c.an('ReadOnlyBag._validate_oxum', opaque=['payload_files'])
    files = {'data/x': 10, 'data/d/y': 0, 'data/z': 7, 'bagit.txt': 55}
    for what, oxum, fs_, want in [
            ("no oxum", None, files, False), ("the right oxum", '17.3', files, False), ("another size", '18.3', files, True),
            ("a smaller size", '16.3', files, True), ("another number of files", '17.2', files, True), ("more files", '17.4', files, True),
            ("size and number exchanged", '3.17', files, True), ("the oxum of all files", '72.4', files, True), ("an oxum of zero", '0.0', files, True),
            ("an oxum of zero for no payload", '0.0', {'bagit.txt': 55}, False), ("the right oxum, then another", ['17.3', '1.1'], files, False),
            ("another oxum, then the right one", ['1.1', '17.3'], files, True), ("leading zeros", '017.03', files, False)]:
        bw = BagWorld(an, fs_, {} if oxum is None else {'Payload-Oxum': oxum})
        judge_outcome(r, an, 'Payload-Oxum: ' + what, bw, want)
    for bad in ('abc.3', '17.x', '.3', '17.', '-1.3', '1.7.3'):
        bw = BagWorld(an, files, {'Payload-Oxum': bad})
        judge_outcome(r, an, 'the Payload-Oxum %s' % bad, bw, True, ('BagError', 'BagValidationError'))


@rule('C26', 'structure-verdicts', "a read-only bag without a payload directory, without a manifest, without or with a marked bagit.txt is invalid, "
      "any other is not", floor=10)
def structure_verdicts(c, r):
    an = c.an('ReadOnlyBag._validate_structure_payload_directory')
    for what, files, dirs, want in [("a payload directory", {'data/x': 1}, ['data'], False), ("an empty payload directory", {}, ['data'], False),
                                    ("no payload directory", {'bagit.txt': 1}, [], True), ("a file in place of the payload directory", {'data': 1}, [], True)]:
        judge_outcome(r, an, what, BagWorld(an, files, dirs=dirs), want)
    an = c.an('ReadOnlyBag._validate_structure_tag_files', opaque=['manifest_files'])
    for what, files, want in [("a manifest and bagit.txt", ['manifest-md5.txt', 'bagit.txt'], False), ("two manifests", ['manifest-md5.txt', 'manifest-sha1.txt', 'bagit.txt'], False),
                              ("no manifest", ['bagit.txt', 'tagmanifest-md5.txt'], True), ("no bagit.txt", ['manifest-md5.txt', 'bag-info.txt'], True)]:
        judge_outcome(r, an, what, BagWorld(an, {f: 1 for f in files}), want)
    an = c.an('ReadOnlyBag._validate_bagittxt')
    for what, b, want in [("a plain bagit.txt", b'BagIt-Version', False), ("an empty bagit.txt", b'', False), ("a marked bagit.txt", b'\xef\xbb\xbfBagIt', True),
                          ("a bagit.txt that is just the mark", b'\xef\xbb\xbf', True), ("a bagit.txt with a mark inside", b'B\xef\xbb\xbf', False)]:
        judge_outcome(r, an, what, BagWorld(an, {'bagit.txt': b}), want)


# ---------------------------------------------------------------------- opening
@rule('C27', 'bag-declaration', "opening a bag takes version, encoding and metadata from bagit.txt and from the metadata file of its version, read in "
      "the declared encoding, then loads the manifests; a bag whose declaration is missing, incomplete or unsupported is refused", floor=30)
def bag_declaration(c, r):
    an = c.an('ReadOnlyBag._open', opaque=['_load_manifests'])
    V, E = 'BagIt-Version', 'Tag-File-Character-Encoding'
    info = {'Source': 'me'}
    good = [('0.93', [0, 93], 'package-info.txt'), ('0.94', [0, 94], 'package-info.txt'), ('0.95', [0, 95], 'package-info.txt'),
            ('0.96', [0, 96], 'bag-info.txt'), ('0.97', [0, 97], 'bag-info.txt'), ('1.0', [1, 0], 'bag-info.txt'), ('1.9', [1, 9], 'bag-info.txt')]

    def world(tags, files, flags=()):
        t = dict(files)
        if tags is not None:
            t['bagit.txt'] = tags
        bw = BagWorld(an, {f: 1 for f in t}, tags=t)
        bw.raised = lambda a, s: any(x in str(a.args[1]).split('|') or a.args[1] in ('*', 'Exception') and x in flags for x in flags)
        return bw
    for ver, vi, fname in good:
        other = 'bag-info.txt' if fname.startswith('p') else 'package-info.txt'
        for enc in ('UTF-8', 'ISO-8859-1'):
            for has in (True, False):
                what = 'a bag of version %s in %s %s %s' % (ver, enc, 'with' if has else 'without', fname)
                bw = world({V: ver, E: enc}, {fname: info, other: {'x': 'y'}} if has else {other: {'x': 'y'}})
                try:
                    hits = bw.outcome()
                except Unknown as u:
                    r.fail(u.event, what + ' known', "what opening %s does does not follow from the code: %s" % (what, u.what))
                    continue
                if not r.ok(not hits, hits[0][0] if hits else an.entry, what, "%s cannot be opened" % what):
                    continue
                sets = {}
                for e in an.events:
                    if e.kind == 'setattr' and e.recv is SELF and bw.w.truth(e.guard) is not False:
                        sets[e.name] = (e, bw.w.val(e.args[0]) if bw.w.truth(e.guard) else UNKNOWN)
                for name, want in (('version_info', vi), ('encoding', enc), ('tag_file_name', fname), ('info', info if has else None)):
                    e, got = sets.get(name, (an.entry, None))
                    r.ok(got == want, e, '%s: %s' % (what, name), "for %s, %s becomes %s" % (what, name, got))
                loads = [e for e in an.events if e.kind == 'call' and e.name == '_load_manifests' and bw.w.truth(e.guard) is True]
                r.ok(loads and all(sets[n][0].seq < loads[-1].seq for n in ('version_info', 'encoding') if n in sets), an.entry, what + ' manifests',
                     "the manifests are not loaded after the declaration for %s" % what)
                for e in an.events:
                    if e.kind == 'call' and e.name.endswith('load_tag_file') and bw.w.truth(e.guard) is True and \
                            relname(bw.w, e.args[0]) != 'bagit.txt':
                        x = e.kw.get('encoding')
                        x = x if x is not None else (e.args[1] if len(e.args) > 1 else None)
                        r.ok(x is not None and bw.w.val(x) == enc, e, what + ' encoding', "the metadata is not read in the declared encoding for %s" % what)
    bad = [("a directory without bagit.txt", None, ()), ("a bagit.txt without version", {E: 'UTF-8'}, ()), ("a bagit.txt without encoding", {V: '0.97'}, ()),
           ("an empty bagit.txt", {}, ()), ("version 0.92", {V: '0.92', E: 'UTF-8'}, ()), ("version 2.0", {V: '2.0', E: 'UTF-8'}, ()),
           ("version 0.9", {V: '0.9', E: 'UTF-8'}, ()), ("version x.1", {V: 'x.1', E: 'UTF-8'}, ('ValueError',)),
           ("an unknown encoding", {V: '0.97', E: 'UTF-99'}, ('LookupError',))]
    for what, tags, flags in bad:
        bw = world(tags, {'bag-info.txt': info, 'package-info.txt': info}, flags)
        judge_outcome(r, an, what, bw, True, ('BagError', 'BagValidationError'))


class OpenWorld(object):
    """a location: what is there, and for an archive the directories in it and those with a bagit.txt"""

    def __init__(self, an, loc, kind, dirs=(), bags=(), more=None):
        self.an, self.loc, self.kind, self.dirs, self.bags = an, loc, kind, list(dirs), list(bags)
        env = {T('param', 'location'): loc}
        env.update(more or {})
        self.w = World(env, self.facts, self.ext, an)

    def ext(self, t, s):
        o, a = t.op, t.args
        if o == 'ext' and a[0].split('.')[-1] in ('ZipFS', 'TarFS', 'OSFS'):
            return a[0].split('.')[-1]
        if o == 'call' and a[0].split('.')[-1] in ('ZipFS', 'TarFS', 'OSFS', 'open_fs'):
            v = s.val(a[1])
            return '%s(%s)' % (a[0].split('.')[-1], v) if isinstance(v, str) else UNKNOWN
        if o == 'call' and a[0] == 'value' and len(a) == 3:
            f, v = s.val(a[1]), s.val(a[2])
            return '%s(%s)' % (f, v) if isinstance(f, str) and isinstance(v, str) else UNKNOWN
        if o == 'call' and a[0] == '.dirs':
            return walked(t, self.dirs, s, True)
        if o == 'call' and a[0] == '.listdir' or o == 'call' and a[0] == '.keys':
            v = s.val(a[1])
            return list(v) if isinstance(v, dict) else UNKNOWN
        if o == 'inst':
            pos = [x for x in a[1:] if not (isinstance(x, Term) and x.op == 'kw')]
            names = {'Path': ['filesys', 'path', 'prefix'], 'ReadOnlyBag': ['bagpath', 'name', 'location']}.get(a[0])
            if names is None:
                return UNKNOWN
            d = Inst(zip(names, [s.val(x) for x in pos]))
            d.update((x.args[0], s.val(x.args[1])) for x in a[1:] if isinstance(x, Term) and x.op == 'kw')
            d['cls'] = a[0]
            if a[0] == 'Path':
                d['fs'] = d.get('filesys')
            return d
        if o == 'call' and a[0] == '.subfspath':
            v = s.val(a[1])
            if isinstance(v, Inst) and (len(a) == 2 or s.val(a[2]) in (None, '')):
                return Inst(v, sub=True)
        return UNKNOWN

    def facts(self, a, s):
        if a.op in ('exc', 'excafter'):
            return False
        if a.op in ('exists', 'isdir', 'isfile'):
            p = s.val(a.args[0])
            if not isinstance(p, str) or posixpath.normpath(p) != posixpath.normpath(self.loc):
                return None
            return {'exists': self.kind is not None, 'isdir': self.kind == 'dir', 'isfile': self.kind == 'file'}[a.op]
        if a.op in ('bcall', 'call') and a.args[0] in ('.isfile', '.exists'):
            p = s.val(a.args[-1])
            return posixpath.dirname(p) in self.bags and posixpath.basename(p) == 'bagit.txt' if isinstance(p, str) else None
        if a.op == 'isinstance' and a.args[1] == 'Path':
            v = s.val(a.args[0])
            return None if v is UNKNOWN else isinstance(v, Inst)
        return None

    def result(self):
        """('raise', event, name) or ('return', event, value)"""
        for e in self.an.events:
            if e.kind != 'raise':
                continue
            for s in self.w.states(e) or [self.w]:
                g = s.truth(e.guard)
                if g is None:
                    raise Unknown(e, fshow(s.left(e.guard))[:140])
                if g:
                    return 'raise', e, e.name
        out = []
        for g, v, h, ln in self.an.returns:
            t = self.w.truth(g)
            if t is False:
                continue
            x = self.w.val(v) if t else UNKNOWN
            out.append(x)
        if len(out) != 1 or out[0] is UNKNOWN or not isinstance(out[0], Inst):
            raise Unknown(self.an.entry, 'what is returned')
        return 'return', self.an.entry, out[0]


IS_DIR = [('/w/bag', '/w', 'bag', '/w/bag'), ('/w/bag/', '/w', 'bag', '/w/bag'), ('/w/bag//', '/w', 'bag', '/w/bag'), ('bag', '.', 'bag', 'bag'),
          ('bag/', '.', 'bag', 'bag'), ('w/my.bag', 'w', 'my.bag', 'w/my.bag'), ('/w/bag.zip', '/w', 'bag.zip', '/w/bag.zip'),
          ('/bag', '/', 'bag', '/bag'), ('../bag', '..', 'bag', '../bag'), ('/w/x.tgz/', '/w', 'x.tgz', '/w/x.tgz'),
          ('.', '..', 'here', '.'), ('./', '..', 'here', '.'), ('..', '/', 'work', '..'), ('../../w/bag/.', '/w', 'bag', '/w/bag')]


def osplace(fsys, path):
    """where a directory of the disk's file system is"""
    if isinstance(fsys, str) and fsys.startswith('OSFS(') and isinstance(path, str):
        return posixpath.normpath(posixpath.join(CWD, fsys[5:-1], path.strip('/')))
    return fsys, path.strip('/') if isinstance(path, str) else path


def absloc(loc):
    if isinstance(loc, str) and '://' not in loc and loc.strip('/'):
        return posixpath.normpath(posixpath.join(CWD, loc))
    return loc


@rule('C27', 'open-bag', "opening a location gives a bag on the directory, or on the directory with the bagit.txt of the archive that the location is "
      "by its extension, under that directory's name and the given location; anything else is refused", floor=30)
def open_bag(c, r):
    an = c.an('multibag.access.bagit:open_bag')

    def get(what, *a):
        try:
            return OpenWorld(an, *a).result()
        except Unknown as u:
            r.fail(u.event, what + ' known', "what opening %s gives does not follow from the code: %s" % (what, u.what))
            return None

    def bag(what, got, fsys, path, name, loc):
        if not r.ok(got[0] == 'return', got[1], what, "%s cannot be opened" % what):
            return
        v = got[2]
        p = v.get('bagpath')
        r.ok(v.get('cls') == 'ReadOnlyBag' and isinstance(p, Inst) and isinstance(p.get('path'), str) and
             osplace(p.get('fs'), p.get('path')) == osplace(fsys, path), got[1], what + ' root',
             "%s is opened as %s of %s" % ((what,) + ((p.get('path'), p.get('fs')) if isinstance(p, Inst) else (p, None))))
        r.ok(v.get('name') == name, got[1], what + ' name', "%s is named %r" % (what, v.get('name')))
        r.ok(absloc(v.get('location')) == absloc(loc), got[1], what + ' location', "%s has the location %r" % (what, v.get('location')))
    for loc, parent, name, want in IS_DIR:
        what = 'the directory %s' % loc
        got = get(what, loc, 'dir')
        if got:
            bag(what, got, 'OSFS(%s)' % parent, name, name, want)
    exts = [('.zip', 'ZipFS'), ('.tar', 'TarFS'), ('.tar.gz', 'TarFS'), ('.tar.bz2', 'TarFS'), ('.tgz', 'TarFS')]
    for ext, cls in exts:
        for base in ('/w/bag', '/w/other.v1', 'rel'):
            what = 'the archive %s%s' % (base, ext)
            got = get(what, base + ext, 'file', ['/bag', '/bag/data'], ['/bag'])
            if got:
                bag(what, got, '%s(%s%s)' % (cls, base, ext), 'bag', 'bag', base + ext)
    for what, dirs, bags, root in [("an archive with another directory first", ['/aaa', '/bag', '/bag/data'], ['/bag'], 'bag'),
                                   ("an archive of a bag that holds a bag", ['/bag', '/bag/data', '/bag/data/in'], ['/bag', '/bag/data/in'], 'bag'),
                                   ("an archive with the bag below a directory", ['/top', '/top/bag', '/top/bag/data'], ['/top/bag'], 'top/bag')]:
        got = get(what, '/w/a.zip', 'file', dirs, bags)
        if got:
            bag(what, got, 'ZipFS(/w/a.zip)', root, root.split('/')[-1], '/w/a.zip')
    what = "an archive below a directory named like one of another kind"
    got = get(what, '/w/x.tar/x.tgz.d/a.zip', 'file', ['/bag', '/bag/data'], ['/bag'])
    if got:
        bag(what, got, 'ZipFS(/w/x.tar/x.tgz.d/a.zip)', 'bag', 'bag', '/w/x.tar/x.tgz.d/a.zip')
    got = get('a filesystem URL', 'osfs:///w/bag', None)
    if got:
        bag('a filesystem URL', got, 'open_fs(osfs:///w/bag)', '', 'bag', 'osfs:///w/bag')
    for what, a, names in [("an empty location", ('', None), ('ValueError',)),
                           ("a missing location", ('/w/bag', None), ('OSError', 'IOError', 'FileNotFoundError')),
                           ("a missing archive", ('/w/bag.zip', None), ('OSError', 'IOError', 'FileNotFoundError')),
                           ("a file of another kind", ('/w/bag.7z', 'file', ['/bag'], ['/bag']), ('ValueError',)),
                           ("a file with a further extension", ('/w/bag.zip.bak', 'file', ['/bag'], ['/bag']), ('ValueError',)),
                           ("a file of another kind below a directory named like an archive", ('/w/a.zip/bag.7z', 'file', ['/bag'], ['/bag']), ('ValueError',)),
                           ("a file without extension", ('/w/bagzip', 'file', ['/bag'], ['/bag']), ('ValueError',)),
                           ("something that is no file or directory", ('/w/bag', 'other'), ('ValueError',)),
                           ("an archive without a bag", ('/w/bag.zip', 'file', ['/bag', '/bag/data'], []), ('BagError',)),
                           ("an empty archive", ('/w/bag.tgz', 'file', [], []), ('BagError',))]:
        got = get(what, *a)
        if got:
            r.ok(got[0] == 'raise' and got[2] in names, got[1], what, "opening %s %s" % (what, 'raises ' + str(got[2]) if got[0] == 'raise' else 'succeeds'))
    # the bag made from it
    an2 = c.an('ReadOnlyBag.__init__')
    P = lambda fs_, path: Inst(cls='Path', fs=fs_, path=path, _pfx='x:')
    for what, p, name, loc, wname, wfs, wpath, wloc in [
            ("a path", '/w/bag', None, None, 'bag', 'OSFS(/w)', 'bag', '/w/bag'),
            ("a path with a final slash", '/w/bag/', None, None, 'bag', 'OSFS(/w)', 'bag', '/w/bag'),
            ("the current directory", '.', None, None, 'here', 'OSFS(/work)', 'here', '/work/here'),
            ("the directory above", '../', None, None, 'work', 'OSFS(/)', 'work', '/work'),
            ("a relative path", 'bag', None, None, 'bag', 'OSFS(.)', 'bag', 'bag'),
            ("a path and a name", '/w/bag', 'nm', None, 'nm', 'OSFS(/w)', 'bag', '/w/bag'),
            ("a path and a location", '/w/bag', None, '/z/loc', 'bag', 'OSFS(/w)', 'bag', '/z/loc'),
            ("a Path, a name and a location", P('F', 'top/bag'), 'nm', '/w/b.zip', 'nm', 'F', 'top/bag', '/w/b.zip'),
            ("a Path and a location", P('F', 'top/bag'), None, '/w/b.zip', 'bag', 'F', 'top/bag', '/w/b.zip'),
            ("a Path and a name", P('F', 'top/bag'), 'nm', None, 'nm', 'F', 'top/bag', '/nm'),
            ("a Path alone", P('F', 'top/bag'), None, None, 'bag', 'F', 'top/bag', '/bag'),
            ("a Path to the root alone", P('F', ''), None, None, '', 'F', '', '//')]:
        ow = OpenWorld(an2, '/none', None, more={T('param', 'bagpath'): p, T('param', 'name'): name, T('param', 'location'): loc})
        sets = {}
        for e in an2.events:
            if ow.w.truth(e.guard) is False:
                continue
            if e.kind == 'setattr' and e.recv is T('self', 'ReadOnlyBag'):
                sets[e.name] = (e, ow.w.val(e.args[0]))
            if e.kind == 'call' and e.name.endswith('__init__'):
                sets['path'] = (e, ow.w.val(e.args[0]) if e.args else UNKNOWN)
            if e.kind == 'raise':
                sets['raise'] = (e, e.name)
        key = 'bag of %s' % what
        r.ok('raise' not in sets, sets.get('raise', (an2.entry,))[0], key, "a bag cannot be made of %s" % what)
        root = sets.get('_root', (an2.entry, None))
        r.ok(isinstance(root[1], Inst) and osplace(root[1].get('fs'), root[1].get('path')) == osplace(wfs, wpath) and root[1].get('sub'), root[0], key + ' root',
             "the root of a bag made of %s is %s" % (what, root[1]))
        for k, want in (('_name', wname), ('path', wloc)):
            e, v = sets.get(k, (an2.entry, None))
            r.ok(v == want or k == 'path' and absloc(v) == absloc(want), e, '%s %s' % (key, k), "the %s of a bag made of %s is %s" % (k.strip('_'), what, v))


@rule(['C26', 'C27'], 'payload-files', "the payload files of a read-only bag are all files below its data directory, under their path in the bag, "
      "each also known by its normalised form", floor=3)
def payload_files(c, r):
    an = c.an('ReadOnlyBag.payload_files')
    walk = [u'/x', u'/d/y', u'/.hid', u'/d/e\u0301', u'/ a b ', u'/data/x', u'/d/data/x.', u'/#1', u'/d/X', u'/.h/z', u'/d/.git/y', u'/d/e/f/g/h']
    want = ['data' + f for f in walk]

    def ext(t, s):
        if t.op == 'call' and t.args[0] in ('.files', '.walk.files'):
            src = t.args[1]
            sub = any(x.op == 'call' and x.args[0] in ('.subfspath', '.opendir') and const('data') in x.args for x in subterms(src))
            if sub:
                return walked(t, walk, s)
            args = [x for x in t.args[2:] if isinstance(x, Term)]
            if any(s.val(x) in ('data', '/data', 'data/', '/data/') for x in args if x.op != 'kw') and all(x.op != 'kw' for x in args):
                return ['/data' + f for f in walk]
            return UNKNOWN
        if t.op == 'call' and t.args[0].endswith('normalize_unicode'):
            v = s.val(t.args[1])
            return unicodedata.normalize('NFC', v) if isinstance(v, str) else UNKNOWN
        return UNKNOWN
    w = World({}, None, ext, an)
    got, names, unk = [], {}, None
    for e in an.events:
        isn = e.kind == 'store' and e.recv is T('attr', SELF, 'normalized_filesystem_names')
        if e.kind != 'yield' and not isn:
            continue
        for s in w.states(e) or [None]:
            g = s.truth(e.guard) if s is not None else None
            v = [s.val(x) for x in e.args] if g else [UNKNOWN]
            if g is False:
                continue
            if any(x is UNKNOWN for x in v):
                unk = e
            elif isn:
                names[v[0]] = v[1]
            else:
                got.append(v[0])
    if r.ok(unk is None, unk or an.entry, 'known', "which payload files are listed does not follow from the code"):
        r.ok(got == want, an.entry, 'payload files', "for the files %s in the data directory, the payload files are %s" % (walk, got))
        r.ok(names == {unicodedata.normalize('NFC', p): p for p in want}, an.entry, 'normalised', "the normalised payload file names are %s" % names)


@rule('C27', 'path-objects', "a path in a filesystem extended by a relative path is that path below it in the same filesystem, and what is asked of a "
      "path is asked of its filesystem for that path", floor=10)
def path_objects(c, r):
    me = T('self', 'Path')
    an = c.an('Path.relpath')
    for base in ('', 'bag', 'top/bag'):
        for rel, want in (('a', 'a'), ('/a', 'a'), ('d/a.txt', 'd/a.txt'), ('.hid/a', '.hid/a'), ('/.hid', '.hid'), (' a /b ', ' a /b '), ('bag', 'bag'), ('', None), (None, None)):
            env = {T('attr', me, 'path'): base, T('attr', me, 'fs'): 'F', T('attr', me, '_pfx'): 'P:', T('param', 'relpath'): rel}
            w = World(env, None, None, an)
            out = []
            for g, v, h, ln in an.returns:
                t = w.truth(g)
                if t is False:
                    continue
                v = uncopy(v)
                for cs, x in cases(v):
                    if w.truth(cs) is False:
                        continue
                    if t is None or x.op != 'inst' or x.args[0] != 'Path':
                        out.append(None)
                    else:
                        out.append((w.val(x.args[1]), w.val(x.args[2])))
            exp = base if want is None else (base + '/' + want if base else want)
            key = '%r below %r' % (rel, base)
            r.ok(out and all(o == ('F', exp) for o in out), an.entry, key, "the path %s becomes %s" % (key, out))
    for m in ('exists', 'isfile', 'isdir'):
        a = c.an('Path.' + m)
        v = a.retval()
        sub = [x for x in subterms(v if v.op != 'F' else T('tuple', *support(v.args[0]))) if x.op in ('call', 'bcall')] if v is not None else []
        r.ok(any(x.args[0] == '.' + m and x.args[1] is T('attr', me, 'fs') and x.args[2] is T('attr', me, 'path') for x in sub), a.entry, m,
             "whether a path %s is not asked of its filesystem: %s" % (m, show(v)[:100]))
    an = c.an('Path.subfspath')
    for base, rel, want in (('bag', None, 'bag'), ('bag', '', 'bag'), ('', 'data', 'data'), ('bag', 'data', 'bag/data'), ('', None, None)):
        env = {T('attr', me, 'path'): base, T('attr', me, 'fs'): 'F', T('attr', me, '_pfx'): 'P:', T('param', 'reldir'): rel}

        def ext(t, s):
            if t.op == 'call' and t.args[0] == '.opendir':
                v = s.val(t.args[2])
                return 'F/' + v if isinstance(v, str) and s.val(t.args[1]) == 'F' else UNKNOWN
            return UNKNOWN
        w = World(env, None, ext, an)
        out = []
        for g, v, h, ln in an.returns:
            t = w.truth(g)
            if t is False:
                continue
            for cs, x in cases(uncopy(v)):
                if w.truth(cs) is False:
                    continue
                out.append((w.val(x.args[1]), w.val(x.args[2])) if t and x.op == 'inst' else None)
        key = 'filesystem of %r in %r' % (rel, base)
        r.ok(out and all(o == ('F' if want is None else 'F/' + want, '') for o in out), an.entry, key, "the %s is %s" % (key, out))
