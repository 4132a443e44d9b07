"""rules for the reconstruction of an aggregation (restore)"""
from ..query import *
from ..terms import TRUE, FALSE, NONE


def contains_atom(g, a):
    return a in support(g)


class Restore(object):
    """facts about BagRestorer.restore with its member and fetch steps inlined"""

    def __init__(self, c):
        self.c = c
        self.head = c.attr_of_prop('BagRestorer', 'head_bag')
        self.dest = c.attr_of_prop('BagRestorer', 'destination_bagdir')
        self.cache = c.attr_of_prop('BagRestorer', 'cache_dir')
        if self.head.op != 'attr' or self.dest.op != 'attr' or self.cache.op != 'attr':
            raise AnalysisBroken("BagRestorer.head_bag/destination_bagdir/cache_dir do not name attributes")
        self.an = c.an('BagRestorer.restore', inline=('BagRestorer.restore_member', 'BagRestorer.restore_fetch'))
        # a variant of the member loop that leaves out a leading entry naming the head bag repeats the general one
        import copy as _copy
        full = self.an
        self.an = _copy.copy(full)
        self.an.events = [e for e in full.events if not drops_head(self, e)]
        self.copies = [e for e in calls(self.an, 'replicate') if len(e.args) > 1 and e.args[1] is self.dest]
        self.mkdirs = [x for x in effects(self.an) if x.kind == 'mkdir' and x.event.loops]

    # --- classification of terms
    def is_members(self, t):
        t = uncopy(t)
        if t.op == 'comp' or t.op == 'slice':
            return False
        return call_of(t, '.member_bags', '.iter_member_bags') and t.args[1] is self.head

    def is_deleted(self, t):
        t = uncopy(t)
        return call_of(t, '.deleted_paths', '.iter_deleted') and t.args[1] is self.head

    def member_loop(self, e):
        for l in e.loops:
            if self.is_members(l.base):
                return l
        return None

    def walk_loop(self, e):
        for l in e.loops:
            if call_of(uncopy(l.base), '.walk'):
                return l
        return None

    def from_head(self, e):
        """the event copies out of the head bag itself"""
        w = self.walk_loop(e)
        src = w.base if w is not None else e.recv
        return self.member_loop(e) is None and contains(src, self.head)

    # --- atoms
    def del_atom(self, a, rel, root):
        """which deletion test atom `a` is: 'file', 'root', 'rootanc', 'anc'"""
        if a.op == 'in' and self.is_deleted(a.args[1]):
            if a.args[0] is rel:
                return 'file'
            if a.args[0] is root:
                return 'root'
            return None
        if a.op == 'existsq' and self.is_deleted(a.args[0]):
            n = a.args[1].args[0]
            el = T('elem', a.args[0])
            pre = atom(T('startswith', root, T('path', el, const('')))) if root is not None else None
            prf = atom(T('startswith', rel, T('path', el, const(''))))
            eqr = f_eq(root, el) if root is not None else None
            eqf = f_eq(rel, el)
            if pre is not None and n is pre:
                return 'rootanc'
            if n is prf:
                return 'anc'
            if root is not None and n is f_or(pre, eqr):
                return 'root+rootanc'
            if n is f_or(prf, eqf):
                return 'file+anc'
        return None

    def normal(self, rel, root, either=False):
        """the value of each recognised condition when a file must be copied; None for a condition the
        specification does not know"""
        def fn(a):
            k = self.del_atom(a, rel, root)
            if k:
                return False
            if a.op == 'exists':
                p = a.args[0]
                if rel is not None and p is mk_path([self.dest, rel]):
                    return False
                if p is self.dest:
                    return True
                if p is self.cache:
                    return True
                return None
            return self.any_env(a) if either else self.normal_env(a)
        return fn

    def any_env(self, a):
        """normal_env for what must happen whether or not the head bag is restored in place"""
        if a.op == 'truthy' and a.args[0] is self.inplace():
            return None
        return self.normal_env(a)

    def normal_env(self, a):
        if self.tagdir_atom(a):
            return self.tagdir_ok(a)
        if a.op == 'truthy' and a.args[0].op == 'attr' and a.args[0].args[0].op == 'self' and \
                a.args[0] is self.inplace():
            return False
        if a.op == 'eq':
            x, y = a.args
            for u, v in ((x, y), (y, x)):
                if attr_of(u, 'name', self.head) and attr_of(v, 'name') and has(v, lambda s: self.is_members(s)):
                    return False
                if u is self.dest or (call_of(u, 'os.path.abspath') and u.args[1] is self.dest):
                    w = v.args[1] if call_of(v, 'os.path.abspath', 'os.path.realpath', 'os.path.normpath') else v
                    if has(w, lambda s: s is self.head) or has_call(w, '.get_member_bag'):
                        return False
        if a.op == 'truthy' and call_of(a.args[0], '.get_member_bag'):
            return True
        if a.op == 'isnone' and call_of(a.args[0], '.get_member_bag'):
            return False
        if a.op == 'truthy' and self.is_members(a.args[0]):
            return True
        if a.op == 'existsq' and self.is_members(a.args[0]):
            sup = support(a.args[1].args[0])
            if all(self.normal_env(x) is not None for x in sup):
                v, left = under_normal(a.args[1].args[0], self.normal_env)
                return v
            if assign(a.args[1].args[0], self.normal_env) is FALSE:
                return False
        if a.op == 'startswith' and a.args[0] is self.cache:
            return True
        if a.op == 'exc' and self.reraised(a):
            return False
        return None

    def reraised(self, a):
        """a failure whose handler passes it on (unless it is found to be harmless)"""
        return any(contains_atom(e.guard, a) and restrict(e.guard, {a: False}) is FALSE for an in self.c.analyses for e in raises(an))

    def inplace(self):
        return T('attr', T('self', 'BagRestorer'), '_inplace')

    def tagdir_atom(self, a):
        """a condition on nothing but the head bag's tag directory name"""
        td = T('attr', self.head, 'multibag_tag_dir')
        if not contains(a, td):
            return False
        if a.op not in ('eq', 'truthy', 'startswith', 'isnone', 'in'):
            return False
        return not any(isinstance(s, Term) and s.op in ('elem', 'param') for s in subterms(a))

    def tagdir_ok(self, a):
        return a.op in ('truthy',)


def _restore(c):
    if not hasattr(c, '_restore'):
        c._restore = Restore(c)
    return c._restore


def rel_root(x, e):
    """relative path being restored, and the walk root it is below"""
    rel = e.args[0]
    w = None
    for l in e.loops:
        if call_of(uncopy(l.base), '.walk'):
            w = l
    if w is None:
        return rel, None
    return rel, T('index', T('elem', w.base), const(0))


@rule('C01', 'restore-precedence',
      "of several member bags providing a path, the copy of the bag listed last is the one restored: either the member "
      "list is walked backwards and an existing destination file is never replaced, or it is walked forwards and the "
      "copy is never suppressed because the file exists", floor=4)
def precedence(c, r):
    x = _restore(c)
    mem = [e for e in x.copies if x.member_loop(e) is not None]
    hd = [e for e in x.copies if x.from_head(e)]
    r.ok(mem, x.an.entry, 'member-copy', "no copy of member bag files into the destination is reachable from restore()")
    r.ok(hd, x.an.entry, 'head-copy', "the head bag's own files are not copied into the destination by restore()")
    for e in mem + hd:
        rel, root = rel_root(x, e)
        ex = T('exists', mk_path([x.dest, rel]))
        l = x.member_loop(e)
        rev = l is None or l.reversed()
        for o in (l.order if l else ()):
            if o.startswith('slice'):
                continue
            r.ok(o in ('rev', 'list', 'tuple', 'copy', 'iter'), e, 'member-order:' + o,
                 "the member list is reordered (%s) before it is restored" % o)
        if rev:
            r.ok(implies(e.guard, f_not(atom(ex))), e, 'no-replace',
                 "members are restored last-to-first but a file that is already in the destination can be replaced by "
                 "the copy of an earlier-listed bag")
        else:
            r.ok(restrict(e.guard, {ex: True}) is not FALSE, e, 'must-replace',
                 "members are restored first-to-last but an existing file is not replaced by the later-listed bag's copy")
        if l is not None:
            for h in hd:
                if rev:
                    r.ok(h.seq < e.seq, e, 'head-order', "member bags are restored (last to first) before the head bag")
                else:
                    r.ok(h.seq > e.seq, e, 'head-order', "the head bag is restored before the members that it overrides")
    # nothing else removes or reorders members
    for e in x.an.events:
        if e.kind == 'mutate' and e.recv is not None and x.is_members(e.recv):
            okm = False
            if e.name in ('pop', 'del', 'remove'):
                v, left = under_normal(e.guard, x.normal_env)
                okm = v is False      # only when the entry names the head bag itself
            if e.name in ('reverse',):
                okm = True
            r.ok(okm, e, 'member-list:' + e.name, "the list of members to restore is altered by %s() for a bag other than the head bag" % e.name)
    # removal of already restored destination files
    for f in effects(x.an):
        if f.kind in ('remove', 'rmtree') and f.event.loops and under(f.target, x.dest):
            r.fail(f.event, 'remove-restored', "a file already restored can be removed while members are being restored")


@rule('C01', 'restore-member-overwrite',
      "restoring one member replaces an existing destination file only when overwriting was asked for", floor=1)
def member_overwrite(c, r):
    x = _restore(c)
    an = c.an('BagRestorer.restore_member')
    ow = T('truthy', T('param', 'overwrite'))
    cps = [e for e in calls(an, 'replicate') if len(e.args) > 1 and e.args[1] is x.dest]
    r.ok(cps, an.entry, 'copy', "restore_member copies nothing")
    for e in cps:
        ex = T('exists', mk_path([x.dest, e.args[0]]))
        g = restrict(e.guard, {ow: False})
        r.ok(implies(g, f_not(atom(ex))), e, 'no-overwrite', "an existing file is replaced although overwrite was not requested")
        g = restrict(e.guard, {ow: True, ex: True})
        r.ok(g is not FALSE, e, 'overwrite', "overwrite=True does not replace an existing file")
    for f in effects(an):
        if f.kind == 'remove' and f.event.loops:
            r.ok(restrict(f.event.guard, {ow: False}) is FALSE, f.event, 'remove',
                 "destination files are removed although overwrite was not requested")


@rule('C02', 'restore-skips-deleted',
      "every copy of a file (and creation of a directory) while restoring is unreachable for a path that the head bag "
      "marks deleted, itself or through a parent directory", floor=8)
def skips_deleted(c, r):
    x = _restore(c)
    sites = [(e, rel_root(x, e)) for e in x.copies]
    for m in x.mkdirs:
        e = m.event
        if not under(m.target, x.dest) or not x.walk_loop(e):
            continue
        rel = T('path', *m.target.args[1:]) if m.target.op == 'path' and len(m.target.args) > 2 else None
        if rel is not None:
            w = x.walk_loop(e)
            sites.append((e, (rel, T('index', T('elem', w.base), const(0)))))
    for e, (rel, root) in sites:
        kinds = set()
        for a in support(e.guard):
            k = x.del_atom(a, rel, root)
            if k and restrict(e.guard, {a: True}) is FALSE:
                kinds.update(k.split('+'))
        r.ok('file' in kinds, e, 'deleted-itself',
             "restores %s without testing whether that path is marked deleted by the head bag" % show(rel))
        r.ok('anc' in kinds or ('root' in kinds and 'rootanc' in kinds), e, 'deleted-parent',
             "restores %s although a directory above it may be marked deleted by the head bag" % show(rel))


@rule('C03', 'restore-copies-everything',
      "every file and directory of the head bag and of every listed member is restored unless it is marked deleted or "
      "already provided: no other condition may gate the copy, and no loop over bags, directories or files may stop early",
      floor=4)
def copies_everything(c, r):
    x = _restore(c)
    mem = [e for e in x.copies if x.member_loop(e) is not None]
    r.ok(mem, x.an.entry, 'member-copy', "restore() copies no member bag files")
    for e in x.copies:
        rel, root = rel_root(x, e)
        w = x.walk_loop(e)
        if not r.ok(w is not None, e, 'walk', "the files restored are not enumerated by walking the source bag"):
            continue
        r.ok(uncopy(w.base).args[1] is e.recv, e, 'walk-source', "files are enumerated from one bag but copied from another")
        r.ok(len(uncopy(w.base).args) == 2, e, 'walk-whole', "only part of the source bag is walked")
        files = T('index', T('elem', w.base), const(2))
        r.ok(any(l.base is files for l in e.loops) and rel is mk_path([root, T('elem', files)]), e, 'every-file',
             "what is restored is %s, not each file of each directory of the source bag" % show(rel))
        v, left = under_normal(e.guard, x.normal(rel, root, either=x.member_loop(e) is not None))
        r.ok(v is True, e, 'extra-condition', "files are restored only under an additional condition: %s" %
             ', '.join(describe(a) for a in left) if left else "the copy cannot be reached in a normal restoration")
        check_breaks(x, r, e)
        for l in sliced(e):
            r.ok(False, e, 'partial-loop', "only part of %s is restored (%s)" % (show(l.base)[:80], ' '.join(l.order)))
    for e in prunes(x.an):
        walk = e.recv.args[0]
        root, el = T('index', walk, const(0)), T('elem', e.recv)
        fn = x.normal(mk_path([root, el]), root, either=True)
        if e.name == 'setslice' and e.args and uncopy(e.args[-1]).op == 'comp' and uncopy(e.args[-1]).args[1] is el:
            r.ok(under_normal(uncopy(e.args[-1]).args[3].args[0], fn)[0] is True, e, 'pruned', "directories that are not deleted are left out of the walk of a bag")
        else:
            r.ok(under_normal(e.guard, fn)[0] is False, e, 'pruned', "directories that are not deleted are left out of the walk of a bag")
    # directories
    dirs = []
    for m in x.mkdirs:
        w = x.walk_loop(m.event)
        if w is None:
            continue
        dirs.append(m)
    # source bag of each member copy really is the member
    for e in mem:
        l = x.member_loop(e)
        nm = T('attr', T('elem', l.base), 'name')
        r.ok(has(e.recv, lambda s: call_of(s, '.get_member_bag', '.find_member_bag') and s.args[2] is nm), e, 'member-source',
             "the bag copied is not the one named by the member list entry: %s" % show(e.recv))
    # a member that cannot be found stops the restoration with an error
    miss = [e for e in raises(x.an) if x.member_loop(e) is not None]
    tot = f_or(*[e.guard for e in miss]) if miss else FALSE

    def gone(a):
        if a.op == 'truthy' and call_of(a.args[0], '.get_member_bag'):
            return False
        if a.op == 'isnone' and call_of(a.args[0], '.get_member_bag'):
            return True
        if a.op == 'existsq' and x.is_members(a.args[0]):
            return None
        return x.any_env(a)
    v, left = under_normal(tot, gone)
    r.ok(v is True, miss[0] if miss else x.an.entry, 'missing-member-raises',
         "a listed member bag that cannot be found does not always stop the restoration with an error")


@rule('C03', 'restore-makes-directories',
      "every directory of a restored bag (including empty ones) is created in the destination unless deleted or present",
      floor=2)
def makes_dirs(c, r):
    x = _restore(c)
    n = 0
    for m in x.mkdirs:
        e = m.event
        w = x.walk_loop(e)
        if w is None or not under(m.target, x.dest):
            continue
        dirs = T('index', T('elem', w.base), const(1))
        root = T('index', T('elem', w.base), const(0))
        rel = T('path', *m.target.args[1:]) if m.target.op == 'path' and len(m.target.args) > 2 else m.target
        if rel is not mk_path([root, T('elem', dirs)]):
            continue
        n += 1
        v, left = under_normal(e.guard, x.normal(rel, root, either=x.member_loop(e) is not None))
        r.ok(v is True, e, 'extra-condition', "directories are restored only under an additional condition: %s" %
             ', '.join(describe(a) for a in left))
    r.ok(n >= 2, x.an.entry, 'mkdir', "restore() does not create the directories of both the head bag and the members")


def drops_head(x, e):
    """the event is in the variant of the member loop that leaves out a leading entry naming the head bag"""
    l = x.member_loop(e)
    return l is not None and any(o.startswith('slice') for o in l.order) and any(
        a.op == 'eq' and any(attr_of(z, 'name', x.head) for z in a.args) and
        any(z.op == 'attr' and z.args[0].op == 'index' for z in a.args) and
        restrict(e.guard, {a: False}) is FALSE for a in support(e.guard))


def check_breaks(x, r, e):
    for l, k, g, ln in loop_breaks(e):
        if k == 'raise':
            continue
        r.ok(g is FALSE, e, 'early-exit', "the loop over %s can stop early (%s at line %s)" % (show(l.base)[:80], k, ln))


@rule('C03', 'member-lookup',
      "the bag restored for a member name is the directory of that name in the cache directory, else a file of that name "
      "with a supported serialization extension there, else what the caller's fetcher returns for that name", floor=4)
def member_lookup(c, r):
    x = _restore(c)
    an = c.an('BagRestorer.get_member_bag', inline=('BagRestorer.find_member_bag',))
    rv = an.retval()
    name = T('param', 'bagname')
    bagdir = mk_path([x.cache, name])
    cs = cases(rv)
    dirs = [g for g, v in cs if v is bagdir]
    tot = f_or(*dirs) if dirs else FALSE
    isd = [a for a in support(tot) if a.op in ('isdir', 'exists') and a.args[0] is bagdir]
    if r.ok(isd, an.entry, 'directory', "an unserialized member bag in the cache directory is not looked for"):
        r.ok(tot is atom(isd[0]), an.entry, 'directory-first',
             "a member directory of the requested name is not always the one returned when it exists")
        ok = False
        for g, v in cs:
            if v is bagdir or v is NONE or not contains(v, bagdir) or restrict(g, {isd[0]: False}) is FALSE:
                continue
            if has(v, lambda s: s.op == 'isfile' and contains(s, bagdir)) or \
                    any(a.op == 'isfile' and contains(a, bagdir) for a in fatoms(v) | fatoms_g(g)):
                ok = True
        r.ok(ok, an.entry, 'serialized', "a serialized form of the member bag in the cache directory is not returned")
    ft = calls(an, '_fetcher') or [e for e in an.events if e.kind == 'call' and len(e.args) == 2 and e.args[0] is name and
                                   e.args[1] is x.cache]
    if r.ok(ft, an.entry, 'fetcher', "the fetcher is not asked for a member that is not in the cache directory"):
        e = ft[0]
        r.ok(len(e.args) == 2 and e.args[0] is name and e.args[1] is x.cache, e, 'fetcher-args',
             "the fetcher is not called with the member's name and the cache directory")
        r.ok(any(has(v, lambda s: s is e.value or (s.op == 'call' and len(s.args) > 2 and s.args[-2] is name and s.args[-1] is x.cache))
                 for g, v in cs), e, 'fetcher-result', "the bag the fetcher returned is not what is used")


# ---------------------------------------------------------------------------------------- manifests

def entry_value(t, key=None):
    """t is <bag>.entries[path][alg]; -> (bag, path, alg)"""
    if t.op == 'index' and t.args[0].op == 'index' and attr_of(t.args[0].args[0], 'entries'):
        return t.args[0].args[0].args[0], t.args[0].args[1], t.args[1]
    return None


def stops(r, e, what, doing):
    for l, k, g, ln in loop_breaks(e):
        if k != 'raise':
            r.fail(e, what, "%s can stop early (%s at line %s)" % (doing, k, ln))
    r.ok(not sliced(e), e, what, "%s leaves out part of the entries" % doing)


@rule('C04', 'restored-manifest-entries',
      "every file copied from a bag is recorded with that bag's own checksums under every algorithm, entries of files that "
      "were not copied are kept, and an entry for a copied file is never replaced by the one the destination had", floor=6)
def manifest_entries(c, r):
    x = _restore(c)
    an = x.an
    for cp in x.copies:
        # the copied path is remembered exactly when it is copied
        notes = [e for e in an.events if e.kind == 'mutate' and e.name in ('append', 'add', 'insert') and e.args and
                 e.args[-1] is cp.args[0] and e.loops == cp.loops]
        direct = [e for e in an.events if e.kind == 'store' and len(e.args) == 2 and entry_value(e.args[1]) and
                  entry_value(e.args[1])[0] is cp.recv and entry_value(e.args[1])[1] is cp.args[0]]
        same = [e for e in notes if e.guard is cp.guard] or [e for e in notes if implies(cp.guard, e.guard)]
        r.ok(same or direct, cp, 'noted', "a file is copied without being noted for the manifest update")
        for n in same[:1]:
            r.ok(implies(n.guard, cp.guard), n, 'noted-only', "a file is noted for the manifest update without being copied")
        if direct:
            src = direct
            key = cp.args[0]
        elif same:
            U = same[0].recv
            key = T('elem', U)
            src = [e for e in an.events if e.kind == 'store' and len(e.args) == 2 and entry_value(e.args[1]) and
                   entry_value(e.args[1])[0] is cp.recv and e.args[0] is key and entry_value(e.args[1])[1] is key]
        else:
            continue
        if not r.ok(src, cp, 'source-checksum',
                    "no manifest entry with the checksum of the bag a file was copied from is recorded for that file"):
            continue
        s = src[0]
        bag, path, alg = entry_value(s.args[1])
        r.ok(alg.op == 'elem' and alg.args[0] is T('index', T('attr', cp.recv, 'entries'), path), s, 'every-algorithm',
             "the checksums recorded are not those of every algorithm the source bag lists for the file: %s" % show(alg))

        def ok(a, cp=cp, path=path):
            if a.op == 'in' and a.args[0] is path and attr_of(a.args[1], 'entries', cp.recv):
                return True
            if a.op == 'truthy' and (a.args[0] is T('index', T('attr', cp.recv, 'entries'), path) or
                                     (path.op == 'elem' and a.args[0] is path.args[0])):
                return True
            v = x.normal(cp.args[0], rel_root(x, cp)[1])(a)
            return v
        v, left = under_normal(s.guard, ok)
        r.ok(v is True, s, 'extra-condition', "the checksum of a copied file is recorded only under a further condition: %s" %
             ', '.join(describe(a) for a in left))
        stops(r, s, 'source-early-exit', "recording the checksums of the copied files")
        # a table already begun for an algorithm is not replaced by an empty one
        for e in an.events:
            if e.kind == 'store' and len(e.args) == 2 and e.args[1].op == 'obj' and e.args[1].args[0] in ('dict', 'OrderedDict') and e.loops == s.loops and \
                    e.recv is not s.recv and (contains(s.recv, e.recv) or contains(s.recv, e.args[1])):
                r.ok(restrict(e.guard, {T('in', e.args[0], e.recv): True}) is FALSE, e, 'table-kept',
                     "the entries collected for an algorithm are dropped when the next file is noted")
        # entries the destination already had
        old = [e for e in an.events if e.kind == 'store' and len(e.args) == 2 and entry_value(e.args[1]) and
               contains(entry_value(e.args[1])[0], x.dest) and abs(e.seq - s.seq) < 60 and e.loops[:-2] == s.loops[:-2]]
        if not r.ok(old, s, 'keep-entries', "manifest entries of files that were not copied from this bag are dropped"):
            continue
        for o in old:
            b2, p2, a2 = entry_value(o.args[1])
            r.ok(o.args[0] is p2 and p2.op == 'elem' and attr_of(p2.args[0], 'entries', b2), o, 'keep-all',
                 "not every existing manifest entry is carried over")
            stops(r, o, 'keep-early-exit', "carrying over the existing manifest entries")
            has_alg = T('in', a2, T('index', T('attr', b2, 'entries'), p2))
            r.ok(a2.op == 'elem' and a2.args[0] is has_alg.args[1] or restrict(o.guard, {has_alg: False}) is FALSE, o, 'keep-algorithm',
                 "an existing entry that lacks an algorithm makes the restoration fail")
            if o.seq > s.seq:
                blk = [a for a in support(o.guard) if a.op == 'in' and a.args[0] is p2 and
                       restrict(o.guard, {a: True}) is FALSE]
                r.ok(blk, o, 'keep-no-replace', "the checksum of a just-copied file is replaced by the one the destination manifest had")
            else:
                blk = []

            def okold(a, blk=blk, b2=b2, p2=p2, a2=a2):
                if a in blk:
                    return False
                if a.op == 'in' and a.args[0] is a2:
                    return True
                v = x.normal(cp.args[0], rel_root(x, cp)[1])(a)
                if v is None and a.op == 'truthy' and a.args[0].op == 'obj':
                    return True
                return v
            v, left = under_normal(o.guard, okold)
            r.ok(v is True, o, 'keep-extra-condition', "existing manifest entries are carried over only under a further condition: %s" %
                 ', '.join(describe(a) for a in left))
        # the manifest update is not skipped or reordered before the copy
        r.ok(s.seq > cp.seq, s, 'after-copy', "manifest entries are computed before the files are copied")


@rule('C04', 'restored-manifest-files',
      "the manifest of an algorithm is rewritten with one 'checksum path' line for each payload entry, and the tag manifest "
      "with one for each other entry, of the merged table", floor=4)
def manifest_files(c, r):
    x = _restore(c)
    an = x.an
    ws = [e for e in an.events if e.kind == 'call' and e.name == 'write' and e.recv is not None and e.recv.op == 'file' and
          under(e.recv.args[0], x.dest) and has(e.recv.args[0], lambda s: is_const(s) and isinstance(cval(s), str) and
                                               'manifest-' in cval(s))]
    kinds = {}
    for e in ws:
        p = path_parts(e.recv.args[0])[-1]
        if p.op != 'concat' or len(p.args) != 3 or cval(p.args[0]) not in ('manifest-', 'tagmanifest-') or \
                cval(p.args[2]) != '.txt':
            r.fail(e, 'name', "manifest written under an unexpected name %s" % show(p))
            continue
        kind, alg = cval(p.args[0]), p.args[1]
        stops(r, e, 'early-exit', "writing the manifests")
        kinds[kind] = kinds.get(kind, 0) + 1
        r.ok(cval(e.recv.args[1]) == 'w', e, 'mode', "the manifest file is not rewritten (mode %r)" % cval(e.recv.args[1]))
        v = e.args[0]
        ok = v.op == 'concat' and len(v.args) == 4 and cval(v.args[3]) == '\n' and is_const(v.args[1]) and \
            cval(v.args[1]).strip(' \t') == '' and cval(v.args[1]) != ''
        if r.ok(ok, e, 'line', "a manifest line is not 'checksum path': %s" % show(v)):
            h, k = v.args[0], v.args[2]
            r.ok(h.op == 'index' and h.args[1] is k and h.args[0].op == 'index' and h.args[0].args[1] is alg, e, 'line-values',
                 "a manifest line does not pair a path with its checksum for the manifest's algorithm: %s" % show(v))
            data = T('startswith', k, const('data/'))
            want = kind == 'manifest-'
            r.ok(restrict(e.guard, {data: not want}) is FALSE, e, 'which-manifest',
                 "%s entries are written to the %s" % ('tag file' if want else 'payload', kind))

            def ok2(a, data=data, want=want, alg=alg):
                if a is data:
                    return want
                if a.op == 'existsq':
                    sup = support(a.args[1].args[0])
                    if all(s.op == 'startswith' and cval(s.args[1]) == 'data/' for s in sup if is_const(s.args[-1])):
                        return True
                v = x.normal(None, None)(a)
                if v is None and a.op == 'truthy' and (a.args[0].op in ('obj', 'index', 'comp')):
                    return True
                return v
            g = assign(e.guard, lambda a: False if (a.op == 'exists' or (a.op == 'truthy' and a.args[0] is x.inplace())) else None)
            v2, left = under_normal(g, ok2)
            r.ok(v2 is True, e, 'extra-condition', "manifest entries are written only under a further condition: %s" %
                 ', '.join(describe(a) for a in left))
    r.ok(kinds.get('manifest-', 0) >= 2 and kinds.get('tagmanifest-', 0) >= 2, an.entry, 'both',
         "restoring the head bag and restoring a member do not both rewrite the payload and the tag manifests")


# ---------------------------------------------------------------------------------------- fetch.txt

@rule('C05', 'restored-fetch',
      "the restored fetch file is the union of the fetch files of all listed members, keyed by the path on each line; for a "
      "path listed twice the last-listed member's line is kept, and lines of deleted paths are left out", floor=6)
def fetch_merge(c, r):
    x = _restore(c)
    fetchp = mk_path([x.dest, const('fetch.txt')])
    for an in (x.an, c.an('BagRestorer.restore_fetch')):
        ws = writes_to(an, lambda p: p is fetchp)
        if not r.ok(ws, an.entry, 'write', "fetch.txt is not written to the restored bag"):
            continue
        for w in ws:
            D = None
            v = w.args[0]
            idx = [s for s in subterms(v) if isinstance(s, Term) and s.op == 'index' and s.args[0].op in ('obj', 'ite', 'loopout', 'phi')
                   and s.args[1].op == 'elem']
            if idx:
                D = idx[0].args[0]
            elif v.op == 'elem':
                D = v.args[0].args[0] if v.args[0].op == 'values' else v.args[0]
            if not r.ok(D is not None, w, 'table', "what is written to fetch.txt is not taken from the merged table: %s" % show(v)):
                continue
            r.ok(D in [s for l in w.loops for s in subterms(l.base)], w, 'every-line', "not every merged line is written")
            nl = has(v, lambda s: is_const(s) and isinstance(cval(s), str) and cval(s).endswith('\n'))
            stripped = has_call(v, '.strip', '.rstrip')
            r.ok(nl or not stripped, w, 'newline', "fetch lines are written without a line end")
            chg = [s for s in subterms(v) if call_of(s, '.replace', '.lower', '.upper', '.title', '.casefold', '.translate', 'quote', 'unquote') or
                   (call_of(s, '.split') and len(s.args) < 4)]
            r.ok(not chg, w, 'line-kept', "the lines of fetch.txt are rewritten: %s" % [show(s)[:60] for s in chg])

            def okw(a, D=D):
                if a.op == 'truthy' and a.args[0] is D:
                    return True
                # leaving out deleted paths while writing; there is something to write
                if a.op == 'in' and x.is_deleted(a.args[1]) and a.args[0].op == 'elem' and uncopy(a.args[0].args[0]) is D:
                    return False
                if a.op == 'existsq' and x.is_deleted(a.args[0]):
                    return False
                if a.op == 'existsq' and uncopy(a.args[0]) is D and assign(a.args[1].args[0], lambda b: okw(b)) is TRUE:
                    return True
                if a.op == 'isnone' and a.args[0].op == 'param':
                    return None
                if a.op == 'exists':
                    return True
                return x.any_env(a)
            g = assign(w.guard, lambda a: True if a.op in ('exists',) else None)
            vv, left = under_normal(g, okw)
            r.ok(vv is True, w, 'write-condition', "fetch.txt is written only under a further condition: %s" %
                 ', '.join(describe(a) for a in left))
            st = [e for e in an.events if e.kind == 'store' and e.recv is D and len(e.args) == 2]
            r.ok(st, w, 'collect', "nothing is collected for fetch.txt")
            for s in st:
                key, val = s.args
                line = None
                for l in s.loops:
                    if call_of(uncopy(l.base), '.open_text_file', '.read_text', '.splitlines', '.readlines') or \
                            has(l.base, lambda z: is_const(z) and cval(z) == 'fetch.txt'):
                        line = T('elem', l.base)
                if not r.ok(line is not None, s, 'lines', "fetch lines are not read one by one from the members' fetch files"):
                    continue
                r.ok(has(val, lambda z: z is line), s, 'value', "the line kept is not the member's line: %s" % show(val))
                okk = key.op == 'index' and is_const(key.args[1]) and cval(key.args[1]) in (2, -1) and \
                    call_of(key.args[0], '.split') and has(key, lambda z: z is line)
                lim = okk and len(key.args[0].args) == 4 and is_const(key.args[0].args[3]) and cval(key.args[0].args[3]) == 2
                r.ok(okk and lim, s, 'key', "fetch lines are not merged by the path (third field, which may contain blanks): keyed by %s" % show(key))
                ml = None
                for l in s.loops:
                    b = uncopy(l.base)
                    if x.is_members(l.base) or b.op == 'param':
                        ml = l
                if not r.ok(ml is not None, s, 'members', "the fetch files read are not those of the listed members"):
                    continue
                rev = ml.reversed()
                inD = [a for a in support(s.guard) if a.op == 'in' and a.args[0] is key and uncopy(a.args[1]) is D]
                if rev:
                    r.ok(any(restrict(s.guard, {a: True}) is FALSE for a in inD), s, 'precedence',
                         "the line of an earlier-listed member replaces that of a later one")
                else:
                    r.ok(not any(restrict(s.guard, {a: True}) is FALSE for a in inD), s, 'precedence',
                         "the line of a later-listed member does not replace that of an earlier one")

                def oks(a, key=key, inD=inD):
                    if a in inD:
                        return False
                    if a.op == 'lt' and has(a, lambda z: call_of(z, '.split')):
                        # len(parts) < 3
                        if a.args[0].op == 'len' and is_const(a.args[1]) and cval(a.args[1]) <= 3:
                            return False
                        if a.args[1].op == 'len' and is_const(a.args[0]) and cval(a.args[0]) <= 2:
                            return True
                        return None
                    if a.op == 'eq' and any(z.op == 'len' and has_call(z, '.split') for z in a.args) and \
                            any(is_const(z) and cval(z) == 3 for z in a.args):
                        return True
                    if a.op == 'truthy' and (line_of(a.args[0], s) or call_of(a.args[0], '.split')):
                        return True
                    if call_of(a, '.isfile', '.exists') and any(is_const(z) and cval(z) == 'fetch.txt' for z in a.args[2:]):
                        return True
                    if a.op == 'in' and x.is_deleted(a.args[1]) and a.args[0] is key:
                        return False
                    if a.op == 'existsq' and x.is_deleted(a.args[0]):
                        return False
                    if a.op == 'eq' and has(a, lambda z: attr_of(z, 'name', x.head)):
                        return None
                    if a.op == 'exists':
                        return True
                    return x.any_env(a)
                bases = [a for a in support(s.guard) if a.op == 'isnone' and a.args[0].op == 'param']
                g = s.guard
                for a in bases:
                    if restrict(g, {a: True}) is FALSE:
                        g = restrict(g, {a: False})
                    else:
                        g = restrict(g, {a: True})
                left = []
                for hv in (True, False):
                    gg = assign(g, lambda a: hv if (a.op == 'eq' and has(a, lambda z: attr_of(z, 'name', x.head))) else None)
                    vv, lf = under_normal(gg, oks)
                    if vv is not True:
                        left = lf or ['unreachable']
                        r.fail(s, 'collect-condition', "fetch lines are collected only under a further condition (%s): %s" %
                               ('head bag' if hv else 'other members', ', '.join(describe(a) if a != 'unreachable' else a for a in left)))
                        break
                else:
                    r.ok(True, s, 'collect-condition', '')
                for l, k, gx, ln in loop_breaks(s):
                    if k != 'raise':
                        r.fail(s, 'early-exit', "collecting fetch lines can stop early (%s at line %s)" % (k, ln))
            # deletions
            kd = set()
            for e in an.events:
                if e.kind == 'mutate' and e.name in ('del', 'pop', 'remove') and e.recv is D and e.args:
                    k = e.args[0]
                    for l, kind, gx, ln in loop_breaks(e):
                        if kind != 'raise':
                            r.fail(e, 'deleted-early-exit', "leaving out deleted lines can stop early (%s at line %s)" % (kind, ln))
                    r.ok(not sliced(e), e, 'deleted-all', "not all lines are looked at for deleted paths")
                    for l in e.loops:
                        if uncopy(l.base) is D:
                            r.ok(l.order or l.base is not D, e, 'deleted-iter', "lines are removed from the table while it is iterated")
                    for a in support(e.guard):
                        d = x.del_atom(a, k, None)
                        if d and restrict(simplify_by(e.guard, env_guard(x, e.guard)), {a: True}) is TRUE:
                            kd.update(d.split('+'))
            for s in st:
                for a in support(s.guard):
                    d = x.del_atom(a, s.args[0], None)
                    if d and restrict(s.guard, {a: True}) is FALSE:
                        kd.update(d.split('+'))
            for a in support(w.guard):
                for l in w.loops:
                    d = x.del_atom(a, T('elem', l.base), None)
                    if d and restrict(w.guard, {a: True}) is FALSE:
                        kd.update(d.split('+'))
            r.ok('file' in kd, w, 'deleted-path', "fetch lines for paths that are marked deleted are kept")
            r.ok('anc' in kd, w, 'deleted-directory', "fetch lines for files below a directory that is marked deleted are kept")
    # restore() merges after the copy so that a member's own fetch.txt does not survive
    x2 = [e for e in writes_to(x.an, lambda p: p is fetchp)]
    for w in x2:
        r.ok(all(cp.seq < w.seq for cp in x.copies), w, 'after-copy', "fetch.txt is merged before all members are copied")
    for an in (x.an, c.an('BagRestorer.restore_fetch')):
        ex = lambda a: True if a.op == 'exists' else None
        envv = lambda a: True if a.op == 'exists' else x.any_env(a)
        gone = [f for f in effects(an) if f.kind == 'remove' and f.target is fetchp and
                not [a for a in support(assign(f.event.guard, envv)) if a.op not in ('isnone', 'truthy') or a.args[0].op != 'param']]
        made = [o for o in an.events if o.kind == 'open' and o.args[0] is fetchp]
        r.ok(gone or made and not any(a.op == 'truthy' and a.args[0].op == 'obj' for o in made for a in support(o.guard)), an.entry, 'stale',
             "a fetch.txt copied from one member is left in the restored bag when the merged one is empty")
        # which bag's fetch file is read for a member
        n = 0
        for e in an.events:
            if e.kind == 'call' and e.name == 'open_text_file' and e.args and e.args[0] is const('fetch.txt') and e.loops:
                el = [T('elem', l.base) for l in e.loops if x.is_members(l.base) or uncopy(l.base).op == 'param']
                for g, v in cases(e.recv):
                    n += 1
                    nm = [T('attr', z, 'name') for z in el]
                    b = v
                    while call_of(b, 'as_extended', 'as_headbag'):
                        b = b.args[1]
                    if b is x.head or attr_of(b, '_head'):
                        same = [a for a in support(g) if a.op == 'eq' and any(z in a.args for z in nm)]
                        r.ok(same and any(restrict(g, {a: False}) is FALSE for a in same), e, 'head-own',
                             "the head bag's fetch file is read in place of that of a member of another name: if %s" % fshow(g)[:120])
                    else:
                        r.ok(has(b, lambda z: z in nm), e, 'member-own', "the fetch file read for a member is that of %s" % show(b)[:100])
        r.ok(n, an.entry, 'read', "no member's fetch file is read")


def line_of(t, e):
    return any(contains(t, T('elem', l.base)) for l in e.loops)


def env_guard(x, g):
    """conjunction of the literals of g that are environment conditions"""
    out = TRUE
    for a in support(g):
        v = x.any_env(a)
        if v is not None or a.op == 'exists':
            for pol in (True, False):
                if restrict(g, {a: not pol}) is FALSE:
                    out = f_and(out, atom(a) if pol else f_not(atom(a)))
    return out


# ---------------------------------------------------------------------------------------- finalisation

MBKEYS = "Multibag-Version Multibag-Reference Multibag-Tag-Directory Multibag-Head-Version Multibag-Head-Deprecates".split()


@rule('C06', 'restored-bag-finalised',
      "after the last file is restored the destination is re-read as a bag, its multibag tag directory and all five multibag "
      "metadata items are removed (unless asked not to), its size metadata recomputed (unless asked not to), and the bag "
      "saved after each group of changes", floor=12)
def finalised(c, r):
    x = _restore(c)
    an = x.an
    rm = T('truthy', T('param', 'remove_multibag_tags'))
    us = T('truthy', T('param', 'update_sizes'))
    fn = an.entry

    def env(a):
        if a in (rm, us):
            return None
        if a.op == 'exists' and a.args[0] is x.dest:
            return True
        return x.any_env(a)
    for pn in ('remove_multibag_tags', 'update_sizes'):
        d = param_default(fn, pn)
        r.ok(d is True, fn, 'default:' + pn, "%s is not enabled by default" % pn)
    # tag directory removal
    rms = [f for f in effects(an) if f.kind == 'rmtree']
    td = T('attr', x.head, 'multibag_tag_dir')
    tgt = [f for f in rms if under(f.target, x.dest) and contains(f.target, td) and f.target is not x.dest and
           f.target.op == 'path' and len(f.target.args) == 2]
    if r.ok(tgt, fn, 'tagdir', "the multibag tag directory is not removed from the restored bag"):
        g = f_or(*[f.event.guard for f in tgt])
        g2 = assign(g, lambda a: True if a.op in ('exists', 'isdir') else None)
        v, left = under_normal(restrict(g2, {rm: True}), env)
        r.ok(v is True, tgt[0].event, 'tagdir-condition', "the tag directory is removed only under a further condition: %s" %
             ', '.join(describe(a) for a in left))
        r.ok(restrict(g, {rm: False}) is FALSE, tgt[0].event, 'tagdir-optional', "the tag directory is removed although that was not asked for")
        for f in tgt:
            r.ok(any(x.tagdir_atom(a) for a in support(f.event.guard)), f.event, 'tagdir-legal',
                 "an unchecked tag directory name is removed recursively")
    # restored bag object
    bags = [e for e in an.events if e.kind == 'call' and e.name.split('.')[-1] in ('Bag', 'open_bag', 'ExtendedReadWritableBag')
            and e.args and e.args[0] is x.dest and not e.loops]
    saves = calls(an, 'save')
    if not r.ok(saves, fn, 'save', "the restored bag is never saved"):
        return
    bag = saves[-1].recv
    opened = [e for e in bags if contains(bag, e.value) or has(bag, lambda s: s.op in ('call', 'inst') and s.args[0] in (e.name, e.name.split('.')[-1]) and x.dest in s.args)]
    r.ok(opened, saves[-1], 'bag', "the bag saved is not the one at the destination: %s" % show(bag))
    content = [e for e in an.events if e.kind in ('open',) and under(e.args[0], x.dest) and any(ch in (mode_of(e) or 'w') for ch in 'wax+')]
    for e in opened[-1:]:
        for w in content + x.copies:
            r.ok(w.seq < e.seq, e, 'reread', "the bag at the destination is opened before its files are all restored, so it is saved with outdated information")
    for s in saves:
        r.ok(s.recv is bag, s, 'same-bag', "a different bag is saved")
    # metadata
    info = T('attr', bag, 'info')
    dels = [e for e in an.events if e.kind == 'mutate' and e.name in ('del', 'pop') and e.recv is info and e.args]
    for k in MBKEYS:
        ds = [e for e in dels if is_const(e.args[0]) and cval(e.args[0]) == k]
        pre = [e for e in dels if e.args[0].op == 'elem' and uncopy(e.args[0].args[0]) is info]
        if not r.ok(ds or pre, fn, 'info:' + k, "%s stays in the restored bag's metadata" % k):
            continue
        g = f_or(*[e.guard for e in (ds or pre)])

        def ok(a):
            if a.op == 'in' and uncopy(a.args[1]) is info:
                return True
            if a.op in ('startswith', 'in', 'eq') and pre:
                return True
            return env(a)
        v, left = under_normal(restrict(g, {rm: True}), ok)
        r.ok(v is True, (ds or pre)[0], 'info-condition:' + k, "%s is removed only under a further condition: %s" %
             (k, ', '.join(describe(a) for a in left)))
        r.ok(restrict(g, {rm: False}) is FALSE, (ds or pre)[0], 'info-optional:' + k, "%s is removed although that was not asked for" % k)
    for e in an.events:
        if e.kind in ('mutate', 'store') and e.recv is info:
            legit = e.kind == 'mutate' and e.name in ('del', 'pop') and e.args and \
                ((is_const(e.args[0]) and cval(e.args[0]) in MBKEYS) or
                 any(a.op == 'startswith' and cval(a.args[1]).startswith('Multibag-') for a in support(e.guard) if is_const(a.args[-1])) or
                 any(a.op == 'in' for a in support(e.guard)))
            r.ok(legit, e, 'info-other', "metadata other than the multibag items is changed: %s" % show(e.args[0] if e.args else info))
    # sizes
    for nm in ('update_oxum', 'update_bag_size'):
        us_ = [e for e in calls(an, nm) if e.recv is bag]
        if r.ok(us_, fn, nm, "%s is not recomputed for the restored bag" % nm[7:]):
            g = f_or(*[e.guard for e in us_])
            v, left = under_normal(restrict(g, {us: True}), env)
            v2 = v
            if v is None and set(left) <= {rm}:
                v2 = False
            r.ok(v2 is True, us_[0], nm + '-condition', "%s is recomputed only under a further condition: %s" %
                 (nm[7:], ', '.join(describe(a) for a in left)))
            r.ok(restrict(g, {us: False}) is FALSE, us_[0], nm + '-optional', "%s recomputed although not asked for" % nm)
            for e in us_:
                r.ok(all(f.event.seq < e.seq for f in tgt), e, nm + '-after', "sizes are computed before the tag directory is removed")
    # every change is saved
    for e in an.events:
        if (e.kind in ('mutate', 'store') and e.recv is info) or (e.kind == 'call' and e.recv is bag and e.name.startswith('update_')):
            later = [s for s in saves if s.seq > e.seq]
            base = assign(e.guard, lambda a: True if a.op == 'in' else None)
            r.ok(later and implies(base, f_or(*[s.guard for s in later])), e, 'saved', "a change of the restored bag's metadata is not saved: %s" % e.name)
    for f in tgt:
        later = [s for s in saves if s.seq > f.event.seq]
        base = assign(f.event.guard, lambda a: True if a.op in ('exists', 'isdir') else None)
        r.ok(later and implies(base, f_or(*[s.guard for s in later])), f.event, 'saved-tags', "the tag manifests are not updated after the tag directory is removed")
    # aggregation-info
    ap = mk_path([td, const('aggregation-info.txt')])
    ws = writes_to(an, lambda p: p is mk_path([x.dest, const('bag-info.txt')]))
    ws = [w for w in ws if has(w.args[0], lambda s: s is ap)]
    if r.ok(ws, fn, 'aggregation-info', "the aggregation's own metadata does not become the restored bag's bag-info.txt"):
        g = f_or(*[w.guard for w in ws])

        def okai(a):
            if call_of(a, '.isfile', '.exists') and ap in a.args:
                return True
            if a.op in ('isfile', 'exists') and contains(a, ap):
                return True
            return env(a)
        v, left = under_normal(g, okai)
        r.ok(v is True, ws[0], 'aggregation-info-condition', "aggregation metadata is restored only under a further condition: %s" %
             ', '.join(describe(a) for a in left))
        for w in ws:
            bi = [cp for cp in x.copies if cp.seq > w.seq]
            for cp in bi:
                ex = T('exists', mk_path([x.dest, cp.args[0]]))
                r.ok(implies(cp.guard, f_not(atom(ex))), cp, 'aggregation-info-kept', "the restored aggregation metadata can be replaced by a member's bag-info.txt")


def param_default(fi, name):
    """the constant default of a parameter (None if it has none)"""
    import ast as _ast
    a = fi.node.args
    pos = a.posonlyargs + a.args
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if p.arg == name:
            return d.value if isinstance(d, _ast.Constant) else _ast.dump(d)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg == name and d is not None:
            return d.value if isinstance(d, _ast.Constant) else _ast.dump(d)
    return MISSING


@rule('C06', 'restore-bag-entry',
      "restore_bag() runs the complete restoration with the options it was given and returns the destination bag", floor=4)
def restore_bag_entry(c, r):
    an = c.an('multibag.restore:restore_bag')
    rs = calls(an, 'restore')
    if r.ok(rs, an.entry, 'restore', "restore_bag() restores nothing"):
        e = rs[0]
        r.ok(implies(normal_guard(an), e.guard), e, 'always', "restore_bag() restores only under a condition")
        r.ok(not e.args and not any(is_const(v) and not cval(v) for v in e.kw.values()), e, 'complete', "restore_bag() disables part of the restoration")
        mk = e.recv
        want = [T('param', n) for n in ('headbag', 'destbag', 'compdir', 'fetcher')]
        if mk.op == 'inst':
            got = [a for a in mk.args[1:]]
        else:
            got = [z for ev in an.events if ev.kind == 'call' and ev.name == 'BagRestorer' for z in ev.args]
        for w in want:
            r.ok(any(g is w or (isinstance(g, Term) and contains(g, w)) for g in got), e, 'arg:' + w.args[0], "restore_bag() does not use its %s argument" % w.args[0])


@rule(['C03', 'C07'], 'restorer-setup',
      "the restorer records the absolute destination, works in place exactly when the destination is the head bag's own "
      "directory, and defaults the place to look for members to the head bag's directory (or a cache inside the "
      "destination when a fetcher is given)", floor=4)
def restorer_setup(c, r):
    x = _restore(c)
    an = c.an('BagRestorer.__init__')
    h = an.final_heap
    fn = an.entry
    dv = h.get(('attr', T('self', 'BagRestorer'), x.dest.args[1]))
    hv = h.get(('attr', T('self', 'BagRestorer'), x.head.args[1]))
    iv = h.get(('attr', T('self', 'BagRestorer'), x.inplace().args[1]))
    if not r.ok(dv is not None and hv is not None and iv is not None, fn, 'attributes', "the restorer does not record its head bag, destination and in-place mode"):
        return
    db, hb = T('param', 'destbag'), T('param', 'headbag')
    r.ok(all(call_of(v, 'os.path.abspath', 'os.path.realpath') and (contains(v, db) or contains(v, hb)) for g, v in cases(dv)), fn, 'destination',
         "the destination is not the absolute path of the given destination: %s" % show(dv)[:200])
    dl = T('truthy', db)
    for g, v in cases(dv, normal_guard(an)):
        if restrict(g, {dl: True}) is not FALSE and not contains(v, db):
            r.fail(fn, 'destination-given', "a given destination is ignored")
    r.ok(any(has_call(v, 'open_headbag', 'as_headbag') for g, v in cases(hv)) and any(v is hb for g, v in cases(hv)), fn, 'head',
         "the head bag recorded is not the given one: %s" % show(hv)[:200])
    n = tobool(iv)
    ng = normal_guard(an)
    r.ok(implies(f_and(ng, f_not(atom(dl))), n), fn, 'inplace-default', "without a destination the head bag is not restored in place")

    def same(a):
        return a.op == 'eq' and all(call_of(z, 'os.path.abspath', 'os.path.realpath') for z in a.args)
    sm = [a for a in support(n) if same(a)]
    care = f_and(ng, atom(dl))
    r.ok(sm and implies(f_and(care, *[atom(a) for a in sm]), n) and
         implies(f_and(care, *[f_not(atom(a)) for a in sm]), f_not(n)), fn, 'inplace',
         "in-place mode is not decided by whether the destination is the head bag's directory")
    ro = [e for e in raises(an) if e.name == 'ValueError']
    r.ok(any(any(a.op == 'isinstance' for a in support(e.guard)) and restrict(e.guard, {dl: True}) is FALSE for e in ro), fn, 'read-only-head',
         "a read-only head bag is accepted for an in-place restoration")
    cv = h.get(('attr', T('self', 'BagRestorer'), x.cache.args[1]))
    cd = T('param', 'compdir')
    ct = T('truthy', cd)
    fe = T('truthy', T('param', 'fetcher'))
    if r.ok(cv is not None, fn, 'cache', "the directory to look for members in is not recorded"):
        for g, v in cases(cv, ng):
            if restrict(g, {ct: True}) is not FALSE and v is not cd:
                r.fail(fn, 'cache-given', "a given member directory is ignored")
            elif v is cd:
                r.ok(restrict(g, {ct: False}) is FALSE, fn, 'cache-given', "no default for the member directory")
            elif restrict(g, {fe: True}) is FALSE or not contains(v, T('param', 'destbag')):
                if restrict(g, {fe: False}) is not FALSE:
                    r.ok(call_of(v, 'os.path.dirname') and has(v, lambda s: attr_of(s, 'path')), fn, 'cache-default',
                         "members are not looked for beside the head bag by default: %s" % show(v)[:160])
