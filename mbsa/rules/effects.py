"""
Effects on the file system (C07: where an operation may write, C08: what writes nothing at all).

The effect catalogue is closed for the system modules: any function of os, shutil, tempfile, subprocess or the fs
library's copy/move/mirror modules that is not listed as a pure query counts as an effect.
"""
from ..query import *
from ..terms import TRUE, FALSE, NONE
from .restore import _restore
from .split import _apply, known_output

PURE_OS = frozenset("""listdir walk scandir stat lstat access getcwd getcwdu environ getenv sep getpid getuid geteuid getlogin fspath fsencode
fsdecode readlink fstat cpu_count uname times urandom get_terminal_size fwalk statvfs strerror isatty getcwdb getppid""".split())
PURE_SHUTIL = frozenset("disk_usage which get_terminal_size get_archive_formats get_unpack_formats ignore_patterns".split())
FS_CHANGERS = frozenset("""remove removedir removetree move copy copydir movedir makedir makedirs create touch settext setbytes setbin
setbinfile setfile writetext writebytes writefile writebin appendtext appendbytes upload setinfo settimes""".split())
OPENERS = ('open_bin_file', 'open_text_file', '_open_text_file_Path', 'openbin')


def fsobj(t):
    """is the term an object of the fs library?"""
    t = uncopy(t)
    return attr_of(t, 'fs') or (t.op in ('call', 'inst', 'new') and isinstance(t.args[0], str) and
                                (t.args[0].startswith('fs.') or t.args[0] in ('.opendir', '.makedir', '.makedirs'))) or \
        (t.op == 'ite' and any(fsobj(v) for g, v in cases(t)))


def fsroot(t):
    """the directory an fs object stands for"""
    t = uncopy(t)
    if t.op in ('call', 'inst', 'new') and isinstance(t.args[0], str) and t.args[0].startswith('fs.') and len(t.args) > 1:
        return t.args[1]
    return t


def writing(m):
    return m is None or any(ch in m for ch in 'wax+')


def fx(an):
    """every file-system effect of the analysed code, from a closed catalogue"""
    out = list(effects(an))
    have = {id(f.event) for f in out}
    for e in an.events:
        if id(e) in have or e.kind not in ('call', 'mutate', 'open'):
            continue
        n = e.name or ''
        last = n.split('.')[-1]
        args = e.args
        if e.recv is not None and (fsobj(e.recv) or attr_of(uncopy(e.recv), '_root') or uncopy(e.recv).op == 'self' and last in ('openbin',)):
            if last in FS_CHANGERS:
                out.append(Effect('write', mk_path([fsroot(e.recv)] + list(args[:1])), e))
                if last in ('move', 'copy', 'copydir', 'movedir') and len(args) > 1:
                    out.append(Effect('write', mk_path([fsroot(e.recv), args[1]]), e))
                continue
            if last in ('open', 'openbin') and writing(mode_of(e)):
                out.append(Effect('write', mk_path([fsroot(e.recv)] + list(args[:1])), e))
                continue
        if e.kind == 'call' and e.recv is None:
            if last == 'save' and args:
                out.append(Effect('save', T('attr', args[0], 'path'), e))
            elif n.startswith('fs.') and n.split('.')[1] in ('copy', 'move', 'mirror', 'tools', 'zipfs', 'tarfs'):
                tgt = mk_path([fsroot(args[2]), args[3]]) if len(args) > 3 else (fsroot(args[1]) if len(args) > 1 else const('?'))
                out.append(Effect('copy', tgt, e, args[0] if args else None))
                if '.move' in n:
                    out.append(Effect('remove', fsroot(args[0]), e))
            elif n in ('fs.open_fs', 'fs.osfs.OSFS', 'OSFS', 'open_fs'):
                cr = e.kw.get('create')
                if cr is not None and not (is_const(cr) and not cval(cr)):
                    out.append(Effect('mkdir', args[0] if args else const('?'), e))
            elif n.startswith('os.') and not n.startswith('os.path.'):
                if last not in PURE_OS and n not in ONE_PATH and n not in COPIERS and n not in MOVERS and last.islower():
                    out.append(Effect('other', args[0] if args else const('?'), e))
            elif n.startswith('shutil.') and last not in PURE_SHUTIL and n not in ONE_PATH and n not in COPIERS and n not in MOVERS:
                out.append(Effect('other', args[0] if args else const('?'), e))
            elif n.split('.')[0] in ('tempfile', 'subprocess', 'zipfile', 'tarfile', 'pickle', 'shelve', 'dbm', 'sqlite3'):
                out.append(Effect('other', args[0] if args else const('?'), e))
            elif last == 'make_bag' or n == 'logging.FileHandler':
                out.append(Effect('other', args[0] if args else const('?'), e))
            elif last in OPENERS and writing(mode_of(e)):
                out.append(Effect('write', args[0] if args else const('?'), e))
    return out


WRITERS = frozenset("""save save_member_bags save_file_lookup save_deleted ensure_tagdir clear_file_lookup set_multibag_tag_dir update_info
replicate apply_iter split restore restore_member restore_fetch get_member_bag init_from_amendee finalize convert write_member_bags
write_file_lookup fill ensure_root""".split())
WRITER_FUNCS = frozenset("restore_bag amend_bag_with make_single_multibag mkdataset create_file make_bag".split())

# methods that only look at a bag, or change a description in memory
READERS = {
    'ReadOnlyBag': "exists fetch_entries is_head_multibag isdir isfile manifest_files missing_optional_tagfiles open_text_file payload_files "
                   "tagmanifest_files __init__ __str__",
    'Path': "exists isdir isfile relpath subfspath __init__ __str__ __repr__",
    'ExtendedReadOnlyBag': "exists is_head_multibag isdir isfile open_text_file sizeof timesfor walk nonstandard __init__",
    'ExtendedReadWritableBag': "exists is_head_multibag isdir isfile open_text_file sizeof timesfor walk nonstandard calc_oxum calc_bag_size "
                               "update_oxum update_bag_size __init__",
    'HeadBag': "deleted_paths files_in_member iter_deleted iter_file_lookup iter_member_bags lookup_file member_bags exists isdir isfile "
               "open_text_file sizeof timesfor walk nonstandard is_head_multibag add_file_lookup add_member_bag remove_file_lookup remove_member_bag "
               "set_deleted unset_deleted set_member_bags update_for_member __init__",
    'ReadOnlyHeadBag': "deleted_paths files_in_member iter_deleted iter_file_lookup iter_member_bags lookup_file member_bags exists isdir isfile "
                       "open_text_file sizeof timesfor walk nonstandard is_head_multibag __init__",
    'HeadBagValidator': "validate validate_aggregation_info validate_baginfo_recs validate_file_lookup validate_head_deprecates validate_head_version "
                        "validate_member_bags validate_reference validate_tag_directory validate_version is_valid ensure_valid __init__",
    'MemberBagValidator': "validate validate_as_nonhead validate_bagname is_valid ensure_valid __init__",
    'BagValidator': "validate is_valid ensure_valid __init__",
    'SplitPlan': "complete_plan find_destination is_complete manifests missing name_output_bags required __init__",
    'WellPackedSplitter': "plan __init__",
    'NeighborlySplitter': "plan __init__",
    'BagRestorer': "find_member_bag __init__",
    'MemberInfo': "format parse_line_02 parse_line_03 __init__",
    'Amender': "__init__",
}
READ_FUNCS = [('multibag.access.bagit', 'open_bag'), ('multibag.access.extended', 'as_extended'), ('multibag.access.multibag', 'open_headbag'),
              ('multibag.access.multibag', 'as_headbag'), ('multibag.access.multibag', 'is_headbag'), ('multibag.split', 'asProgenitor')]
PROPS = {'HeadBag': "head_version multibag_tag_dir profile_version member_bag_names name", 'ReadOnlyHeadBag': "head_version multibag_tag_dir profile_version "
         "member_bag_names name", 'BagRestorer': "cache_dir destination_bagdir head_bag"}
# overridden steps of the BagIt library: reached from its opening and validation
HOOKS = {'ReadOnlyBag': "_open _load_manifests _path_is_dangerous _validate_bagittxt _validate_entries _validate_oxum "
                        "_validate_structure_payload_directory _validate_structure_tag_files"}


def _has_method(c, cls, m):
    try:
        return c.prog.method(cls, m)
    except Exception:
        return None


def readers(c):
    for cls in sorted(READERS):
        for m in (READERS[cls] + ' ' + PROPS.get(cls, '') + ' ' + HOOKS.get(cls, '')).split():
            if _has_method(c, cls, m) is None:
                continue
            yield '%s.%s' % (cls, m)
    for mod, f in READ_FUNCS:
        try:
            c.prog.function(mod, f)
        except Exception:
            continue
        yield '%s:%s' % (mod, f)


@rule('C08', 'read-only-operations',
      "no operation that looks at, validates, or plans with a bag (nor one that changes a description in memory) reaches a "
      "file-system effect or calls one of the operations that write", floor=100)
def read_only(c, r):
    for q in readers(c):
        an = c.an(q)
        bad = fx(an)
        r.ok(not bad, bad[0].event if bad else an.entry, q, "%s changes the file system: %s" % (q, [repr(b)[:120] for b in bad[:2]]))
        ws = [e for e in an.events if e.kind == 'call' and
              ((e.recv is not None and e.name in WRITERS and e.name not in ('update_info',)) or
               (e.recv is not None and e.name == 'update_info' and uncopy(e.recv).op == 'self') or
               (e.recv is None and e.name.split('.')[-1] in WRITER_FUNCS) or
               (e.recv is None and e.name.split('.')[-1] in WRITERS and '.' in e.name and not e.name.startswith(('os.', 're.'))))]
        # splitting strings and formatting are no operations on bags
        ws = [e for e in ws if not (e.name == 'split' and not _bagish(e.recv))]
        r.ok(not ws, ws[0] if ws else an.entry, q + ' calls', "%s calls %s, which writes" % (q, [e.name for e in ws[:2]]))


def _bagish(t):
    return t is not None and uncopy(t).op in ('self', 'inst', 'new')


MEMORY_OPS = frozenset("""add_file_lookup add_member_bag remove_file_lookup remove_member_bag set_deleted unset_deleted set_member_bags
update_for_member update_oxum update_bag_size __init__ complete_plan name_output_bags _open _load_manifests""".split())


@rule('C08', 'reading-keeps-metadata',
      "no operation that looks at, validates, or plans with a bag changes the metadata or checksums it holds, so that a later "
      "save writes what was read", floor=60)
def keeps_metadata(c, r):
    for q in readers(c):
        if q.split('.')[-1].split(':')[-1] in MEMORY_OPS:
            continue
        an = c.an(q)
        bad = [e for e in an.events if e.kind in ('store', 'mutate', 'setattr') and e.recv is not None and
               (_meta(e.recv) or (e.kind == 'setattr' and e.name in ('info', 'entries', 'algorithms', '_bagdir', '_root')
                                  and uncopy(e.recv).op in ('self', 'param')))]
        r.ok(not bad, bad[0] if bad else an.entry, q, "%s changes the bag's description: %s" % (q, [(e.name, show(e.recv)[:60]) for e in bad[:2]]))


def _meta(t):
    # only a copy that was made explicitly may be changed
    while t.op == 'index' or call_of(t, '.get', '.setdefault'):
        t = t.args[1] if t.op == 'call' else t.args[0]
    return attr_of(t, 'info') or attr_of(t, 'entries')


@rule('C08', 'read-only-bag-save', "saving a bag that was opened read-only is refused", floor=3)
def ro_save(c, r):
    for cls in ('ReadOnlyBag', 'ExtendedReadOnlyBag', 'ReadOnlyHeadBag'):
        if not r.ok(_has_method(c, cls, 'save') is not None, 'multibag/access/bagit.py', cls + '.save', "a read-only bag has the library's save()"):
            continue
        an = c.an(cls + '.save')
        r.ok(normal_guard(an) is FALSE, an.entry, cls + '.save', "saving a read-only bag is not refused")
        r.ok(not fx(an), an.entry, cls + '.save effects', "saving a read-only bag writes something")


# ------------------------------------------------------------------ C07

def safe_part(t):
    """a path component that cannot lead out of the directory it is joined to"""
    t = uncopy(t)
    if is_const(t):
        v = cval(t)
        return isinstance(v, str) and not v.startswith('/') and '..' not in v.split('/')
    if t.op in ('cat', 'fmt', 'concat'):
        ps = [p for p in t.args if isinstance(p, Term)]
        return bool(ps) and is_const(ps[0]) and safe_part(ps[0]) and not str(cval(ps[0])).endswith(('/', '.')) and str(cval(ps[0])) != ''
    if call_of(t, 'os.path.basename'):
        return True
    return False


def walked(t):
    """a path or name that a walk of a bag produced"""
    return has(t, lambda s: s.op == 'elem' and has_call(s.args[0], '.walk')) and not has_call(t, 'open', '.open_text_file', '.fetch_entries')


@rule('C07', 'restore-confined',
      "every effect of a restoration is at or below the destination (the cache directory may be created), at a fixed name, the checked "
      "tag directory, or a path that a walk of a bag gave", floor=20)
def restore_confined(c, r):
    x = _restore(c)
    td = T('attr', x.head, 'multibag_tag_dir')
    for m in ('restore', 'restore_member', 'restore_fetch', 'get_member_bag', 'find_member_bag', '__init__'):
        an = c.an('BagRestorer.' + m)
        for f in fx(an):
            e, t = f.event, f.target
            if f.kind == 'mkdir' and t is x.cache:
                r.ok(True, e, m, '')
                continue
            if f.kind == 'save':
                b = t.args[0]
                r.ok(has(b, lambda s: s.op in ('call', 'inst', 'new') and x.dest in s.args) and not contains(b, x.head), e, m,
                     "a bag other than the one at the destination is saved: %s" % show(b)[:120])
                continue
            for g, v in lift(t, e.guard):
                if g is FALSE:
                    continue
                if not r.ok(under(v, x.dest), e, m, "%s of %s, which is not in the destination" % (f.kind, show(v)[:140])):
                    continue
                if f.kind in ('rmtree', 'move', 'other'):
                    r.ok(f.kind == 'rmtree' and contains(v, td), e, m, "%s of %s" % (f.kind, show(v)[:120]))
                if v.op == 'path':
                    for p in v.args[1:]:
                        r.ok(safe_part(p) or walked(p) or contains(p, td), e, m,
                             "%s of %s: the component %s may lead out of the destination" % (f.kind, show(v)[:80], show(p)[:80]))
        for e in calls(an, *WRITERS):
            if e.recv is None or uncopy(e.recv) is T('self', 'BagRestorer') or e.name in ('save', 'split'):
                continue
            if e.name in ('replicate', 'replicate_with_hardlink'):
                r.ok(len(e.args) > 1 and under(e.args[1], x.dest), e, m, "a file is replicated to %s" % [show(a)[:80] for a in e.args[1:2]])
                continue
            r.fail(e, m, "%s is called on %s" % (e.name, show(e.recv)[:100]))
        # copies are not links: the restored bag is written to later
        for e in an.events:
            if e.kind == 'setattr' and e.name == 'replicate_with_hardlink':
                r.ok(len(e.args) and e.args[0] is const(False), e, m, "files of a member bag are linked into the restored bag, which is then changed")
        for f in fx(an):
            if f.event.kind == 'call' and f.event.name in ('os.link', 'os.symlink'):
                r.fail(f.event, m, "files of a member bag are linked into the restored bag, which is then changed")


@rule('C07', 'restore-tagdir-checked',
      "for every class of recorded tag directories, the recursive removal and everything else a restoration does is reached only "
      "if that names a directory below the destination other than its data directory", floor=8)
def restore_tagdir(c, r):
    from ..worlds import World
    x = _restore(c)
    an = c.an('BagRestorer.restore')
    td = T('attr', x.head, 'multibag_tag_dir')
    for v, legal in [('multibag', True), ('tags/multibag', True), ('./multibag', True), ('datasets', True), ('..', False), ('.', False), ('', False),
                     ('/etc', False), ('../other', False), ('a/../..', False), ('a/..', False), ('data', False), ('data/x', False), ('./data', False), ('./', False)]:
        w = World({td: v}, an=an)
        for f in fx(an):
            if f.kind != 'rmtree':
                continue
            reach = reached(w, f.event)
            if legal:
                r.ok(reach is not False, f.event, v, "the tag directory %r is not removed" % v)
            else:
                r.ok(reach is False, f.event, v, "with the tag directory recorded as %r, %s is removed recursively" % (v, show(f.target)[:80]))
    if not any(f.kind == 'rmtree' for f in fx(an)):
        r.fail(an.entry, 'rmtree', "no tag directory is removed")


@rule('C07', 'restore-not-onto-itself',
      "when the member to restore is the destination itself (however its location is written), nothing is removed or copied", floor=3)
def restore_itself(c, r):
    x = _restore(c)
    an = c.an('BagRestorer.restore_member')

    def same(a):
        if call_of(a, 'os.path.samefile') and x.dest in a.args:
            return True
        return a.op == 'eq' and x.dest in [_absd(t) for t in a.args] and any(call_of(t, 'os.path.abspath', 'os.path.realpath') and
                                                                          t.args[1] is not x.dest for t in a.args)

    def _absd(t):
        return t.args[1] if call_of(t, 'os.path.abspath', 'os.path.realpath') else t
    n = 0
    for f in fx(an):
        if not f.event.loops or f.kind not in ('remove', 'copy', 'link', 'write', 'move', 'rmtree') or not under(f.target, x.dest):
            continue
        at = [a for a in support(f.event.guard) if same(a)]
        n += 1
        r.ok(any(restrict(f.event.guard, {a: True, T('exists', x.dest): True, T('isdir', x.dest): True}) is FALSE for a in at), f.event, 'itself', "%s of %s although the bag restored from can be the destination itself: its files are lost"
             % (f.kind, show(f.target)[:60]))


def reached(w, e):
    """False if the guard of the event is false in the world, else True/None"""
    seen = {}

    def env(a):
        if a not in seen:
            try:
                v = w.cond(a)
            except Exception:
                v = None
            seen[a] = v if isinstance(v, bool) else None
        return seen[a]
    g = assign(e.guard, env)
    return False if g is FALSE else True if g is TRUE else None


@rule('C07', 'split-confined',
      "every effect of applying a plan is in the directory of the bag being written, which it creates itself (an existing one "
      "is never written into), and the source bag is only read", floor=20)
def split_confined(c, r):
    x = _apply(c)
    an = x.an
    out = T('param', 'outdir')
    mk = []
    for f in fx(an):
        e, t = f.event, f.target
        if f.kind == 'save':
            r.fail(e, 'save', "a bag is saved while splitting: %s" % show(t)[:100])
            continue
        if not r.ok(under(t, out), e, 'outdir', "%s of %s, which is not in the output directory" % (f.kind, show(t)[:140])):
            continue
        if f.kind == 'other':
            r.fail(e, 'other', "%s of %s" % (e.name, show(t)[:100]))
        if not r.ok(below(t, x.B), e, 'bagdir', "%s of %s, which is not in the bag being written" % (f.kind, show(t)[:140])):
            continue
        if f.kind == 'mkdir' and (t is x.B or (e.name == 'os.makedirs' and t is mk_path([x.B, const('data')]))):
            mk.append(f)
    if r.ok(mk, an.entry, 'bagdir created', "the directory of an output bag is not created"):
        r.ok(any(_fails_if_there(an, f.event, t, x.B) for f in mk for t in [f.target]) or _refused(an, x.B), mk[0].event, 'existing refused',
             "an existing directory with the name of an output bag is written into")
        first = min(f.event.seq for f in mk)
        for f in fx(an):
            r.ok(f.event.seq >= first, f.event, 'before', "%s before the bag's directory is created" % f.kind)
    for e in an.events:
        if e.kind in ('store', 'mutate') and e.recv is not None and _meta(e.recv) and contains(e.recv, T('self', 'SplitPlan')):
            r.fail(e, 'source', "the metadata of the source bag is changed")
        if e.kind == 'call' and e.recv is not None and e.name in WRITERS - {'replicate', 'split'} and attr_of(uncopy(e.recv), 'progenitor'):
            r.fail(e, 'source', "%s of the source bag" % e.name)


@rule('C07', 'split-no-write-through',
      "a file of an output bag may share its storage with the source's file; whatever apply_iter writes at a path that a copied "
      "file may have been put at is written after that file was removed", floor=3)
def split_links(c, r):
    x = _apply(c)
    an = x.an
    fs = effects_split(an, lambda p: known_output(x, p) or p is x.dst, keep=(x.name,))
    TAGS = ('member-bags.tsv', 'file-lookup.tsv', 'aggregation-info.txt')
    named = {}          # files copied by name
    for f in fs:
        if f.kind == 'copy' and f.event not in x.copies and known_output(x, f.target):
            named.setdefault(f.target, []).append(f)
    lastcopy = max([e.seq for e in x.copies] or [0])
    for f in fs:
        k = known_output(x, f.target)
        if f.kind != 'write' or not k:
            continue
        before = [g.event.seq for g in named.get(f.target, []) if g.event.seq < f.event.seq]
        if k in TAGS:
            before.append(lastcopy)
        if not before:
            continue

        def there(a, t=f.target):
            if a.op in ('exists', 'isfile', 'lexists') and a.args[0] is t:
                return True
            if a.op in ('isdir', 'islink') and a.args[0] is t:
                return False
            return None
        rm = [g for g in fs if g.kind == 'remove' and g.target is f.target and max(before) < g.event.seq < f.event.seq]
        ok = implies(assign(f.event.guard, there), f_or(*[assign(g.event.guard, there) for g in rm])) if rm else False
        r.ok(ok, f.event, 'write ' + k, "%s of an output bag is written to without removing the file copied from the source first: the source's own "
             "file changes if it is a hard link" % k)


def below(t, root):
    ps = path_parts(root)
    for g, v in lift(t, TRUE, keep=tuple(ps)):
        if call_of(v, 'os.path.dirname') and v.args[1].op == 'path' and len(path_parts(v.args[1])) > len(ps):
            v = v.args[1]
        if list(path_parts(v))[:len(ps)] != list(ps):
            return False
    return True


def _fails_if_there(an, e, t, B):
    """making the directory fails whenever B exists already, whatever is in it, and the failure ends the operation"""
    if t is not B or e.name not in ('os.mkdir', 'os.makedirs') or _exist_ok(e):
        return False
    there = {}
    for a in support(e.guard):
        if a.op in ('exists', 'isdir', 'lexists') and a.args[0] is B:
            there[a] = True
        elif a.op in ('isfile', 'islink') and a.args[0] is B:
            there[a] = False
    g = restrict(e.guard, there)
    if g is FALSE or any(a.op in ('exists', 'isdir', 'isfile') and below(a.args[0], B) for a in support(g)):
        return False
    for ctx in e.tries:
        for tys, hg, evs, after, h in ctx.handler_events:
            if tys is None or any(t in ('OSError', 'IOError', 'EnvironmentError', 'FileExistsError', 'Exception', 'BaseException') for t in tys):
                left = assign(after, lambda a: True if a.op in ('exists', 'isdir') and a.args[0] is B else None)
                if left is not FALSE:
                    return False        # the failure is swallowed
                break
    return True


def _exist_ok(e):
    v = e.kw.get('exist_ok') or (e.args[2] if len(e.args) > 2 else None)
    return v is not None and not (is_const(v) and not cval(v))


def _refused(an, p):
    return any(any(a.op in ('exists', 'isdir') and a.args[0] is p for a in support(e.guard)) and
               all(restrict(e.guard, {a: False}) is FALSE for a in support(e.guard) if a.op in ('exists', 'isdir') and a.args[0] is p) for e in raises(an))


NEWHEAD = T('attr', T('self', 'Amender'), '_newhead')
NEWDIR = T('attr', T('self', 'Amender'), '_newheaddir')


@rule('C07', 'amend-confined',
      "an amendment writes only to the new head bag: every effect is in its directory and every writing operation is called on it; "
      "the amended and the amending bags are only read", floor=12)
def amend_confined(c, r):
    for m in ('__init__', 'init_from_amendee', 'add_amending_bag', 'finalize'):
        an = c.an('Amender.' + m)
        hs = {NEWHEAD}
        ds = {NEWDIR, T('attr', NEWHEAD, '_bagdir'), T('attr', NEWHEAD, 'path')}
        h = getattr(an, 'final_heap', None)
        for f in fx(an):
            b = f.target.args[0] if f.kind == 'save' else None
            ok = b in hs if b is not None else any(under(f.target, d) and f.target is not d for d in ds)
            r.ok(ok, f.event, m, "%s of %s, which is not in the new head bag" % (f.kind, show(f.target)[:120]))
            if f.target.op == 'path':
                r.ok(all(safe_part(p) or attr_of(uncopy(p), 'multibag_tag_dir', NEWHEAD) for p in f.target.args[1:]), f.event, m,
                     "%s of %s" % (f.kind, show(f.target)[:120]))
        for e in an.events:
            if e.kind == 'call' and e.recv is not None and (e.name in WRITERS - {'split'} or e.name in BAG_CHANGERS) and not strlike(e.recv):
                v = uncopy(e.recv)
                if v is T('self', 'Amender'):
                    continue
                r.ok(all(z in hs for g, z in cases(v)), e, m, "%s is called on %s, which is not the new head bag" % (e.name, show(v)[:100]))
            if e.kind in ('store', 'mutate') and e.recv is not None and _meta(e.recv):
                base = e.recv
                while base.op == 'index' or call_of(base, '.get', '.setdefault'):
                    base = base.args[1] if base.op == 'call' else base.args[0]
                r.ok(base.args[0] in hs, e, m, "the metadata of %s is changed" % show(base.args[0])[:80])
        r.ok(True, an.entry, m, '')


BAG_CHANGERS = frozenset("""add_file_lookup add_member_bag remove_file_lookup remove_member_bag set_deleted unset_deleted set_member_bags
update_for_member update_oxum update_bag_size""".split())


def strlike(t):
    t = uncopy(t)
    return t.op in ('cat', 'fmt', 'const')


@rule('C07', 'head-bag-confined',
      "saving and updating a head bag writes its own bag files, and the four tag files in its own tag directory", floor=10)
def head_confined(c, r):
    SELF = T('self', 'HeadBag')
    roots = [T('attr', SELF, '_bagdir'), T('attr', SELF, 'path')]
    td = T('attr', SELF, 'multibag_tag_dir')
    for m in ('save_member_bags', 'save_file_lookup', 'save_deleted', 'ensure_tagdir', 'clear_file_lookup', 'update_info'):
        an = c.an('HeadBag.' + m)
        for f in fx(an):
            t = f.target
            if f.kind == 'save':
                r.ok(t.args[0] is SELF, f.event, m, "another bag is saved: %s" % show(t)[:80])
                continue
            ok = any(t in [mk_path([d, td] + x) for d in roots for x in ([], [const('member-bags.tsv')], [const('file-lookup.tsv')], [const('deleted.txt')])] for d in [0])
            r.ok(ok, f.event, m, "%s of %s" % (f.kind, show(t)[:120]))
        r.ok(True, an.entry, m, '')


@rule('C07', 'convert-confined', "converting a bag changes only that bag, through its own operations", floor=4)
def convert_confined(c, r):
    SELF = T('self', 'SingleMultibagMaker')
    bag = set()
    init = c.an('SingleMultibagMaker.__init__')
    for k, v in init.final_heap.items():
        if k[0] == 'attr' and k[1] is SELF and (has_call(v, 'as_headbag', 'open_headbag') or v.op in ('inst', 'new') or contains(v, T('param', 'bag'))
                                                or has(v, lambda s: s.op in ('inst', 'new') and s.args[0] == 'HeadBag')):
            bag |= {T('attr', SELF, k[2]), v}
    for m in ('__init__', 'convert', 'update_info', 'write_member_bags', 'write_file_lookup'):
        an = c.an('SingleMultibagMaker.' + m)
        for f in fx(an):
            if f.kind == 'save':
                r.ok(f.target.args[0] in bag, f.event, m, "another bag is saved: %s" % show(f.target)[:80])
            else:
                r.ok(any(under(f.target, T('attr', b, a)) for b in bag for a in ('path', '_bagdir')), f.event, m, "%s of %s" % (f.kind, show(f.target)[:120]))
        for e in an.events:
            if e.kind == 'call' and e.recv is not None and e.name in (WRITERS - {'split'}) | BAG_CHANGERS and uncopy(e.recv) is not SELF and not strlike(e.recv):
                r.ok(all(z in bag for g, z in cases(uncopy(e.recv))), e, m, "%s is called on %s, which is not the bag being converted" % (e.name, show(e.recv)[:100]))
        r.ok(True, an.entry, m, '')
