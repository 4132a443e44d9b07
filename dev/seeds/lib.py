"""helpers for the demonstrations: everything is made below one scratch directory that is removed at exit"""
import os, sys, shutil, tempfile, atexit, logging, warnings, io
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
sys.path.insert(0, os.getcwd())
TOP = tempfile.mkdtemp(prefix='mbdemo')
atexit.register(shutil.rmtree, TOP, True)


def path(*p):
    return os.path.join(TOP, *p)


def put(fp, text):
    if not os.path.isdir(os.path.dirname(fp)):
        os.makedirs(os.path.dirname(fp))
    with io.open(fp, 'w', encoding='utf-8') as fd:
        fd.write(text)


def get(fp):
    with io.open(fp, encoding='utf-8') as fd:
        return fd.read()


def mkbag(name, payload, tags=None, info=None, algs=('sha256',), where=None):
    """a plain bag with the given payload {path below data: text} and tag files {path: text}"""
    from multibag.access import bagit
    d = os.path.join(where or TOP, name)
    os.makedirs(d)
    for p in payload:
        put(os.path.join(d, p), payload[p])
    b = bagit.make_bag(d, dict(info or {}), checksums=list(algs))
    for p in (tags or {}):
        put(os.path.join(d, p), tags[p])
    b.save(manifests=True)
    return d


def mkhead(name, payload, members, lookup, deleted=None, tags=None, info=None, algs=('sha256',), tagdir='multibag', where=None):
    """a head bag; members: list of member-bags lines, lookup: list of file-lookup lines"""
    t = dict(tags or {})
    t[tagdir + '/member-bags.tsv'] = ''.join(m + '\n' for m in members)
    t[tagdir + '/file-lookup.tsv'] = ''.join(m + '\n' for m in lookup)
    if deleted is not None:
        t[tagdir + '/deleted.txt'] = ''.join(m + '\n' for m in deleted)
    i = {'Multibag-Version': '0.4', 'Multibag-Tag-Directory': tagdir, 'Multibag-Head-Version': '1'}
    i.update(info or {})
    return mkbag(name, payload, t, i, algs, where)


def need(cond, msg):
    if not cond:
        sys.stderr.write("DEMO: property broken: %s\n" % msg)
        sys.exit(3)
