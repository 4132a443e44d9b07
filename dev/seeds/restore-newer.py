PROPERTY = 'C01'
NEEDS = 'an earlier member whose copy of a file has a later modification time'
BREAKS = 'the newer copy of an earlier-listed member replaces the one of the member listed last'
EDITS = [('restore.py', """                if not os.path.exists(destf):
                    srcpath = os.path.join(root, f)
                    srcbag.replicate(srcpath, self._destdir)
""", """                srcpath = os.path.join(root, f)
                if not os.path.exists(destf) or self._newer(srcbag, srcpath, destf):
                    srcbag.replicate(srcpath, self._destdir)
"""),
         ('restore.py', """    def _update_manifests(self, srcbag, updated):
""", """    def _newer(self, srcbag, path, destf):
        times = srcbag.timesfor(path)
        return bool(times) and path.startswith("data/") and times.mtime > os.stat(destf).st_mtime + 1.0

    def _update_manifests(self, srcbag, updated):
"""),
         ]
DEMO = r'''
from multibag.restore import restore_bag
m = mkbag('m1', {'a.txt': 'old'})
h = mkhead('h', {'a.txt': 'new'}, ['m1', 'h'], ['data/a.txt\th'])
os.utime(os.path.join(m, 'data/a.txt'), (2000000000, 2000000000))
os.utime(os.path.join(h, 'data/a.txt'), (1000000000, 1000000000))
restore_bag(h, path('out'))
need(get(path('out', 'data', 'a.txt')) == 'new', "restored %r" % get(path('out', 'data', 'a.txt')))
'''
