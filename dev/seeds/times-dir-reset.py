PROPERTY = 'C34'
NEEDS = 'a member that adds a directory to an existing one before it adds any file'
BREAKS = 'the existing directory gets the time of the restoration as its modification time'
EDITS = [('restore.py', """            if rmtime:
                os.utime(os.path.join(self._destdir, root), (time.time(), rmtime))
""", """            if updated:
                os.utime(os.path.join(self._destdir, root), (time.time(), rmtime))
""")]
DEMO = r'''
from multibag.restore import BagRestorer
m = mkbag('m', {'a.txt': 'a', 'sub/x.txt': 'x'})
h = mkhead('h', {'a.txt': 'a'}, ['m', 'h'], ['data/a.txt\th', 'data/sub/x.txt\tm'])
os.utime(os.path.join(h, 'data'), (1500000000, 1500000000))
os.utime(os.path.join(m, 'data'), (1400000000, 1400000000))
r = BagRestorer(h, path('out'), TOP)
r.restore()
need(os.path.isfile(path('out', 'data/sub/x.txt')), "file restored")
need(int(os.stat(path('out', 'data')).st_mtime) == 1500000000, "time of data: %s" % os.stat(path('out', 'data')).st_mtime)
'''
