PROPERTY = 'C05'
NEEDS = 'a member whose fetch file names a payload file that another member provides'
BREAKS = 'fetch lines of files that are present in the restored bag are left out'
EDITS = [('restore.py', """                for f in fetch:
""", """                for f in [p for p in fetch if not os.path.exists(os.path.join(self._destdir, p))]:
"""),
         ]
DEMO = r'''
from multibag.restore import restore_bag
m = mkbag('m1', {'a.txt': 'a'}, {'fetch.txt': 'http://x.y/a 1 data/a.txt\nhttp://x.y/z 1 data/z.txt\n'})
h = mkhead('h', {'b.txt': 'b'}, ['m1', 'h'], ['data/a.txt\tm1', 'data/b.txt\th'])
restore_bag(h, path('out'))
got = get(path('out', 'fetch.txt')) if os.path.exists(path('out', 'fetch.txt')) else ''
need(sorted(l.split()[2] for l in got.splitlines()) == ['data/a.txt', 'data/z.txt'], "fetch lines: %r" % got)
'''
