PROPERTY = 'C13'
NEEDS = 'two files that together have exactly one byte more than the maximum size'
BREAKS = 'a bag can exceed the maximum size'
EDITS = [('split.py', """            newsz = manf['totalsize'] + finfos[i]['size']
            if newsz > self.maxsz:
""", """            newsz = manf['totalsize'] + finfos[i]['size']
            if newsz > self.maxsz + len(manf['contents']):
"""),
         ]
DEMO = r'''
from multibag.split import WellPackedSplitter
b = mkbag('b', {'a.txt': 'a' * 600, 'b.txt': 'b' * 401})
p = WellPackedSplitter(1000).plan(b)
for m in p.manifests():
    n = sum(os.path.getsize(os.path.join(b, f)) for f in m['contents'])
    need(n <= 1000 or len(m['contents']) == 1, "a bag with %d bytes" % n)
'''
