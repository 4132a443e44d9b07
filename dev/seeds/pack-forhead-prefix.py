PROPERTY = 'C13'
NEEDS = "a file reserved for the head bag whose path is the beginning of other files' paths"
BREAKS = 'files that are not reserved are left to the head bag, whatever their size'
EDITS = [('split.py', """                                       and p not in self.forhead]
""", """                                       and not p.startswith(tuple(self.forhead))]
"""),
         ]
DEMO = r'''
from multibag.split import WellPackedSplitter
b = mkbag('b', dict(('run%d.dat' % i, 'x' * 900) for i in range(5)), {'run': 'r'})
put(os.path.join(b, 'data/run'), 'r')
p = WellPackedSplitter(1000, forhead=['data/run']).plan(b)
for m in p.manifests():
    big = [f for f in m['contents'] if f.endswith('.dat')]
    need(len(big) <= 1, "bag with %d bytes in %r" % (900 * len(big), big))
'''
