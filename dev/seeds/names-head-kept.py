PROPERTY = 'C14'
NEEDS = 'names given when a plan is applied, that suffice for all of its bags'
BREAKS = 'the head bag keeps the name of the plan'
EDITS = [('split.py', """            if naming_iter:
                try:
""", """            if naming_iter and not m.get('ishead'):
                try:
"""),
         ]
DEMO = r'''
from multibag.split import WellPackedSplitter
b = mkbag('b', {'a.txt': 'a' * 50, 'b.txt': 'b' * 50})
p = WellPackedSplitter(60).plan(b)
os.mkdir(path('out'))
n = len(list(p.manifests()))
names = ['n%d' % i for i in range(n)]
got = [os.path.basename(d) for d in p.apply_iter(path('out'), iter(names))]
need(got == names, "names: %r" % got)
'''
