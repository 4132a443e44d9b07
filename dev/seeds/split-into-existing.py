PROPERTY = 'C07'
NEEDS = 'an output directory that already holds a directory of the name of a bag to be written'
BREAKS = 'the split writes into the existing directory instead of refusing it'
EDITS = [('split.py', """            os.mkdir(bagdir)
            os.mkdir(os.path.join(bagdir,"data"))
""", """            if not os.path.isdir(os.path.join(bagdir,"data")):
                os.makedirs(os.path.join(bagdir,"data"))
"""),
         ]
DEMO = r'''
from multibag.split import WellPackedSplitter
b = mkbag('b', {'a.txt': 'a'})
out = path('out')
os.mkdir(out)
v = mkbag('b_1.mbag', {'precious.txt': 'p'}, where=out)
before = get(os.path.join(v, 'bag-info.txt'))
try:
    WellPackedSplitter(60000).split(b, out)
except Exception:
    pass
need(get(os.path.join(v, 'bag-info.txt')) == before and not os.path.exists(os.path.join(v, 'data/a.txt')), "an existing bag was overwritten")
'''
