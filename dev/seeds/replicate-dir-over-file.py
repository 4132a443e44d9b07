PROPERTY = 'C24'
NEEDS = 'a file in the destination at the path of a directory to be replicated'
BREAKS = 'replicating a directory returns without error though there is a file in its place'
EDITS = [('access/extended.py', """            if not os.path.isdir(destpath):
""", """            if not os.path.exists(destpath):
"""),
         ]
DEMO = r'''
from multibag.access.bagit import Bag
from multibag.access.extended import as_extended
b = mkbag('b', {'d/a.txt': 'a'})
out = path('out'); put(os.path.join(out, 'data/d'), 'in the way')
try:
    as_extended(Bag(b)).replicate('data/d', out)
    ok = False
except Exception:
    ok = True
need(ok or os.path.isdir(os.path.join(out, 'data/d')), "no directory and no error")
'''
