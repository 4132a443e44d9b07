PROPERTY = 'C23'
NEEDS = 'a serialized bag (or one opened read-only) with a hidden directory'
BREAKS = 'the walk of a read-only bag leaves out hidden directories and all below them'
EDITS = [('access/extended.py', """        witer = root.fs.walk.walk()
""", """        witer = root.fs.walk.walk(exclude_dirs=['.*'])
"""),
         ]
DEMO = r'''
from multibag.access.bagit import Bag, open_bag
from multibag.access.extended import as_extended
b = mkbag('b', {'a.txt': 'a', '.cfg/x.txt': 'x'})
def files(bag):
    return sorted(os.path.join(d, f) for d, s, fs in as_extended(bag).walk() for f in fs)
need('data/.cfg/x.txt' in files(Bag(b)), "directory walk")
need(files(Bag(b)) == files(open_bag(b)), "walks differ: %r" % files(open_bag(b)))
'''
