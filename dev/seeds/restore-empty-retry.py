PROPERTY = 'C01'
NEEDS = "an empty file in a later bag that supersedes a non-empty file of the same path in an earlier bag"
BREAKS = "the earlier, superseded content replaces the (empty) current version"
EDITS = [('restore.py', """                if not os.path.exists(destf):
                    srcpath = os.path.join(root, f)
                    srcbag.replicate""", """                if not os.path.exists(destf) or os.path.getsize(destf) == 0:
                    srcpath = os.path.join(root, f)
                    srcbag.replicate""")]
DEMO = r'''
mkbag('m1', {'a.txt': 'old content', 'b.txt': 'b'})
h = mkhead('m2', {'a.txt': '', 'c.txt': 'c'}, ['m1', 'm2'], ['data/a.txt\tm2', 'data/b.txt\tm1', 'data/c.txt\tm2'])
from multibag.restore import restore_bag
restore_bag(h, path('out'))
need(get(path('out/data/b.txt')) == 'b', "b.txt not restored")
need(get(path('out/data/a.txt')) == '', "the superseded copy won")
'''
