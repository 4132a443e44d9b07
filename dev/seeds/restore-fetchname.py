PROPERTY = 'C03'
NEEDS = "a payload or tag file below the bag's root that happens to be called fetch.txt"
BREAKS = "every file of that name is left out, not only the bag's own fetch file at the root"
EDITS = [('restore.py', """                if os.path.join(root, f) in skip:
                    continue
                destf = os.path.join(self._destdir, root, f)
                if overwrite""", """                if os.path.join(root, f) in skip or f == "fetch.txt":
                    # (the fetch file is merged separately)
                    continue
                destf = os.path.join(self._destdir, root, f)
                if overwrite""")]
DEMO = r'''
m = mkbag('m1', {'a.txt': 'a', 'd/fetch.txt': 'payload'})
h = mkhead('m2', {'c.txt': 'c'}, ['m1', 'm2'], ['data/a.txt\tm1', 'data/d/fetch.txt\tm1', 'data/c.txt\tm2'])
from multibag.restore import restore_bag
restore_bag(h, path('out'))
need(os.path.isfile(path('out/data/a.txt')), "a.txt not restored")
need(os.path.isfile(path('out/data/d/fetch.txt')), "payload file lost")
'''
