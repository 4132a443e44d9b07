PROPERTY = 'C02'
NEEDS = "a deleted directory whose content lies more than one level deep in an earlier member bag"
BREAKS = "only the deleted directory and its direct subdirectories are skipped; deeper files come back"
EDITS = [('restore.py', """            if root in skip or len([f for f in skip if root.startswith(f+'/')]) > 0:""",
          """            if root in skip or os.path.dirname(root) in skip:""")]
DEMO = r'''
mkbag('m1', {'gone/a.txt': 'a', 'gone/sub/deep/b.txt': 'b', 'keep.txt': 'k'})
h = mkhead('m2', {'new.txt': 'n'}, ['m1', 'm2'], ['data/keep.txt\tm1', 'data/new.txt\tm2'], ['data/gone'])
for d in ('data/gone', 'data/gone/sub'):
    os.makedirs(path('out', d))
from multibag.restore import restore_bag
restore_bag(h, path('out'))
need(os.path.isfile(path('out/data/keep.txt')), "keep.txt not restored")
need(not os.path.exists(path('out/data/gone/sub/deep/b.txt')), "file below a deleted directory restored")
'''
