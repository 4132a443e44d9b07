PROPERTY = 'C06'
NEEDS = "a head bag that deprecates more than one earlier head (a repeated metadata item)"
BREAKS = "the multibag item with several values stays in the restored bag's metadata"
EDITS = [('restore.py', """            for key in mbkeys:
                del restoredbag.info[key]
""", """            for key in mbkeys:
                if not isinstance(restoredbag.info[key], list):
                    del restoredbag.info[key]
""")]
DEMO = r'''
mkbag('m1', {'a.txt': 'a'})
h = mkhead('m2', {'c.txt': 'c'}, ['m1', 'm2'], ['data/a.txt\tm1', 'data/c.txt\tm2'],
           info={'Multibag-Head-Deprecates': ['1,m0', '2,m1']})
from multibag.restore import restore_bag
restore_bag(h, path('out'))
need('Multibag-' not in get(path('out/bag-info.txt')), "multibag metadata left in the restored bag")
'''
