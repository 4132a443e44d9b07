PROPERTY = 'C04'
NEEDS = "a tag file whose name begins with 'data', such as datacite.xml"
BREAKS = 'it is recorded in the payload manifest of the restored bag'
EDITS = [('restore.py', """            files = [f for f in updated_by_alg[alg].keys() if f.startswith("data/")]
""", """            files = [f for f in updated_by_alg[alg].keys() if f.startswith("data")]
"""),
         ('restore.py', """            files = [f for f in updated_by_alg[alg].keys() if not f.startswith("data/")]
""", """            files = [f for f in updated_by_alg[alg].keys() if not f.startswith("data")]
"""),
         ]
DEMO = r'''
from multibag.restore import restore_bag
m = mkbag('m1', {'a.txt': 'a'}, {'datacite.xml': '<a/>'})
h = mkhead('h', {'b.txt': 'b'}, ['m1', 'h'], ['data/a.txt\tm1', 'data/b.txt\th'])
restore_bag(h, path('out'))
need('datacite.xml' not in get(path('out', 'manifest-sha256.txt')), "tag file in the payload manifest")
need('datacite.xml' in get(path('out', 'tagmanifest-sha256.txt')), "tag file not in the tag manifest")
'''
