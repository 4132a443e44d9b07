PROPERTY = 'C09'
NEEDS = 'a plan that lists a directory, not all of whose files are listed'
BREAKS = 'files below a listed directory count as planned, so completing the plan leaves them out'
EDITS = [('split.py', """        return path in manifest['contents']
""", """        return any(path == p or path.startswith(p+'/') for p in manifest['contents'])
"""),
         ]
DEMO = r'''
from multibag.split import SplitPlan
from multibag.access.bagit import Bag
b = mkbag('b', {'d/a.txt': 'a', 'b.txt': 'b'})
p = SplitPlan(Bag(b))
p._manifests = [{'name': 'o1', 'contents': ['data/d', 'data/b.txt']}]
p.complete_plan()
have = set(f for m in p.manifests() for f in m['contents'])
need('data/d/a.txt' in have, "data/d/a.txt is in no bag of the completed plan")
'''
