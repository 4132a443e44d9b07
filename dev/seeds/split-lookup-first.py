PROPERTY = 'C11'
NEEDS = "a plan that puts the same file into two bags, or a source bag that is itself a head bag"
BREAKS = "the lookup keeps naming the first holder of the file instead of the last"
EDITS = [('split.py', """                    filedest[file] = bagname
""", """                    filedest.setdefault(file, bagname)
""")]
DEMO = r'''
m = mkbag('src', {'a.txt': 'a', 'b.txt': 'b'})
from multibag.split import SplitPlan
from multibag.access.bagit import Bag
p = SplitPlan(Bag(m))
p._manifests = [{'name': 'o1', 'contents': ['data/a.txt', 'data/b.txt']}, {'name': 'o2', 'contents': ['data/a.txt']}]
out = path('out'); os.mkdir(out)
dirs = list(p.apply_iter(out))
lu = get(os.path.join(dirs[-1], 'multibag/file-lookup.tsv')).splitlines()
need('data/b.txt\to1' in lu, "b.txt not in the lookup")
need('data/a.txt\to2' in lu, "lookup does not name the last holder: %r" % lu)
'''
