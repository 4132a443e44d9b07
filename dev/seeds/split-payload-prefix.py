PROPERTY = 'C10'
NEEDS = "a tag directory whose name begins with the payload directory's name"
BREAKS = "checksums of such tag files land in the payload manifest of the output bag"
EDITS = [('split.py', """                    if file.startswith("data"+os.sep):
                        payload_count += 1""", """                    if file.startswith("data"):
                        payload_count += 1"""),
         ('split.py', """                    if file in hd:
                        hashes = hd[file]
""", """                    if file not in hd:
                        hd = self.progenitor.entries
                    if file in hd:
                        hashes = hd[file]
""")]
DEMO = r'''
m = mkbag('src', {'a.txt': 'a', 'b.txt': 'b'}, {'dataset/about.txt': 'x'})
from multibag.split import SimpleNamer, SplitPlan
from multibag.access.bagit import Bag
p = SplitPlan(Bag(m))
p.complete_plan()
out = path('out'); os.mkdir(out)
dirs = list(p.apply_iter(out, iter(['o1', 'o2'])))
man = get(os.path.join(dirs[-1], 'manifest-sha256.txt'))
tag = get(os.path.join(dirs[-1], 'tagmanifest-sha256.txt'))
need('data/a.txt' in man, "payload file not in the payload manifest")
need('dataset/about.txt' in tag and 'dataset/about.txt' not in man, "tag file recorded in the payload manifest")
'''
