PROPERTY = 'C27'
NEEDS = 'an archive in which the bag lies below another directory'
BREAKS = 'only top-level directories of an archive are looked at, so the bag is refused'
EDITS = [('access/bagit.py', """                for d in bfs.walk.dirs():
""", """                for d in bfs.walk.dirs(max_depth=1):
"""),
         ]
DEMO = r'''
from multibag.access.bagit import open_bag
os.mkdir(path('top'))
mkbag('b', {'a.txt': 'a'}, where=path('top'))
z = shutil.make_archive(path('arch'), 'zip', path(), 'top')
try:
    bag = open_bag(z)
except Exception as ex:
    need(False, "refused: %s" % ex)
need(bag._name == 'b' and bag.isfile('data/a.txt'), "not the bag in the archive")
'''
