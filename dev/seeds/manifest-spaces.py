PROPERTY = 'C25'
NEEDS = 'a file with a blank in its name'
BREAKS = "manifest lines with blanks in the path are skipped as invalid, so the file's hashes are not recorded"
EDITS = [('access/bagit.py', """                    entry = line.split(None, 1)
""", """                    entry = line.split()
"""),
         ]
DEMO = r'''
from multibag.access.bagit import open_bag
b = mkbag('b', {'a.txt': 'a', 'my file.txt': 'b'})
e = open_bag(b).entries
need('data/a.txt' in e, "a.txt")
need('data/my file.txt' in e, "entries: %r" % list(e))
'''
