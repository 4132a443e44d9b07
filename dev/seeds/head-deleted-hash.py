PROPERTY = 'C16'
NEEDS = "a deleted path whose name starts with '#'"
BREAKS = "lines starting with '#' in the deletion list are taken for comments, so the path is not reported as deleted"
EDITS = [('access/multibag.py', """        with self.open_text_file(delfile) as fd:
            for line in fd:
                if line.strip():
""", """        with self.open_text_file(delfile) as fd:
            for line in fd:
                if line.strip() and not line.startswith('#'):
"""),
         ]
DEMO = r'''
from multibag.access.multibag import open_headbag
h = mkhead('h', {'a.txt': 'a'}, ['h'], ['data/a.txt\th'], ['data/b.txt', '#notes#.txt', 'data/c.txt'])
d = open_headbag(h).deleted_paths()
need(sorted(d) == ['#notes#.txt', 'data/b.txt', 'data/c.txt'], "deleted paths reported: %r" % sorted(d))
'''
