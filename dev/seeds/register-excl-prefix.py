PROPERTY = 'C19'
NEEDS = 'an excluded directory next to one whose name begins the same, in a read-only bag or below pruned directories'
BREAKS = 'files of a directory whose name merely begins like an excluded one are left out'
EDITS = [('access/multibag.py', """                        if f in exclude:
                            continue
                        self.add_file_lookup(f, member_name)
""", """                        if any(f == e or f.startswith(e) for e in exclude if '/' in e):
                            continue
                        self.add_file_lookup(f, member_name)
"""),
         ]
DEMO = r'''
from multibag.access.multibag import HeadBag
h = mkhead('h', {'old/a.txt': 'a', 'old2/b.txt': 'b', 'c.txt': 'c'}, ['h'], [])
b = HeadBag(h)
b.update_for_member(b, exclude=['data/old'], make_member=False)
need(b.lookup_file('data/old2/b.txt') == 'h', "data/old2/b.txt not registered")
need(b.lookup_file('data/old/a.txt') is None, "data/old/a.txt registered")
'''
