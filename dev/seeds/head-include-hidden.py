PROPERTY = 'C19'
NEEDS = 'a bag with hidden files in an included directory'
BREAKS = 'hidden files below an included directory are not registered'
EDITS = [('access/multibag.py', """                        if f in exclude:
                            continue
                        self.add_file_lookup(f, member_name)
""", """                        if f in exclude or f.rsplit('/', 1)[-1][:1] == '.':
                            continue
                        self.add_file_lookup(f, member_name)
"""),
         ]
DEMO = r'''
from multibag.access.multibag import HeadBag
from multibag.access.bagit import open_bag
h = mkhead('h', {'a.txt': 'a'}, ['h'], ['data/a.txt\th'])
m = mkbag('m', {'b.txt': 'b', '.htaccess': 'c'})
hb = HeadBag(h)
hb.update_for_member(open_bag(m))
need(hb.lookup_file('data/b.txt') == 'm', "b.txt is not registered")
need(hb.lookup_file('data/.htaccess') == 'm', ".htaccess is not registered")
'''
