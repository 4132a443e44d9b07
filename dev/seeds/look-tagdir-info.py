PROPERTY = 'C08'
NEEDS = 'reading the members of a head bag that does not name its tag directory, then saving its metadata'
BREAKS = 'looking at the bag adds an item to its metadata'
EDITS = [('access/multibag.py', """        out = self.info.get('Multibag-Tag-Directory', defval)
""", """        out = self.info.setdefault('Multibag-Tag-Directory', defval)
"""),
         ]
DEMO = r'''
from multibag.access.multibag import HeadBag
h = mkhead('h', {'a.txt': 'a'}, ['h'], ['data/a.txt\th'])
hb = HeadBag(h)
del hb.info['Multibag-Tag-Directory']
hb.save()
hb = HeadBag(h)
before = dict(hb.info)
need(hb.member_bag_names == ['h'] and hb.lookup_file('data/a.txt') == 'h', "reading")
need(dict(hb.info) == before, "metadata changed: %r" % (set(hb.info) - set(before)))
'''
