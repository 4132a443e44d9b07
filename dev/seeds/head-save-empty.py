PROPERTY = 'C18'
NEEDS = 'all members removed (or an empty list set) before saving'
BREAKS = 'an empty member list is not saved, so the old members come back when the bag is opened again'
EDITS = [('access/multibag.py', """        if self._memberbags is None:
            return

        self.ensure_tagdir()
""", """        if not self._memberbags:
            return

        self.ensure_tagdir()
"""),
         ]
DEMO = r'''
from multibag.access.multibag import HeadBag
h = mkhead('h', {'a.txt': 'a'}, ['b1', 'h'], ['data/a.txt\th'])
hb = HeadBag(h)
hb.remove_member_bag('b1'); hb.remove_member_bag('h')
hb.save_member_bags()
need(HeadBag(h).member_bag_names == [], "members after saving an empty list: %r" % HeadBag(h).member_bag_names)
'''
