PROPERTY = 'C17'
NEEDS = 'a member list that names the same bag twice, from which that bag is removed'
BREAKS = 'only the first entry of that name is removed'
EDITS = [('access/multibag.py', """            idxs = [i for i in range(len(self._memberbags))
                      if self._memberbags[i].name == bagname]
            for i in reversed(idxs):
                del self._memberbags[i]
""", """            names = self.member_bag_names
            if bagname in names:
                del self._memberbags[names.index(bagname)]
"""),
         ]
DEMO = r'''
from multibag.access.multibag import HeadBag
h = mkhead('h', {'a.txt': 'a'}, ['b1', 'b2', 'b1\thttp://x.y/b1', 'h'], ['data/a.txt\th'])
hb = HeadBag(h)
hb.remove_member_bag('b1')
need(hb.member_bag_names == ['b2', 'h'], "members left: %r" % hb.member_bag_names)
'''
