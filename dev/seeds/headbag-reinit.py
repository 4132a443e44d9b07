PROPERTY = 'C35'
NEEDS = 'a head bag with unsaved changes that is taken as a read-only head bag'
BREAKS = 'the bag forgets its unsaved member list, lookup and deletions'
EDITS = [('access/multibag.py', """    if not isinstance(bag, HeadBagReadMixin):
        if isinstance(bag, ExtendedReadOnlyBag):
""", """    if readonly or not isinstance(bag, HeadBagReadMixin):
        if isinstance(bag, ExtendedReadOnlyBag):
""")]
DEMO = r'''
from multibag.access.multibag import open_headbag, as_headbag
d = mkhead('h', {'a.txt': 'a'}, ['h'], ['data/a.txt\th'])
h = open_headbag(d)
h.add_file_lookup('data/b.txt', 'h')
h.add_member_bag('g')
x = as_headbag(h, readonly=True)
need(x is h, "another bag")
need(x.lookup_file('data/b.txt') == 'h', "lookup lost")
need('g' in list(x.member_bag_names), "member lost")
'''
