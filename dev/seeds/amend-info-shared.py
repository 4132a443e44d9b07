PROPERTY = 'C21'
NEEDS = 'an old head whose members carry extra information fields'
BREAKS = "the members' information fields beyond the first are lost"
EDITS = [('amend.py', """                self._newhead.add_member_bag(mi.name, mi.uri, mi.comment,
                                             mi.info)
""", """                self._newhead.add_member_bag(mi.name, mi.uri, mi.comment,
                                             mi.info[:1])
"""),
         ]
DEMO = r'''
from multibag.amend import amend_bag_with
from multibag.access.multibag import open_headbag
h = mkhead('h', {'a.txt': 'a'}, ['h\thttp://x.y/h\tone\ttwo'], ['data/a.txt\th'])
n = mkbag('n', {'b.txt': 'b'})
amend_bag_with(h, n, '2')
m = open_headbag(n).member_bags()[0]
need(m.info == ['one', 'two'], "info: %r" % m.info)
'''
