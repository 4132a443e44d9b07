PROPERTY = 'C16'
NEEDS = 'a head bag whose bag-info.txt gives the tag directory twice'
BREAKS = 'the first value is used instead of the last'
EDITS = [('access/multibag.py', """            if len(out) == 0:
                out = defval
            else:
                out = out[-1]
""", """            if len(out) == 0:
                out = defval
            else:
                out = out[0]
"""),
         ]
DEMO = r'''
from multibag.access.multibag import open_headbag
h = mkhead('h', {'a.txt': 'a'}, ['h'], ['data/a.txt\th'], tagdir='mb', info={'Multibag-Tag-Directory': ['multibag', 'mb']})
b = open_headbag(h)
need(b.multibag_tag_dir == 'mb', "tag directory %r" % b.multibag_tag_dir)
need(b.member_bag_names == ['h'], "members")
'''
