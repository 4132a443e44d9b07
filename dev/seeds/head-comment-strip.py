PROPERTY = 'C15'
NEEDS = 'a member comment that ends in \'#\' (say "written in C#")'
BREAKS = "reading the member line back drops the trailing '#' of the comment, so the description is not equal to the one written"
EDITS = [('access/multibag.py', """                comm = fields.pop(-1).lstrip('#').strip()
""", """                comm = fields.pop(-1).strip('# \\t')
"""),
         ]
DEMO = r'''
from multibag.access.multibag import MemberInfo
m = MemberInfo('b1', 'http://x.y/b1', 'written in C#', 'extra')
r = MemberInfo.parse_line_03(m.format())
need((r.name, r.uri, r.info) == ('b1', 'http://x.y/b1', ['extra']), "member line")
need(r.comment == 'written in C#', "comment read back as %r" % r.comment)
'''
