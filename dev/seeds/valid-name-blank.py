PROPERTY = 'C30'
NEEDS = 'a bag whose name ends in white space other than a blank or TAB, such as a no-break space or a newline'
BREAKS = 'the name is not reported'
EDITS = [('validate/member.py', """        out._err(t, not re.search(r'^\\s+', name) and not re.search(r'\\s+$', name))
""", """        out._err(t, name.strip(' \\t') == name)
"""),
         ]
DEMO = r'''
from multibag.validate.member import MemberBagValidator, ALL
b = mkbag('b\u00a0', {'a.txt': 'a'}, info={'Multibag-Version': '0.4'})
r = MemberBagValidator(b).validate_bagname(ALL)
need([i.label for i in r.failed()] == ['2.1b-name-wsp'], "failed: %r" % [i.label for i in r.failed()])
'''
