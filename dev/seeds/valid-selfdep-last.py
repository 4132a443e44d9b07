PROPERTY = 'C29'
NEEDS = 'several deprecated versions, of which one that is not the last names the bag itself'
BREAKS = 'only the last deprecation is tested for naming the bag itself'
EDITS = [('validate/headbag.py', """            selfdeprecating = selfdeprecating or parts[0] == headver or \\
""", """            selfdeprecating = parts[0] == headver or \\
"""),
         ]
DEMO = r'''
from multibag.validate.headbag import HeadBagValidator, ALL
h = mkhead('h', {'a.txt': 'a'}, ['h'], ['data/a.txt\th'], info={'Multibag-Head-Version': '3', 'Multibag-Head-Deprecates': ['3', '1']})
r = HeadBagValidator(h).validate_head_deprecates(ALL)
need([i.label for i in r.failed()] == ['3-Head-Deprecates_notselfdep'], "failed: %r" % [i.label for i in r.failed()])
'''
