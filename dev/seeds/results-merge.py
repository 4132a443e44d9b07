PROPERTY = 'C28'
NEEDS = 'two tests with the same label that both failed (say one for each of two lines)'
BREAKS = 'the second failure with a label is not recorded'
EDITS = [('validate/base.py', """        self.results[type].append(issue)
""", """        if not any(i.summary == issue.summary and i.failed() and issue.failed() for i in self.results[type]):
            self.results[type].append(issue)
"""),
         ]
DEMO = r'''
from multibag.validate.base import ValidationResults
r = ValidationResults('t')
r._err(r._issue('l', 'm'), False, 'line 1')
r._err(r._issue('l', 'm'), False, 'line 2')
need([i.comments for i in r.failed()] == [('line 1',), ('line 2',)], "%r" % [i.comments for i in r.failed()])
'''
