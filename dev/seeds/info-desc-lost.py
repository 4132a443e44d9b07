PROPERTY = 'C20'
NEEDS = 'a bag with a single sender description that is already about the profile, updated for a second time... or one description given as a string'
BREAKS = "an existing description is replaced when the profile's statement is added"
EDITS = [('access/multibag.py', """                self.info['Internal-Sender-Description'] = \\
                                [ self.info['Internal-Sender-Description'] ]
            if not any""", """                self.info['Internal-Sender-Description'] = \\
                                self.info['Internal-Sender-Description'].splitlines()[:1]
            if not any"""),
         ]
DEMO = r'''
from multibag.access.multibag import HeadBag
h = mkhead('h', {'a.txt': 'a'}, ['h'], ['data/a.txt\th'])
b = HeadBag(h)
b.info['Internal-Sender-Description'] = 'first line\nsecond line'
b.update_info('2')
b = HeadBag(h)
d = b.info['Internal-Sender-Description']
need('second line' in ' '.join(d), "descriptions: %r" % d)
'''
