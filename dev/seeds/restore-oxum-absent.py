PROPERTY = 'C06'
NEEDS = 'an aggregation whose metadata has no Payload-Oxum'
BREAKS = 'the restored bag has no current payload size'
EDITS = [('restore.py', """        if update_sizes:
            restoredbag.update_oxum()
""", """        if update_sizes:
            if 'Payload-Oxum' in restoredbag.info:
                restoredbag.update_oxum()
"""),
         ]
DEMO = r'''
from multibag.restore import restore_bag
from multibag.access.bagit import Bag
h = mkhead('h', {'b.txt': 'b'}, ['h'], ['data/b.txt\th'], tags={'multibag/aggregation-info.txt': 'Source-Organization: X\n'})
restore_bag(h, path('out'))
need(Bag(path('out')).info.get('Payload-Oxum') == '1.1', "Payload-Oxum: %r" % Bag(path('out')).info.get('Payload-Oxum'))
'''
