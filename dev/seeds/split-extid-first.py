PROPERTY = 'C12'
NEEDS = 'a source with two external identifiers'
BREAKS = 'only the first is carried over under the source-prefixed name'
EDITS = [('split.py', """                        _write_item(fd, 'Multibag-Source-'+name, vals)
""", """                        _write_item(fd, 'Multibag-Source-'+name, vals[0])
"""),
         ]
DEMO = r'''
from multibag.split import WellPackedSplitter
from multibag.access.bagit import Bag
b = mkbag('b', {'a.txt': 'a'}, info={'External-Identifier': ['ark:1', 'doi:2']})
os.mkdir(path('out'))
for d in WellPackedSplitter(60000).split(b, path('out')):
    need(Bag(d).info.get('Multibag-Source-External-Identifier') == ['ark:1', 'doi:2'], "%r" % Bag(d).info)
'''
