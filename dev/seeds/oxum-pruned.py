PROPERTY = 'C32'
NEEDS = 'a payload with an empty file'
BREAKS = 'the number of files in the Payload-Oxum leaves out files without content'
EDITS = [('access/extended.py', """                nf += 1
                sz += self.sizeof("/".join([root, f]))
""", """                fsz = self.sizeof("/".join([root, f]))
                if not fsz:
                    continue
                nf += 1
                sz += fsz
""")]
DEMO = r'''
from multibag.access.bagit import Bag
from multibag.access.extended import as_extended
b = as_extended(Bag(mkbag('b', {'a.txt': 'abc', 'sub/__init__.py': '', 'sub/.hid': 'xy'})))
need(tuple(b.calc_oxum()) == (5, 3), "oxum: %r" % (b.calc_oxum(),))
b.update_oxum()
need(b.info['Payload-Oxum'] == '5.3', b.info['Payload-Oxum'])
'''
