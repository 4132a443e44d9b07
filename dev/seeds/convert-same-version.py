PROPERTY = 'C22'
NEEDS = 'a bag that is converted again under the version it has, after a change'
BREAKS = 'the size is not brought up to date'
EDITS = [('amend.py', """        # This (re-)calculates Bag-Size due to the new multibag tag files
        self.update_info(version)
""", """        # This (re-)calculates Bag-Size due to the new multibag tag files
        if self.bag.info.get('Multibag-Head-Version') != version:
            self.update_info(version)
"""),
         ]
DEMO = r'''
from multibag.amend import make_single_multibag
from multibag.access.multibag import HeadBag
b = mkbag('b', {'a.txt': 'a' * 100})
make_single_multibag(b, '2')
s1 = HeadBag(b).info['Bag-Size']
put(os.path.join(b, 'data/more.txt'), 'x' * 50000)
make_single_multibag(b, '2')
s2 = HeadBag(b).info['Bag-Size']
need(s1 != s2, "Bag-Size still %s" % s2)
'''
