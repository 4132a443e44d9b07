PROPERTY = 'C31'
NEEDS = 'a comparison of versions with different numbers of fields'
BREAKS = "1.2.1 is taken as no later than 1.2, while it is not earlier either"
EDITS = [('constants.py', """        return self < other or self == other
""", """        return list(self.fields)[:len(other.fields)] <= list(other.fields)
""")]
DEMO = r'''
from multibag.constants import Version
for a in ('0.4', '0.4.1', '0.10', '0.9', '1.2.3', '1.2'):
    for b in ('0.4', '0.4.1', '0.10', '0.9', '1.2.3', '1.2'):
        x, y = [int(f) for f in a.split('.')], [int(f) for f in b.split('.')]
        v, w = Version(a), Version(b)
        need((v <= w) == (x <= y), "%s <= %s" % (a, b))
        need((v > w) == (x > y), "%s > %s" % (a, b))
        need((v < w) == (x < y), "%s < %s" % (a, b))
        need((v >= w) == (x >= y), "%s >= %s" % (a, b))
'''
