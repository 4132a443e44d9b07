PROPERTY = 'C12'
NEEDS = "an excluded metadata name that is a prefix of another item's name"
BREAKS = "metadata items that merely begin with an excluded name are lost as well"
EDITS = [('split.py', """                    if name in info_nopass:
                        continue
""", """                    if name.startswith(tuple(info_nopass)):
                        continue
""")]
DEMO = r'''
m = mkbag('src', {'a.txt': 'a'}, info={'Contact-Name': 'x', 'Contact': 'y', 'Other': 'z'})
from multibag.split import SplitPlan
from multibag.access.bagit import Bag
p = SplitPlan(Bag(m))
p.complete_plan()
out = path('out'); os.mkdir(out)
d = list(p.apply_iter(out, iter(['o1']), info_nopass=['Contact']))[-1]
lines = get(os.path.join(d, 'bag-info.txt'))
need('Other: z' in lines and 'Contact: y' not in lines, "exclusion broken")
need('Contact-Name: x' in lines, "metadata item lost in the split")
'''
