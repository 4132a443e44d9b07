PROPERTY = 'C23'
NEEDS = 'a time zone other than UTC, or modification times with fractions of a second'
BREAKS = "the times of a read-only bag's entries are off by the zone's offset and lack fractions"
EDITS = [('access/extended.py', """    return (dt - datetime(1970, 1, 1, tzinfo=dt.tzinfo)).total_seconds()
""", """    return float(time.mktime(dt.timetuple()))
"""),
         ('access/extended.py', """import os, sys, re, shutil, codecs, inspect
""", """import os, sys, re, shutil, codecs, inspect, time
"""),
         ]
DEMO = r'''
os.environ['TZ'] = 'Asia/Kolkata'
import time; time.tzset()
from multibag.access.bagit import Bag, open_bag
from multibag.access.extended import as_extended
b = mkbag('b', {'a.txt': 'a'})
os.utime(os.path.join(b, 'data/a.txt'), (1500000000.5, 1500000000.5))
x = as_extended(Bag(b)).timesfor('data/a.txt').mtime
y = as_extended(open_bag(b)).timesfor('data/a.txt').mtime
need(x == 1500000000.5, "time of a directory's file")
need(abs(x - y) < 0.01, "times differ: %r, %r" % (x, y))
'''
