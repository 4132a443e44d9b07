PROPERTY = 'C04'
NEEDS = "a head bag whose payload manifest names a file that is still to be fetched, plus a member with files to copy"
BREAKS = "manifest entries of files that are not (yet) on disk are dropped from the restored manifests"
EDITS = [('restore.py', """        for path in destbag.entries:
""", """        for path in [p for p in destbag.entries if os.path.exists(os.path.join(self._destdir, p))]:
""")]
DEMO = r'''
mkbag('m1', {'a.txt': 'a'})
h = mkhead('m2', {'new.txt': 'n', 'big.dat': 'b'}, ['m1', 'm2'], ['data/a.txt\tm1', 'data/new.txt\tm2', 'data/big.dat\tm2'])
os.remove(os.path.join(h, 'data/big.dat'))
put(os.path.join(h, 'fetch.txt'), u'http://example.org/big.dat 1 data/big.dat\n')
from multibag.restore import restore_bag
restore_bag(h, path('out'))
man = get(path('out/manifest-sha256.txt'))
for f in 'a.txt new.txt big.dat'.split():
    need('data/' + f in man, "manifest of the restored bag lacks %s: %r" % (f, man))
'''
