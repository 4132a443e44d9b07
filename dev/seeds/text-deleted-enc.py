PROPERTY = 'C33'
NEEDS = 'a non-ASCII path among the deletions and a platform whose preferred encoding is not UTF-8'
BREAKS = 'the list of deletions is written in the encoding of the platform: saving fails or the list is unreadable'
EDITS = [('access/multibag.py', """        with io.open(tagfile, 'w', encoding=DEF_ENC) as fd:
            for path in self._deleted:
""", """        with io.open(tagfile, 'w') as fd:
            for path in self._deleted:
""")]
DEMO = r'''
if os.environ.get('PYTHONUTF8') != '0':
    os.environ.update(PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', LC_ALL='C', LANG='C')
    import subprocess
    sys.exit(subprocess.call([sys.executable] + sys.argv))
from multibag.access.multibag import open_headbag
d = mkhead('h', {'a.txt': 'a'}, ['h'], ['data/a.txt\th'])
try:
    h = open_headbag(d)
    h.set_deleted(u'data/caf\u00e9.txt')
    h.save_deleted()
except UnicodeError as ex:
    need(False, "not saved: %s" % ex)
with io.open(os.path.join(d, 'multibag/deleted.txt'), 'rb') as fd:
    need(fd.read().decode('utf-8') == u'data/caf\u00e9.txt\n', "other text saved")
'''
