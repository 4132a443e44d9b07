PROPERTY = 'C11'
NEEDS = 'a file of the source that no manifest lists'
BREAKS = 'the file is missing from the lookup of the head bag'
EDITS = [('split.py', """                                              file, mantype)
                        
                    filedest[file] = bagname
""", """                                              file, mantype)
                        filedest[file] = bagname
"""),
         ]
DEMO = r'''
from multibag.split import WellPackedSplitter
from multibag.access.multibag import open_headbag
b = mkbag('b', {'a.txt': 'a'})
put(os.path.join(b, 'notes/n.txt'), 'n')
os.mkdir(path('out'))
h = WellPackedSplitter(60000).split(b, path('out'))[-1]
need(open_headbag(h).lookup_file('notes/n.txt') == os.path.basename(h), "file not in the lookup")
'''
