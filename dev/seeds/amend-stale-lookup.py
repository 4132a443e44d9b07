PROPERTY = 'C21'
NEEDS = 'a new head bag that already holds a file lookup, amending a head bag'
BREAKS = "entries of the new head bag's earlier lookup stay in the amended aggregation's lookup"
EDITS = [('amend.py', """        # clear out any previous existing copy of the file
        self._newhead.clear_file_lookup()

        if self._oldhead.is_head_multibag():
""", """        if self._oldhead.is_head_multibag():
"""),
         ('amend.py', """            # just add the files under 'data'
            self._newhead""", """            # just add the files under 'data'
            self._newhead.clear_file_lookup()
            self._newhead"""),
         ]
DEMO = r'''
from multibag.amend import amend_bag_with
old = mkhead('old', {'a.txt': 'a'}, ['old'], ['data/a.txt\told'])
new = mkhead('new', {'b.txt': 'b'}, ['new'], ['data/gone.txt\tother', 'data/b.txt\tnew'])
amend_bag_with(old, new, '2')
lu = sorted(get(os.path.join(new, 'multibag/file-lookup.tsv')).splitlines())
need(lu == ['data/a.txt\told', 'data/b.txt\tnew'], "lookup: %r" % lu)
'''
