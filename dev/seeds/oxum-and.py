PROPERTY = 'C26'
NEEDS = 'a payload whose number of files matches Payload-Oxum but whose size does not, in a file the manifests do not decide (fast validation)'
BREAKS = 'a wrong number of bytes alone no longer fails the validation'
EDITS = [('access/bagit.py', """        if oxum_file_count != total_files or oxum_byte_count != total_bytes:
""", """        if oxum_file_count != total_files and oxum_byte_count != total_bytes:
"""),
         ]
DEMO = r'''
from multibag.access.bagit import open_bag, BagValidationError
b = mkbag('b', {'a.txt': 'a', 'b.txt': 'b'})
open_bag(b).validate(fast=True)
put(os.path.join(b, 'data/a.txt'), 'aaaaaaaa')
try:
    open_bag(b).validate(fast=True)
    need(False, "wrong payload size is not found")
except BagValidationError:
    pass
'''
