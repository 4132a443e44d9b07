#!/usr/bin/env python3
"""writes DESIGN.md: dev/design_head.md, the rules of each property (from the rules themselves), the planted bugs, dev/design_tail.md"""
import json, os, sys, glob, re, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import mbsa.rules
from mbsa.query import RULES
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
tech = dict((c['property'], c['technique']) for c in man['checks'])
titles = dict((p['id'], p['title']) for p in props)
METHOD = {}
exec(open(os.path.join(HERE, 'design_method.py')).read())
W = lambda s, ind='': '\n'.join(textwrap.wrap(' '.join(s.split()), 150, initial_indent=ind, subsequent_indent='  ' if ind else '', break_long_words=False, break_on_hyphens=False))
head = open(os.path.join(HERE, 'design_head.md')).read()
cases = sum(len(re.findall(r'(?m)^@@ ', open(f).read())) for f in glob.glob(os.path.join(HERE, 'cases_*.txt')))
head = head.replace('NCASES', str(cases))
head = head.replace('NALIST', '\n'.join(W('%s (%s): %s' % (x['property'], titles[x['property']], x['reason']), '* ') for x in man['not_applicable']))
out = [head]
for p in props:
    if p['id'] not in tech:
        continue
    out.append('\n### %s %s\n' % (p['id'], p['title']))
    out.append(W(METHOD.get(p['id'], '') + ' Method: ' + tech[p['id']] + '. Quantified over: ' + p['quantifier']['text'] + '. ' + p['why_tests_cant'] + ' The rules hold for every path and iteration of the summaries, so the property is decided for all of these.') + '\n')
    for r in RULES:
        if p['id'] == r[0] or isinstance(r[0], (list, tuple)) and p['id'] in r[0]:
            out.append(W('`%s` (at least %d obligations): %s' % (r[1], r[3], r[2]), '* '))
out.append('\n## 5. Planted bugs\n\nEach was written from a property and the code, confirmed in a scratch copy (builds, the stable tests pass, its demonstration fails only with it), and is caught by '
           'the check of its property; "also" are the other checks that report it.\n')
mx = {}
f = os.path.join(HERE, 'matrix.json')
if os.path.exists(f):
    mx = json.load(open(f))
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    id = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    got = mx.get(id)
    own = '' if got is None else ('' if m['property'] in got else ' **missed**')
    also = '' if not got else ', '.join(x for x in got if x != m['property'])
    out.append(W('`%s` %s%s%s: %s' % (id, m['property'], own, ' (also %s)' % also if also else '', m['what_it_breaks']), '* '))
n = len(json.load(open(os.path.join(V, 'known_findings.json')))['fixed'])
out.append(open(os.path.join(HERE, 'design_tail.md')).read().replace('NFIX', str(n)))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
