#!/usr/bin/env python3
"""fills the 'fixed' list of known_findings.json"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(l.split() for l in '''a2cd8f6 C21
59d72b7 C24
c2eee97 C29
11e19b5 C14
0cceae0 C27
e4a6856 C26
d066880 C26
1e7ee5a C24
965d6b7 C23
be9849f C24
da60bd6 C23
af23d93 C23
aa1f46f C28
59238bc C29
e3b3157 C29
dcae6a2 C30
d966955 C27
5adc9bb C25
e3b50b4 C24
75218a6 C23
52b4ae7 C12
3541f9b C07
365b020 C13
593a5ae C09
4923357 C14
a915339 C08
c8456b8 C06
9e334ef C05
5d6e19b C05
11576c4 C04
235e453 C04
5ae7fa1 C31
7d20a1b C21
8e44dfe C22
1ea99d0 C21
1f21a57 C19
89609c9 C16
943a8ba C15
e6ac077 C16
f6e8503 C19
82dd841 C17
cc89161 C17
062925b C15
a7bb3cd C23
4fac809 C19'''.splitlines())
out = []
for c, p in PROP.items():
    s = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%s', c], text=True).strip()
    out.append('fixed: property=%s %s %s' % (p, c, s[len('fix: '):]))
f = os.path.join(HERE, 'known_findings.json')
d = json.load(open(f))
d['fixed'] = sorted(out)
json.dump(d, open(f, 'w'), indent=1)
open(f, 'a').write('\n')
