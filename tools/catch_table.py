#!/usr/bin/env python3
"""Development aid: the section of DESIGN.md that lists the planted bugs by the check that catches them."""
import collections
import glob
import json
import os
import re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
by = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    by[json.load(open(f))['property']].append(os.path.basename(os.path.dirname(f)))
out = ['| check | planted bugs it catches |', '|---|---|'] + ['| %s | %s |' % (p, ', '.join(by[p])) for p in sorted(by)]
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- catch table -->\n).*?(<!-- end -->)', lambda m: m.group(1) + '\n'.join(out) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
print(sum(map(len, by.values())), 'planted bugs')
