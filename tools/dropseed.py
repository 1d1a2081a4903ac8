#!/usr/bin/env python3
"""Drop seeds (spec entry and /verif/seeded folder): dropseed.py ID..."""
import re, sys, glob, os, shutil
for f in sorted(glob.glob('/verif/tools/seedspecs/*.py')):
    t = open(f).read()
    parts = re.split(r"(?m)^(?=dict\(id=|\])", t)
    keep = [p for p in parts if not any(p.startswith("dict(id='%s'" % i) for i in sys.argv[1:])]
    if len(keep) != len(parts):
        open(f, 'w').write(''.join(keep))
for i in sys.argv[1:]:
    d = os.path.join('/verif/seeded', i)
    if os.path.isdir(d): shutil.rmtree(d)
