#!/usr/bin/env python3
"""Rewrite the planted-bug table of DESIGN.md from check logs: seedtable.py LOGDIR"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + '/seeded/*')):
    i = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    res = []
    try:
        for l in open('%s/sc_%s.log' % (sys.argv[1], i)):
            g = re.match(r'\s+(C\d\d): (CAUGHT|MISSED)', l)
            if g:
                res.append(g.group(1) + ('' if g.group(2) == 'CAUGHT' else ' no'))
    except OSError:
        pass
    rows.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '\\|'), ', '.join(res) or '?'))
p = V + '/DESIGN.md'
t = open(p).read()
new = '| change | needs | checks run (no = quiet) |\n|---|---|---|\n' + '\n'.join(rows)
if 'SEEDTABLE' in t:
    t = t.replace('SEEDTABLE', '<!-- seeds -->\n' + new + '\n<!-- /seeds -->')
else:
    t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + new + '\n<!-- /seeds -->', t, flags=re.S)
open(p, 'w').write(t)
