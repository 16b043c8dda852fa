#!/usr/bin/env python3
"""writes DESIGN.md from design_head.md, how.py, design_tail.md, the evidence of the last run on the unchanged tree, and seeded/*/meta.json"""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from meta import props, how
from po import registry
out = [open(os.path.join(H, 'meta', 'design_head.md')).read()]
out.append('## Properties\n')
seeds = {}
for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
for p in props.PROPS:
    i, title = p[0], p[1]
    ev = json.load(open(os.path.join(H, 'evidence', i + '.json')))['coverage']
    out.append('### %s %s' % (i, title))
    out.append('How: %s' % how.HOW[i])
    out.append('Rules (places applied): ' + '; '.join('%s (%d)' % (r, n['instances']) for r, n in sorted(ev['rules'].items())) + '.')
    fs = [x.replace('boost::program_options::', '') for x in ev['entry_functions']]
    out.append('Entry functions: %s%s. %d obligations on %d paths.' % (', '.join('`%s`' % x for x in fs[:14]), ' and %d more' % (len(fs) - 14) if len(fs) > 14 else '', ev['obligations'], ev['paths']))
    if i in how.LIMIT:
        out.append('Limit: %s.' % how.LIMIT[i])
    out.append('')
out.append('## Not applicable\n')
for p in props.NA_PROPS:
    out.append('* %s %s: %s' % (p[0], p[1], dict(props.NOT_APPLICABLE)[p[0]]))
out.append('')
out.append('## Seeded changes and the checks that catch them\n')
out.append('Each passes the test suite; `demo.sh` fails with it. "caught" is the verdict of the check of its own property.\n')
out.append('| change | property | needs | caught |\n|---|---|---|---|')
miss = set(open(os.path.join(H, 'meta', 'missed.txt')).read().split()) if os.path.exists(os.path.join(H, 'meta', 'missed.txt')) else set()
for i in sorted(seeds):
    for n, m in seeds[i]:
        out.append('| %s | %s | %s | %s |' % (n, i, m['needs'].replace('|', '/'), 'no' if n in miss else 'yes'))
out.append('')
out.append(open(os.path.join(H, 'meta', 'design_tail.md')).read())
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
