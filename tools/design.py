#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + tools/design_tail.md + the table of planted bugs."""
import json, glob, os
M = {
 'c04-font-by-name': 'C04 "orders of use" now has two fonts that share a PostScript name',
 'c10-leading-space': 'C09/C10 observe white space through `:empty`; "white space" sections',
 'c11-unstable-sort': 'C11 "many rules" (sort is stable below 21 elements whatever the algorithm)',
 'c19-exact-fit': 'C19 "exact fits"',
 'c20-split-order': 'C20 "edges of split inline boxes"',
 'c01-shared-key': 'C01 "many resources"',
 'c07-partial-append': 'C07 "failing appends"',
 'c13-attr-ns': 'C13 attributes with the same local name in several namespaces',
 'c26-backdrop': 'C26 tiny and large scales',
}
M.update(json.load(open('/verif/tools/missed.json')) if os.path.exists('/verif/tools/missed.json') else {})
out = open('/verif/tools/design_head.md').read() + open('/verif/tools/design_tail.md').read()
out += '| planted bug | needs | caught by | missed at first, then added |\n|---|---|---|---|\n'
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i = d.split('/')[-2]; m = json.load(open(d))
    n = ' '.join(str(m['needs']).split()).replace('|', '/')
    out += f"| {i} | {n} | {m.get('not_caught', m['property'])} | {M.get(i, '')} |\n"
post = '/verif/tools/design_post.md'
if os.path.exists(post): out += '\n' + open(post).read()
open('/verif/DESIGN.md', 'w').write(out)
