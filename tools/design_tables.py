#!/usr/bin/env python3
"""rewrites the generated tables of DESIGN.md (between <!--name--> and <!--/name-->)"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seeds():
    out = ['| change | property | needs | caught by |', '|---|---|---|---|']
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], m.get('caught_by', m['property'])))
    return '\n'.join(out)
def na():
    m = json.load(open(V + '/MANIFEST.json')); return '\n'.join('- **%s**: %s' % (x.get('property', x.get('id')), x['reason']) for x in m['not_applicable'])
p = V + '/DESIGN.md'; s = open(p).read()
for n, f in (('seeds', seeds), ('na', na)): s = re.sub('<!--%s-->.*?<!--/%s-->' % (n, n), lambda m: '<!--%s-->\n%s\n<!--/%s-->' % (n, f(), n), s, flags=re.S)
open(p, 'w').write(s)
