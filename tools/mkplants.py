"""Writes the table of planted bugs into DESIGN.md (from seeded/*/meta.json)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | needs | caught by |', '|----|----------|-------|-----------|']
for d in sorted(os.listdir(H+'/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m.get('caught_by', m['property'])))
p = H+'/DESIGN.md'
s = open(p).read()
t = '<!-- plants -->\n'+'\n'.join(rows)+'\n<!-- /plants -->'
s = s.replace('@PLANTS@', t) if '@PLANTS@' in s else re.sub(r'<!-- plants -->.*?<!-- /plants -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
