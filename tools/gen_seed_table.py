"""Puts the table of planted bugs into DESIGN.md (between the markers)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | needs | breaks | caught by |', '|---|---|---|---|']
also = {}
p = os.path.join(here, 'tools', 'also.json')
if os.path.exists(p):
    also = json.load(open(p))
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f)); n = f.split('/')[-2]
    rows.append('| %s | %s | %s | %s |' % (n, d['needs'], d['what_it_breaks'], ', '.join([d['property']] + also.get(n, []))))
t = open(os.path.join(here, 'DESIGN.md')).read()
block = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
t = t.replace('@SEEDS@', block) if '@SEEDS@' in t else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda m: block, t, flags=re.S)
open(os.path.join(here, 'DESIGN.md'), 'w').write(t)
