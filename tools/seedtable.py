#!/usr/bin/env python3
"""write the table of planted bugs into DESIGN.md"""
import json,glob,os
o=['| planted bug | property | needs | check that catches it |\n|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json'))
    o.append('| %s | %s | %s | %s |'%(os.path.basename(d[:-1]),m['property'],m['needs'].replace('\n',' '),m.get('caught_by',m['property']+' quick')))
import re
p='/verif/DESIGN.md';t=open(p).read()
t=re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)',lambda m:m.group(1)+'\n'.join(o)+'\n'+m.group(2),t,flags=re.S)
open(p,'w').write(t)
