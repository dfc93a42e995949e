# Regenerates the table of planted changes at the end of DESIGN.md from seeded/*/meta.json.
import json,glob,os
s=open('DESIGN.md').read()
h="\n## Planted changes"
s=s[:s.index(h)]
s+=h+"""

Each lies in `seeded/<id>` with a demonstration. All of them are caught by the quick check of the property named
(most also by X03/X04 or a neighbour); ones that were missed when they were planted led to the strengthenings noted.

| change | caught by | needs |
|---|---|---|
"""
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); s+="| %s | %s | %s |\n"%(os.path.basename(os.path.dirname(f)),m['property'],m['needs'].replace('|','/'))
open('DESIGN.md','w').write(s)
