#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,collections,re
os.chdir(os.path.dirname(os.path.abspath(__file__)))
t=collections.defaultdict(list)
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); t[m['property']].append((os.path.basename(os.path.dirname(f)),m['what_it_breaks']))
rows=''.join('| %s | %s |\n'%(p,'; '.join('`%s` (%s)'%x for x in t[p])) for p in sorted(t))
s=open('DESIGN.md').read()
s=re.sub(r'(<!-- planted -->\n).*?(<!-- /planted -->)',lambda m:m[1]+'| Property | Planted bugs caught by its check (quick tier) |\n|---|---|\n'+rows+m[2],s,flags=re.S)
open('DESIGN.md','w').write(s)
