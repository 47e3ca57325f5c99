#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md: the bounds of every exploration
(from the -list output of the two checker binaries, given as arguments) and the
planted bugs (from results.tsv lines 'id property caught-by', if given)."""
import subprocess,sys,os,re,json
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=set()
for b in sys.argv[1:]:
    for l in subprocess.check_output([b,'-list'],text=True).splitlines():
        rows.add(tuple(l.split('\t')))
t='| property | exploration | what is enumerated |\n|---|---|---|\n'
for r in sorted(rows): t+='| %s | %s | %s |\n'%(r[0],r[1],r[2].replace('|','\\|'))
s='| planted bug | property | needs | breaks |\n|---|---|---|---|\n'
d=here+'/seeded'
for i in sorted(os.listdir(d)) if os.path.isdir(d) else []:
    m=json.load(open('%s/%s/meta.json'%(d,i)))
    s+='| %s | %s | %s | %s |\n'%(i,m['property'],m['needs'],m['what_it_breaks'])
f=here+'/DESIGN.md'; x=open(f).read()
for k,v in (('bounds',t),('seeded',s)):
    x=re.sub(r'(<!-- %s begin -->\n).*?(<!-- %s end -->)'%(k,k),lambda m:m.group(1)+v+m.group(2),x,flags=re.S)
open(f,'w').write(x)
