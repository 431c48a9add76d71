# regenerates the table of planted bugs in DESIGN.md (section 5)
import json,os,glob,re
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    c=lambda s:re.sub(r'\s+',' ',s).replace('|','/')
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],c(m['what_it_breaks']),c(m['needs'])))
t='| bug | property, caught by its check | what it breaks | needs |\n|----|----|----|----|\n'+'\n'.join(rows)
s=open('/verif/DESIGN.md').read()
a='<!-- seeded:begin -->';b='<!-- seeded:end -->'
if 'SEEDED-TABLE' in s: s=s.replace('SEEDED-TABLE',a+'\n'+b)
i=s.index(a);j=s.index(b)
open('/verif/DESIGN.md','w').write(s[:i]+a+'\n'+t+'\n'+s[j:])
