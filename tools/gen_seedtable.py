# writes the section "Planted bugs" of DESIGN.md from seeded/*/meta.json
import json,os,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t='## Planted bugs\n\nEach is caught by the check of its property (`run.sh <id> quick`); needs = what it takes to show.\n\n| bug | property | needs | what it breaks |\n|---|---|---|---|\n'
for d in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(f'{R}/seeded/{d}/meta.json'))
    t+='| %s | %s | %s | %s |\n'%(d,m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/'))
p=R+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'## Planted bugs\n.*?(?=\n## |\Z)','',s,flags=re.S).rstrip()+'\n\n'+t
open(p,'w').write(s)
