"""Rewrites the list of planted bugs in DESIGN.md, between the two markers."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by={}
for d in sorted(os.listdir(root+'/seeded')):
    p=json.load(open(f'{root}/seeded/{d}/meta.json'))['property']
    by.setdefault(p,[]).append(d[4:] if d.lower().startswith(p.lower()+'-') else d)
n=sum(map(len,by.values()))
t=f'All {n} are caught by the quick check of the property in their name (the identifier starts with it):\n\n'
t+=''.join(f'* {p}: {", ".join(v)}\n' for p,v in sorted(by.items()))
f=root+'/DESIGN.md'; s=open(f).read()
if 'TABLE\n' in s: s=s.replace('TABLE\n','<!-- seeds -->\n<!-- end -->\n',1)
s=re.sub(r'(?s)<!-- seeds -->\n.*?<!-- end -->',lambda m:'<!-- seeds -->\n'+t+'<!-- end -->',s)
open(f,'w').write(s)
