"""One-off: snapshot the Python API of /repo (py.rs) into pyapi.json (committed; not run by checks)."""
import re,os,json,sys
src=sys.argv[1] if len(sys.argv)>1 else '/repo/src'
out=[]
for root,d,files in os.walk(src):
    d.sort()
    if 'py.rs' not in files: continue
    t=open(os.path.join(root,'py.rs')).read(); mod=os.path.relpath(root,src).replace('/','::')
    for m in re.finditer(r'^pub struct (\w+)\s*\{(.*?)^\}',t,re.M|re.S):
        body=re.sub(r'///[^\n]*','',m.group(2))
        out.append(dict(mod=mod,kind='struct',name=m.group(1),fields=re.findall(r'pub (\w+): ([^,\n]+),?',body)))
    for m in re.finditer(r'^    pub fn (\w+)(<[^>(]*>)?\(([^)]*)\)(?: -> ([^\n{]+))?',t,re.M):
        name,gen,args,ret=m.groups()
        a=[[k.strip() for k in x.split(':',1)] for x in re.split(r',(?![^<\[(]*[>\])])',args) if ':' in x and "Python<'py>" not in x]
        out.append(dict(mod=mod,kind='method',name=name,args=a,ret=(ret or '').strip()))
json.dump(out,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'pyapi.json'),'w'),indent=0)
from collections import Counter
print(Counter(o['kind'] for o in out),Counter(o.get('ret') for o in out))
