"""One-off: snapshot the public API of /repo into api.json (committed; not run by checks)."""
import re,os,json,sys
src=sys.argv[1] if len(sys.argv)>1 else '/repo/src'
out=[]
fn_re=re.compile(r'^(\s*)pub (?:extern (?:"C" )?)?fn (\w+)(<[^>(]*>)?\(([^)]*)\)(?: -> ([^\n{]+))?',re.M)
for root,d,files in os.walk(src):
    d.sort()
    for f in ('mod.rs','ex.rs'):
        if f not in files: continue
        p=os.path.join(root,f); t=open(p).read()
        mod=os.path.relpath(root,src).replace('/','::')
        lines=t.split('\n')
        # track impl
        pos=0; impl=None
        implpos=[(m.start(),m.group(1)) for m in re.finditer(r'^impl(?:<[^>]*>)? (\w+)',t,re.M)]
        structs={}
        for m in re.finditer(r'^pub struct (\w+)\s*\{(.*?)^\}',t,re.M|re.S):
            structs[m.group(1)]=re.findall(r'^\s*(?:pub )?(\w+): ([^,\n]+),?$',m.group(2),re.M)
        for m in fn_re.finditer(t):
            ind,name,gen,args,ret=m.groups()
            ind=ind.replace('\n','')
            a=[]
            for x in re.split(r',(?![^<\[(]*[>\])])',args):
                x=x.strip()
                if not x: continue
                if ':' in x:
                    k,v=x.split(':',1); a.append([k.strip(),v.strip()])
                else: a.append([x,''])
            kind='free' if not ind else 'method'
            if f=='ex.rs': kind='extern'
            owner=None
            if kind=='method':
                owner=[s for pp,s in implpos if pp<m.start()][-1]
            out.append(dict(mod=mod,file=f,kind=kind,owner=owner,name=name,generics=gen,args=a,ret=(ret or '').strip()))
        for s,fl in structs.items():
            out.append(dict(mod=mod,file=f,kind='struct',name=s,fields=fl))
json.dump(out,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'api.json'),'w'),indent=0)
from collections import Counter
print(Counter(o['kind'] for o in out))
print(Counter((o.get('ret'),) for o in out))
print(Counter(tuple(v for k,v in o['args'])for o in out if o['kind']!='struct').most_common(60))
