"""One-off: snapshot the Julia API of /repo (mod.jl) into jlapi.json (committed; not run by checks)."""
import os,json,sys
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
import genharness,julia
from expr import S
def fix(ps,mod,name):
    """a few wrappers misname a parameter: the parameter of the Rust function at that position is meant"""
    import families
    g=families.free().get(genharness.short(mod),{}).get(name)
    if g is None or len(g.args)!=len(ps) or {k for k,_ in g.args}=={x for x,_,_ in ps}: return ps
    print('renamed',mod,name,[(x,k) for (x,_,_),(k,_) in zip(ps,g.args) if x!=k])
    return [(k,t,d) for (k,_),(x,t,d) in zip(g.args,ps)]
def main(root='/repo/src'):
    j=julia.Julia(root,{e.name:[t for _,t in e.args] for e in genharness.entries() if e.kind=='extern'}); fs=[]; ob=[]
    for p,m in julia.modules(j.top):
        rm=os.path.relpath(m.path,root).replace('/','::')
        if not rm.startswith('physics::single_chain::'): continue
        for n,v in m.v.items():
            if isinstance(v,julia.Clo):
                a,=v.methods; a=(fix(a[0],rm,n),); fs.append(dict(mod=rm,name=n,args=[[x,'u8' if 'UInt8' in str(t) else 'f64',julia.fits(julia.Arr([]),t)] for x,t,_ in a[0]]))
            if isinstance(v,julia.Ty):
                c,=v.ctors; ob.append(dict(mod=rm,name=v.name,args=[[x,'u8' if t[0]=='UInt8' else 'f64'] for x,t,_ in c[0]],path=list(p),fields=[]))
                o=j.call(v,[julia.U8(S('N')) if t=='u8' else S(x) for x,t in ob[-1]['args']])
                for k,f in o.f.items():
                    if isinstance(f,julia.Clo): ob[-1]['fields'].append([k,[x for x,_,_ in f.methods[0][0]]])
                    elif isinstance(f,julia.Obj): ob[-1]['fields'].append([k,'object'])
                    else: ob[-1]['fields'].append([k,'value'])
    json.dump(dict(functions=fs,objects=ob),open(os.path.join(HERE,'jlapi.json'),'w'),indent=0)
    print(len(fs),len(ob),sum(isinstance(a,list) for o in ob for _,a in o['fields']))
if __name__=='__main__': main()
