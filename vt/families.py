"""Obligation families over the physics API."""
import random
from fractions import Fraction as F
from expr import *
import expr as X
from oblig import *
import genharness
N_=S('N'); L=S('link_length'); M=S('hinge_mass'); T=S('temperature'); K=S('link_stiffness'); EP=S('link_energy'); W=S('well_width')
FO=S('force'); XI=S('end_to_end_length'); ETA=S('nondimensional_force'); G=S('nondimensional_end_to_end_length_per_link')
KT=mul(KB,T)
BIG=(F(1,10**9),F(10**9))
# nondimensional argument -> expression in dimensional symbols
def NL(): return mul(N_,L)
NDARG={
 'nondimensional_link_stiffness':lambda:div(mul(K,powi(L,2)),KT),
 'nondimensional_link_energy':lambda:div(EP,KT),
 'nondimensional_force':lambda:div(mul(FO,L),KT),
 'nondimensional_end_to_end_length_per_link':lambda:div(XI,NL()),
 'nondimensional_potential_distance':lambda:div(S('potential_distance'),NL()),
 'nondimensional_potential_stiffness':lambda:div(mul(S('potential_stiffness'),powi(L,2)),KT),
 'nondimensional_persistance_length':lambda:div(S('persistance_length'),NL()),
}
SAMPLE={ # nondimensional sampling ranges
 'link_length':(0.6,1.6),'hinge_mass':(0.5,2.0),'temperature':(230,370),'well_width':(0.3,1.1),
 'nondimensional_force':(0.4,12),'nondimensional_link_stiffness':(60,400),'nondimensional_link_energy':(30,120),
 'nondimensional_end_to_end_length_per_link':(0.12,0.82),'nondimensional_potential_distance':(0.12,0.8),
 'nondimensional_potential_stiffness':(0.3,6),'nondimensional_persistance_length':(0.15,0.6),'normalization_nondimensional_equilibrium_distribution':(0.3,2.0)}
DIMOF={'link_stiffness':lambda e:e['nondimensional_link_stiffness']*8.314462618*e['temperature']/e['link_length']**2,
 'link_energy':lambda e:e['nondimensional_link_energy']*8.314462618*e['temperature'],
 'force':lambda e:e['nondimensional_force']*8.314462618*e['temperature']/e['link_length'],
 'end_to_end_length':lambda e:e['nondimensional_end_to_end_length_per_link']*e['N']*e['link_length'],
 'potential_distance':lambda e:e['nondimensional_potential_distance']*e['N']*e['link_length'],
 'potential_stiffness':lambda e:e['nondimensional_potential_stiffness']*8.314462618*e['temperature']/e['link_length']**2,
 'persistance_length':lambda e:e['nondimensional_persistance_length']*e['N']*e['link_length']}
def sampler(names,N=(5,18),over=None):
    names=sorted(names); over=over or {}
    def f(rng):
        e={'N':rng.randint(*N)}
        for k in sorted(SAMPLE):
            a,b=over.get(k,SAMPLE[k]); e[k]=a*(b/a)**rng.random()
        out={}
        for n in names:
            if n=='N': out[n]=e['N']
            elif n in e: out[n]=e[n]
            elif n in DIMOF: out[n]=DIMOF[n](e)
            elif n.endswith("_2") and n[:-2] in SAMPLE:
                a,b=over.get(n[:-2],SAMPLE[n[:-2]]); out[n]=a*(b/a)**rng.random()
            elif n.endswith("_2"):
                e2=dict(e)
                for k in SAMPLE:
                    if k not in('link_length','temperature','hinge_mass'):
                        a,b=over.get(k,SAMPLE[k]); e2[k]=a*(b/a)**rng.random()
                out[n]=DIMOF[n[:-2]](e2)
            else: raise KeyError(n)
        return out
    return f
_FREE=None
def free():
    global _FREE
    if _FREE is None:
        _FREE={}
        for f in genharness.entries():
            if f.kind=='free': _FREE.setdefault(genharness.short(f.mod),{})[f.name]=f
    return _FREE
TRELOAR_EXACT=('fjc::thermodynamics::isometric','fjc::thermodynamics::isometric::legendre','fjc::thermodynamics::modified_canonical',
  'fjc::thermodynamics::modified_canonical::asymptotic::strong_potential')
def is_treloar(mod): return mod in TRELOAR_EXACT
def reach(mod):
    """largest extension of the model's domain, in contour lengths: extensible chains go beyond"""
    if '::isometric' in mod and 'legendre' in mod and mod.startswith(('efjc','ufjc')): return C(4)
    if '::isometric' in mod and mod.startswith('swfjc'): return add(ONE,div(W,L))
    if mod.startswith('ideal'): return C(100)
    return ONE
def guards(es,mod=''):
    rs=set()
    for e in es: rs|={x.args[0] for x in topo([e]) if x.op=='s'}
    g=[]; lim=reach(mod)
    for k in ('end_to_end_length','potential_distance','end_to_end_length_2','potential_distance_2'):
        if k in rs: g.append(Cond('<',S(k),mul(lim,NL())))
    if lim.op!='c' and {'well_width','link_length'}<=rs:
        for k in ('nondimensional_end_to_end_length_per_link','nondimensional_end_to_end_length_per_link_2'):
            if k in rs: g.append(Cond('<',S(k),lim))
    return g
def conc_N(mod,tier):
    return [3,8] if tier=='quick' else [2,3,4,5,6,8,12,18,25]
def argsym(name):
    return N_ if name=='number_of_links' else S(name)
def callf(f,over=None):
    over=over or {}
    return CALL(f.sym,*[over.get(k,argsym(k)) for k,_ in f.args])
def realsyms(*es):
    s=set()
    for x in topo(es):
        if x.op=='s' and x.args[0]!='$pi': s.add(x.args[0])
    for x in topo(es):
        if x.op=='diff': s.add(x.args[0])
    for x in topo(es):
        if x.op=='quad': s.discard(x.args[0])
    s.discard('N'); return s
def mkob(name,l,r,group,tol=1e-8,dom=None,N=(5,18),over=None,Nconc=None,domfn=None,tol_=None,**kw):
    rs=realsyms(l,r)
    has_n='N' in {x.args[0] for x in topo([l,r]) if x.op=='s'}
    sy={k:(dom or {}).get(k,BIG) for k in rs}
    # lengths below full extension: the documented domain
    if domfn: sy.update({k:v for k,v in domfn.items() if k in rs})
    for k in ('nondimensional_end_to_end_length_per_link','nondimensional_potential_distance','nondimensional_end_to_end_length_per_link_2','nondimensional_potential_distance_2'):
        if k in sy and not(dom and k in dom) and not(domfn and k in domfn):
            lim=reach(group); sy[k]=(F(1,10**9),F(999999999,10**9)*(lim.args[0] if lim.op=='c' else 10**6))
    if Nconc is not None:
        l=subst0(l,{'N':C(Nconc)}); r=subst0(r,{'N':C(Nconc)})
        base=sampler(rs,(Nconc,Nconc),over)
        if kw.get('band'): kw=dict(kw,band=(subst0(kw['band'][0],{'N':C(Nconc)}),kw['band'][1]))
        return Ob(name+'[N=%d]'%Nconc,l,r,sy,{},base,tol,group=group,**kw)
    ints={'N':(1,255)} if has_n else {}
    return Ob(name,l,r,sy,ints,sampler(rs|({'N'} if has_n else set()),N,over),tol,group=group,**kw)
subst0=specsub
def group_needs_exact(name): return ' = d ' in name or ' = -d ' in name or 'inverse' in name
WLCP='polymers::physics::single_chain::wlc::thermodynamics::isometric::'
def uf_hooks(mod):
    """the isometric functions under a Laplace/Legendre transform are read as uninterpreted: the transform's relations hold for any"""
    if not mod.startswith(('wlc::thermodynamics::isotensional','wlc::thermodynamics::isometric::legendre')): return None
    import mhooks
    h={}; fs=free()['wlc::thermodynamics::isometric']
    nf,ab,re=(fs.get(k) for k in ('nondimensional_force','nondimensional_helmholtz_free_energy','nondimensional_relative_helmholtz_free_energy'))
    if nf: h[WLCP+nf.name]=mhooks.uf(nf.name,[t for _,t in nf.args])
    if ab and re:
        # absolute = relative + a function of the other arguments: the relative-energy obligation of the isometric model itself
        ka=[k for k,_ in ab.args]; kr=[k for k,_ in re.args]; v=state(re)
        h[WLCP+re.name]=mhooks.uf('psi',[t for _,t in re.args])
        h[WLCP+ab.name]=mhooks.uf_sum([('psi',[ka.index(k) for k in kr]),('c',[i for i,k in enumerate(ka) if k!=v])],[t for _,t in ab.args])
    return h
def emit(out,mod,name,l,r,group,tier,**kw):
    if 'lennard_jones' in mod: kw.setdefault('over',{'nondimensional_force':(0.2,1.9)})
    elif reach(mod) is not ONE: kw.setdefault('over',{k:(0.12,1.4) for k in SAMPLE if 'length_per_link' in k})
    if group_needs_exact(name) and mod.startswith('wlc::thermodynamics::isotensional'):
        # above a nondimensional force of 100 the code switches to an asymptotic estimate of the transform
        kw.setdefault('domfn',{'nondimensional_force':(F(1,10**9),F(100))})
        kw['xguard']=[Cond('<=',mul(FO,L),mul(C(100),KT))] if any(x.op=='s' and x.args[0]=='force' for x in topo([l,r])) else []
    kw.setdefault('hooks',uf_hooks(mod)); kw.setdefault('allow_panic',mod.startswith('wlc::thermodynamics::isotensional'))
    if mod=='swfjc::thermodynamics::isometric::legendre' and group_needs_exact(name):
        # below 0.001 the code returns the linear response (judged by the limits check)
        kw.setdefault('domfn',{k:(F(102,100000),F(999999999,10**9)) for k in ('nondimensional_end_to_end_length_per_link',)})
        g=Cond('<',mul(C(F(102,100000)),NL()),S('end_to_end_length')) if any(x.op=='s' and x.args[0]=='end_to_end_length' for x in topo([l,r])) else None
        kw['xguard']=[g] if g else []
    xg=kw.pop('xguard',[])
    if is_treloar(mod):
        ob=mkob(name,l,r,group,**kw); ob.fallback=[mkob(name,l,r,group,Nconc=n,**kw) for n in (3,5)]; ob.ints={'N':(2,255)} if ob.ints else {}
    else: ob=mkob(name,l,r,group,**kw)
    ob.guard=guards([l,r],mod)+xg; out.append(ob)
    if is_treloar(mod):
        # the symbolic obligation reads the sums by their recurrence; these read the code of the sums
        for n in ((3,6) if tier=='quick' else (2,3,4,5,6,7,9,12)):
            o=mkob(name,l,r,group,Nconc=n,**kw); o.guard=guards([subst0(l,{'N':C(n)}),subst0(r,{'N':C(n)})],mod)+xg
            for g in o.guard: g.b=subst0(g.b,{'N':C(n)}); g.a=subst0(g.a,{'N':C(n)})
            out.append(o)

def fam_scaling(tier):
    out=[]
    for mod,fs in free().items():
        for nm,f in fs.items():
            nd=fs.get('nondimensional_'+nm)
            if nm.startswith('nondimensional') or nd is None:
                if nm in('force',) and 'nondimensional_force' in fs: nd=fs['nondimensional_force']
                else: continue
            if nm.endswith('distribution'): continue
            rhs=callf(nd,{k:v() for k,v in NDARG.items()})
            if 'energy' in nm: rhs=mul(KT,rhs)
            elif nm.startswith('end_to_end'): rhs=mul(L,rhs)
            elif nm=='force': rhs=div(mul(KT,rhs),L)
            else: raise Exception(nm)
            emit(out,mod,'%s::%s = scale*nondimensional'%(mod,nm),callf(f),rhs,mod,tier)
    return out
def fam_perlink(tier):
    out=[]
    for mod,fs in free().items():
        for nm,f in fs.items():
            p=fs.get(nm+'_per_link')
            if p is None: continue
            emit(out,mod,'%s::%s = N*per link'%(mod,nm),callf(f),mul(N_,callf(p)),mod,tier)
    return out

# ---- state variable of a function, reference values, parents
STATE=('force','end_to_end_length','potential_distance','nondimensional_force','nondimensional_end_to_end_length_per_link','nondimensional_potential_distance')
ELIM.update(STATE)
def state(f):
    ks=[k for k,_ in f.args]
    v=[k for k in STATE if k in ks]
    return v[0] if len(v)==1 else None
def drop(nm,w): return nm.replace(w,'')
def rel_of(nm):
    """name of the absolute function of a relative one"""
    return nm.replace('relative_','')
def refvalue(sv,f):
    """the documented zero-state value: nondimensional 1e-6 for the reference state"""
    z=C(F(1,10**6)); ks=[k for k,_ in f.args]
    if sv.startswith('nondimensional'): return z
    if sv=='force': return div(mul(z,KT),L)
    return mul(z,NL())
def fam_relative(tier):
    out=[]
    for mod,fs in free().items():
        for nm,f in fs.items():
            if 'relative_' not in nm: continue
            ab=fs.get(rel_of(nm)); sv=state(f)
            if ab is None or sv is None: out.append(('missing',mod,nm)); continue
            x2={sv:S(sv+'_2')}
            emit(out,mod,'%s::%s differs between two states as the absolute energy does'%(mod,nm),
                 sub(callf(f),callf(f,x2)),sub(callf(ab),callf(ab,x2)),mod,tier)
    return out
def fam_zero(tier):
    out=[]
    for mod,fs in free().items():
        for nm,f in fs.items():
            if 'relative_' not in nm: continue
            sv=state(f)
            if nm.startswith('nondimensional') : scale=ONE
            else: scale=KT
            if not nm.endswith('per_link'): scale=mul(scale,N_)
            if 'modified_canonical' in mod and 'gibbs' in nm: scale=mul(scale,add(ONE,mul(N_,S('nondimensional_potential_stiffness') if nm.startswith('nondim') else NDARG['nondimensional_potential_stiffness']())))
            emit(out,mod,'%s::%s is zero at the zero state'%(mod,nm),callf(f,{sv:refvalue(sv,f)}),ZERO,mod,tier,band=(scale,F(1,10**9)))
    return out
def parent(mod):
    return mod.rsplit('::legendre',1)[0]
def fam_conjugate(tier):
    out=[]
    for mod,fs in free().items():
        if 'end_to_end_length' in fs and 'gibbs_free_energy' in fs and 'isotensional' in mod:
            for x,g,v in (('end_to_end_length','gibbs_free_energy','force'),('end_to_end_length_per_link','gibbs_free_energy_per_link','force'),
                        ('nondimensional_end_to_end_length','nondimensional_gibbs_free_energy','nondimensional_force'),
                        ('nondimensional_end_to_end_length_per_link','nondimensional_gibbs_free_energy_per_link','nondimensional_force')):
                for g2 in (g,g.replace('gibbs','relative_gibbs')):
                    emit(out,mod,'%s::%s = -d %s / d %s'%(mod,x,g2,v),callf(fs[x]),neg(DIFF(v,callf(fs[g2]))),mod,tier)
        if 'helmholtz_free_energy' in fs and 'force' in fs:
            v='potential_distance' if 'modified' in mod else 'end_to_end_length'
            nv='nondimensional_potential_distance' if 'modified' in mod else 'nondimensional_end_to_end_length_per_link'
            for g,sc in (('helmholtz_free_energy',ONE),('helmholtz_free_energy_per_link',N_)):
                for g2 in (g,'relative_'+g):
                    emit(out,mod,'%s::force = d %s / d %s'%(mod,g2,v),callf(fs['force']),mul(sc,DIFF(v,callf(fs[g2]))),mod,tier)
            for g,sc in (('nondimensional_helmholtz_free_energy',div(ONE,N_)),('nondimensional_helmholtz_free_energy_per_link',ONE)):
                for g2 in (g,g.replace('helm','relative_helm')):
                    emit(out,mod,'%s::nondimensional_force = d %s / d %s'%(mod,g2,nv),callf(fs['nondimensional_force']),mul(sc,DIFF(nv,callf(fs[g2]))),mod,tier)
        if 'modified' in mod and 'gibbs_free_energy' in fs:
            for g,sc in (('gibbs_free_energy',ONE),('gibbs_free_energy_per_link',N_)):
                for g2 in (g,'relative_'+g):
                    emit(out,mod,'%s::end_to_end_length = -d %s / (K d distance)'%(mod,g2),callf(fs['end_to_end_length']),neg(div(mul(sc,DIFF('potential_distance',callf(fs[g2]))),S('potential_stiffness'))),mod,tier)
    return out
def isot(mod):
    m=mod.replace('::isometric','::isotensional')
    return m.rsplit('::legendre',1)[0] if m.endswith('::legendre') else m
def fam_inverse(tier):
    out=[]
    for mod,fs in free().items():
        if not('::isometric' in mod and mod.endswith('::legendre')): continue
        p=free().get(isot(mod))
        if p is None or 'force' not in fs: continue
        g=callf(p['nondimensional_end_to_end_length_per_link'],{'nondimensional_force':callf(fs['nondimensional_force'])})
        emit(out,mod,'%s: isotensional extension at the nondimensional force is the applied extension (inverse)'%mod,g,G,mod,tier)
        x=callf(p['end_to_end_length'],{'force':callf(fs['force'])})
        emit(out,mod,'%s: isotensional extension at the force is the applied extension (inverse)'%mod,x,XI,mod,tier)
    return out
def fam_legendre(tier):
    out=[]
    for mod,fs in free().items():
        if not mod.endswith('::legendre'): continue
        if '::isotensional' in mod:
            p=free().get(parent(mod))
            if p is None: continue
            for h,g,x,f in (('helmholtz_free_energy','gibbs_free_energy','end_to_end_length',FO),('helmholtz_free_energy_per_link','gibbs_free_energy_per_link','end_to_end_length_per_link',FO),
                          ('nondimensional_helmholtz_free_energy','nondimensional_gibbs_free_energy','nondimensional_end_to_end_length',ETA),('nondimensional_helmholtz_free_energy_per_link','nondimensional_gibbs_free_energy_per_link','nondimensional_end_to_end_length_per_link',ETA)):
                emit(out,mod,'%s::%s = gibbs + force x length'%(mod,h),callf(fs[h]),add(callf(p[g]),mul(f,callf(p[x]))),mod,tier)
        elif 'force' in fs:
            p=free().get(isot(mod))
            if p is None: continue
            for h,g,fo,x,sc in (('relative_helmholtz_free_energy','relative_gibbs_free_energy','force',XI,ONE),('nondimensional_relative_helmholtz_free_energy_per_link','nondimensional_relative_gibbs_free_energy_per_link','nondimensional_force',G,ONE)):
                sv=state(fs[h]); fk=state(p[g])
                def rhs(over):
                    f=callf(fs[fo],over); xx=over.get(sv,S(sv))
                    return add(callf(p[g],dict(over,**{fk:f})),mul(f,xx))
                o2={sv:S(sv+'_2')}
                emit(out,mod,'%s::%s differs between states as gibbs + force x length does'%(mod,h),sub(callf(fs[h]),callf(fs[h],o2)),sub(rhs({}),rhs(o2)),mod,tier)
        if '::isometric' in mod and 'gibbs_free_energy' in fs:
            p=free().get(parent(mod))
            for g,h,fo,x,sc in (('gibbs_free_energy','helmholtz_free_energy','force',XI,ONE),('gibbs_free_energy_per_link','helmholtz_free_energy_per_link','force',XI,div(ONE,N_)),
                    ('nondimensional_gibbs_free_energy','nondimensional_helmholtz_free_energy','nondimensional_force',G,N_),('nondimensional_gibbs_free_energy_per_link','nondimensional_helmholtz_free_energy_per_link','nondimensional_force',G,ONE)):
                emit(out,mod,'%s::%s = helmholtz - force x length'%(mod,g),callf(fs[g]),sub(callf(p[h]),mul(sc,mul(callf(p[fo]),x))),mod,tier)
    return out
def fam_modcan(tier):
    out=[]
    for mod,fs in free().items():
        if 'modified_canonical' not in mod or 'gibbs_free_energy' not in fs or 'helmholtz_free_energy' not in fs: continue
        D=S('potential_distance'); ND=S('nondimensional_potential_distance'); KK=S('potential_stiffness'); NK=S('nondimensional_potential_stiffness')
        w=mul(mul(C(F(1,2)),KK),powi(D,2)); nw=mul(mul(C(F(1,2)),NK),powi(ND,2))
        for g,h,c in (('gibbs_free_energy','helmholtz_free_energy',w),('gibbs_free_energy_per_link','helmholtz_free_energy_per_link',div(w,N_)),
           ('nondimensional_gibbs_free_energy','nondimensional_helmholtz_free_energy',mul(powi(N_,2),nw)),('nondimensional_gibbs_free_energy_per_link','nondimensional_helmholtz_free_energy_per_link',mul(N_,nw))):
            emit(out,mod,'%s::%s = helmholtz - potential energy of the whole distance'%(mod,g),callf(fs[g]),sub(callf(fs[h]),c),mod,tier)
    return out

# ---- the three faces of the same functions
def counterpart(e):
    """the free function an extern/method entry stands for"""
    m=genharness.short(e.mod); fs=free().get(m,{}); nm=e.name
    if e.kind=='extern':
        p='physics_single_chain_'+m.replace('::','_')+'_'
        if nm.startswith(p): nm=nm[len(p):]
    return fs.get(nm)
def derived(f,mod,has):
    """nondimensional parameters of a function from the dimensional ones of an object; its normalisation"""
    over={k:NDARG[k]() for k,_ in f.args if k not in has and k in NDARG}
    nk='normalization_nondimensional_equilibrium_distribution'; kw={}
    if nk in [k for k,_ in f.args] and nk not in has:
        # the object is normalised: its radial distribution integrates to one
        fs=free()[genharness.short(mod)]; rd=fs['nondimensional_equilibrium_radial_distribution']
        hi=add(ONE,div(W,L)) if 'well_width' in has else ONE
        over[nk]=QUAD('$g',C(F(1,10**6)),hi,callf(rd,dict({k:NDARG[k]() for k,_ in rd.args if k not in has and k in NDARG},**{nk:ONE,'nondimensional_end_to_end_length_per_link':S('$g')}))); kw['tol']=2e-3
    return over,kw
def fam_fields(kind,tier):
    out=[]
    for e in genharness.all_entries():
        if e.kind==kind: emit(out,'object','%s %s of %s = the parameter it was initialised with'%('Python attribute' if kind=='pyfield' else 'field',e.name,genharness.short(e.mod)),CALL(e.sym,*[argsym(k) for k,_ in e.args]),argsym(e.name),'object',tier)
    return out
def fam_face(kind,tier):
    out=[]
    for e in genharness.all_entries():
        if e.kind!=kind: continue
        f=counterpart(e)
        if f is None: out.append(('missing',e.mod,e.name)); continue
        l=CALL(e.sym,*[argsym(k) for k,_ in e.args])
        over,kw=derived(f,e.mod,{k for k,_ in e.args})
        emit(out,genharness.short(e.mod),'%s %s::%s = the function of that name'%(kind,genharness.short(e.mod),f.name),l,callf(f,over),genharness.short(e.mod),tier,**kw)
    return out
def fam_methods(tier): return fam_face('method',tier)+fam_fields('field',tier)
def fam_python(tier): return fam_face('py',tier)+fam_fields('pyfield',tier)
def fam_exported():
    from driver import Task
    def run(c):
        # a C caller finds each function by its plain name, with its types
        bad=[]; n=0
        for e in genharness.entries():
            if e.kind!='extern': continue
            n+=1; f=c.W.mod.funcs.get(e.name)
            if f is None or ' internal ' in f.header: bad.append('%s is not exported under its name'%e.name)
        if bad: return dict(status='violated',detail='; '.join(bad[:5]),env={},replay=bad)
        return dict(status='proved',detail='%d names'%n)
    return [Task('C functions are exported under their names',run)]
def fam_externs(tier): return fam_face('extern',tier)+fam_exported()
