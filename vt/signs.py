"""Stability: equilibrium densities are positive, and the extension of a chain strictly increases with the force (rigid links: below the contour length)."""
import re,time,random
from fractions import Fraction as F
from expr import *
import expr as X
import oblig
import defined as D
from symex import Cond
from families import free,callf,mkob,guards,is_treloar,reach,NDARG,FO,L,KT,NL
from driver import Task
# closed forms whose derivative the prover decides
RISING=('ideal::thermodynamics::isotensional','fjc::thermodynamics::isotensional','efjc::thermodynamics::isotensional::asymptotic','efjc::thermodynamics::isotensional::asymptotic::alternative',
 'efjc::thermodynamics::isotensional::asymptotic::reduced','ufjc::morse::thermodynamics::isotensional::asymptotic','ufjc::morse::thermodynamics::isotensional::asymptotic::reduced',
 'ufjc::log_squared::thermodynamics::isotensional::asymptotic','ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced')
RIGID=('fjc::thermodynamics::isotensional',)
def parts(e,k=1):
    """the terms of a sum times a common factor"""
    if e.op=='add': return parts(e.args[0],k)+parts(e.args[1],k)
    if e.op=='sub': return parts(e.args[0],k)+parts(e.args[1],-k)
    if e.op=='neg': return parts(e.args[0],-k)
    if e.op=='mul':
        for a,b in((0,1),(1,0)):
            x=e.args[a]
            if x.op in('add','sub','mul') and len(parts(x))>1 and not 'nondimensional_force' in X.syms(e.args[b]): return [(X.mul(e.args[b],t),j) for t,j in parts(x,k)]
    return [(e,k)]
FORCE='nondimensional_force'
def threshold(q):
    """c of a condition force < c (or >, <=, >=)"""
    if q.op not in('<','<='): return None
    a,b=D.folded(q.a),D.folded(q.b)
    if a is S(FORCE) and FORCE not in X.syms(b): return b
    if b is S(FORCE) and FORCE not in X.syms(a): return a
    return None
def side(q): return (D.folded(q.a) is S(FORCE))!=bool(q.neg)
def factors(e):
    if e.op in('mul','div'): return factors(e.args[0])+factors(e.args[1])
    if e.op=='powi': return factors(e.args[0])
    if e.op=='fn' and e.args[0] in('exp','cosh'): return []
    return [e]
def lambert(e,ob,cs,b,st):
    """W(z) is -u/(1+u), u > 0, where -1/e < z < 0 is proved"""
    sy=dict(ob.syms)
    for i,x in enumerate([x for x in X.topo([e]) if x.op=='fn' and x.args[0]=='lambert_w']):
        z=x.args[1]; q=X.add(z,X.div(ONE,X.fn('exp',ONE)))
        if D.prove('positive',X.neg(z),ob.syms,ob.ints,cs,b,st)[0] and D.prove('positive',q,ob.syms,ob.ints,cs,b,st)[0]:
            u=S('$u%d'%i); sy[u.args[0]]=(F(0),F(10**60)); e=D.replace(e,x,X.neg(X.div(u,X.add(ONE,u))))
    return e,sy
def prove(e,v,ob,cs,b,st):
    """e > 0; a derivative also by the parts that hold the Lambert function and the rest"""
    if v is not None and any(x.op=='fn' and x.args[0]=='lambert_w' for x in X.topo([v])):
        gs=[C(0),C(0)]
        for t,k in parts(v):
            i=any(x.op=='fn' and x.args[0]=='lambert_w' for x in X.topo([t])); gs[i]=X.add(gs[i],t) if k>0 else X.sub(gs[i],t)
        ok=True
        for g in gs:
            if not ok: break
            q,sy=lambert(X.diff(g,'nondimensional_force'),ob,cs,b,st); ok=D.prove('positive',q,sy,ob.ints,cs,b,st)[0]
        if ok: return True,[]
    if v is None:
        # a product of positive factors; a power has a positive base where it is defined (C21)
        fs=factors(e)
        if len(fs)>1 and all(x.op=='fn' and x.args[0]=='powf' or D.prove('positive',x,ob.syms,ob.ints,cs,{k:r for k,r in b.items() if k in X.syms(x)},st)[0] for x in fs): return True,[]
    return D.prove('positive',e,ob.syms,ob.ints,cs,b,st)
def check(c,ob,goals,top=None):
    t0=time.time(); st=dict(q=0); opened=[]; n=0
    try: outs=D.explore(c,ob)
    except Exception as x:
        if isinstance(x,MemoryError): raise
        return dict(status='unencodable',detail='%s: %s'%(type(x).__name__,x),time=time.time()-t0)
    for o in outs:
        if o.kind!='ret': continue
        b={v:r for v,r in o.extra.get('bound',{}).items() if r is not None}
        for lab,g in goals:
            e=g(o.value); n+=1
            ok,models=prove(e,o.value if lab=='rising' else None,ob,list(o.conds),{v:r for v,r in b.items() if v in X.syms(e)},st)
            if not ok: opened.append((lab,e,list(o.conds),models))
    # where a branch on the force is taken, the extension does not drop
    rets=[o for o in outs if o.kind=='ret']
    if any(l=='rising' for l,_ in goals) and len(rets)>1:
        ts={threshold(q) for o in rets for q in o.conds}-{None}
        for t in ts:
            lo=[o for o in rets if any(threshold(q) is t and side(q) for q in o.conds)]; hi=[o for o in rets if any(threshold(q) is t and not side(q) for q in o.conds)]
            for p in lo:
                for q in hi:
                    m={FORCE:t}; cs=[Cond(x.op,X.subst(D.folded(x.a),m),X.subst(D.folded(x.b),m),x.neg) for x in list(p.conds)+list(q.conds) if threshold(x) is not t]
                    e=X.sub(X.subst(D.folded(q.value),m),X.subst(D.folded(p.value),m)); n+=1
                    if oblig.infeasible(ob,cs,5): continue
                    ok,models=D.prove('nonnegative',e,ob.syms,ob.ints,cs,{},st)
                    if not ok: opened.append(('jump',(t,e),cs,models))
    d=dict(paths=len(outs),queries=st['q'],time=time.time()-t0,detail='%d conditions'%n)
    if not n: return dict(d,status='unencodable',detail='no path returns')
    if not opened: return dict(d,status='proved')
    from driver import wait_native
    nat=wait_native(c)
    for lab,e,cs,models in opened:
        v=search(nat,ob,lab,e,cs,models,c.seed,top)
        if v: return dict(d,status='violated',detail='%s: native %s'%(lab,v[1]),env=v[0],replay=v[1])
    return dict(d,status='undecided',detail='open: '+', '.join(l for l,_,_,_ in opened)+' (native replays agree)')
def search(nat,ob,lab,e,cs,models,seed,top,drop=None):
    if lab=='jump': e,drop=e
    free_e=not any('$' in s for s in X.syms(e)-{'$pi'})
    want=cs+([Cond('<=',e,ZERO)] if free_e else [])
    if lab=='jump':
        for m in (models[:3] or [None]):
            for env in oblig.candidates(ob,seed,24,m,cs):
                if not confirmed(drop,env): continue
                try: t=float(X.evalmp(e,env,30))
                except Exception: continue
                a,b=dict(env,**{FORCE:t*(1-1e-13)}),dict(env,**{FORCE:t*(1+1e-13)})
                if any(not oblig.dom_ok(ob,x) or ob.guard and oblig.unmet(ob.guard,x) for x in(a,b)): continue
                v,w=D.value(nat,ob,a),D.value(nat,ob,b)
                if isinstance(v,float) and isinstance(w,float) and w<v-1e-7*abs(v): return b,'drops from %r to %r'%(v,w)
        return None
    for m in (models[:3] or [None]):
        for env in oblig.candidates(ob,seed,24,m,want):
            if ob.guard and oblig.unmet(ob.guard,env): continue
            v=D.value(nat,ob,env)
            if not isinstance(v,float) or not confirmed(e,env): continue
            if lab=='positive':
                # a density that underflows is no violation
                if v<0: return env,'returns %r'%v
            elif lab=='below the contour length':
                lim=float(X.evalmp(top,env,30))
                if v>lim*(1+1e-9): return env,'returns %r, above the contour length %r'%(v,lim)
            else:
                k='nondimensional_force'
                for r in (1.001,1.01,1.1,1.5):
                    e2=dict(env,**{k:env[k]*r})
                    if not oblig.dom_ok(ob,e2) or ob.guard and oblig.unmet(ob.guard,e2): continue
                    w=D.value(nat,ob,e2)
                    if isinstance(w,float) and w<v-1e-7*abs(v): return env,'returns %r, and %r at %g times the force'%(v,w,r)
    return None
def confirmed(e,env):
    """in exact arithmetic too, not only through rounding"""
    if any('$' in s for s in X.syms(e)-{'$pi'}): return True
    try: return X.evalmp(e,env,60)<0
    except Exception: return False
def fam_signs(tier):
    out=[]
    for mod,fs in free().items():
        for nm,f in fs.items():
            dens=re.fullmatch(r'(nondimensional_)?equilibrium_(radial_)?distribution',nm); ext=mod in RISING and re.fullmatch(r'(nondimensional_)?end_to_end_length(_per_link)?',nm)
            if not dens and not ext: continue
            kw={}
            for a,o in D.OVER.items():
                if a in mod: kw['over']=o
            if 'over' not in kw and reach(mod) is not ONE: kw['over']={'nondimensional_end_to_end_length_per_link':(0.12,1.4)}
            call=callf(f,{k:D.UNKNOWN[k]() for k,_ in f.args if k in D.UNKNOWN})
            ns=[None]
            if is_treloar(mod) and 'modified' not in mod and not nm.startswith('nondim'): continue
            if is_treloar(mod) and 'modified' not in mod: ns=[2,3,4,5,6] if tier=='quick' else list(range(2,13))
            for n in ns:
                ob=mkob('%s::%s %s'%(mod,nm,'is positive' if dens else 'rises with the force'),call,ZERO,mod,Nconc=n,**kw)
                ob.guard=guards([call],mod)+D.domain(mod,f)
                if n is not None:
                    for g in ob.guard: g.a=D.subst0(g.a,{'N':C(n)}); g.b=D.subst0(g.b,{'N':C(n)})
                if dens: goals=[('positive',lambda v:v)]; top=None
                else:
                    top=None; goals=[('rising',lambda v:X.diff(v,'nondimensional_force'))]
                    if mod in RIGID:
                        top=X.mul(ONE if nm.endswith('_per_link') else S('N'),ONE if nm.startswith('nondim') else L)
                        goals.append(('below the contour length',lambda v,top=top:X.sub(top,v)))
                out.append(Task(ob.name,lambda c,ob=ob,g=goals,top=top:check(c,ob,g,top)))
    return out
