"""Definedness: every operation a function performs is defined (no division by zero, no logarithm, root or power outside its domain, no
panic, no integer overflow) for every argument in the domain. The conditions are recorded by the executor where the operations occur."""
import re,time,random
from fractions import Fraction as F
from expr import *
import expr as X
import norm,positivity,oblig,genharness
from symex import Cond
from families import free,callf,mkob,guards,is_treloar,NDARG,FO,L,KT,NL,sampler,reach
from oblig import symeval,specsub as subst0
from driver import Task
ZEROSTATE=C(F(1,10**6))
def domain(m,f):
    """the published domain of the models whose link potential has a largest tension (also at the code's reference state)"""
    ks={k for k,_ in f.args}; g=[]
    nd=lambda k,d:S(k) if k in ks or d in ks else None
    eta,kap,eps=nd('nondimensional_force','force'),nd('nondimensional_link_stiffness','link_stiffness'),nd('nondimensional_link_energy','link_energy')
    if kap is None: return g
    for h in ([eta] if eta is not None else [])+[ZEROSTATE]:
        if 'morse' in m and eps is not None: g.append(Cond('<',mul(C(8),powi(h,2)),mul(eps,kap)))
        if 'log_squared' in m: g.append(Cond('<',h,div(kap,fn('exp',ONE))))
        if 'lennard' in m: g.append(Cond('<',h,mul(kap,C(F(455,10000)))))
    return g
OVER={'lennard_jones':{'nondimensional_force':(0.2,1.9)}}
def key(k,e,cs):
    """identity of a condition up to the names of bound variables"""
    es=[e]+[x for c in cs for x in (c.a,c.b)]; m={}
    for x in topo(es):
        if x.op=='s' and x.args[0][:2]=='$v': m.setdefault(x.args[0],S('$w%d'%len(m)))
    if m: es=[subst(x,m) for x in es]
    return (k,tuple(x.id for x in es),tuple((c.op,c.neg) for c in cs))
FAILS={'above -1/e':lambda e:Cond('<=',e,ZERO),'nonzero':lambda e:Cond('==',e,ZERO),'positive':lambda e:Cond('<=',e,ZERO),'nonnegative':lambda e:Cond('<',e,ZERO),
       'above -1':lambda e:Cond('<=',e,C(-1)),'within 1':lambda e:Cond('<',ONE,powi(e,2))}
def generalise(e,n=6):
    """the repeated parts, largest first: what is read as any positive number"""
    cnt={}
    for x in topo([e]):
        for a in x.args:
            if isinstance(a,E): cnt[a.id]=cnt.get(a.id,0)+1
    c=[x for x in topo([e]) if x.op not in('c','nf','s') and x is not e and cnt.get(x.id,0)>=2]
    return sorted(c,key=lambda x:-X.size(x))[:n]
def replace(e,x,y):
    memo={x.id:y}
    for n in topo([e]):
        if n.id in memo: continue
        memo[n.id]=n if n.op in('c','s','nf') else rebuild(n,[memo[a.id] if isinstance(a,E) else a for a in n.args])
    return memo[e.id]
def holds(kind,e,P):
    if kind=='nonzero': return P.nonzero(e)
    if kind in('positive','above -1/e'): return P.pos(e,True)
    if kind=='nonnegative': return P.pos(e,False)
    if kind=='above -1': return P.pos(X.add(e,ONE),True)
    if kind=='within 1': return P.pos(X.sub(ONE,powi(e,2)),False)
    return False
def powers(e,syms,ints,cs):
    """a number above 1 to a negative constant power is between 0 and 1, to a positive one above 1"""
    syms=dict(syms); extra=[]; memo={}; P=positivity.Prover(syms,ints,cs)
    for x in topo([e]+[c.a for c in cs]+[c.b for c in cs]):
        if x.op=='fn' and x.args[0]=='powf' and x.args[2].op=='c' and not any('$' in v for v in X.syms(x)-{'$pi'}) and P.sign(X.sub(x.args[1],ONE))=='+':
            n='$p%d'%len(memo); q=x.args[2].args[0]; memo[x]=S(n); syms[n]=(F(0),F(1)) if q<0 else (F(1),F(10**60))
            extra+=[Cond('<',S(n),ONE) if q<0 else Cond('<',ONE,S(n))]
    if not memo: return e,syms,cs
    for x in sorted(memo,key=lambda x:-X.size(x)):
        e=replace(e,x,memo[x]); cs=[Cond(c.op,replace(c.a,x,memo[x]),replace(c.b,x,memo[x]),c.neg) for c in cs]
    return e,syms,list(cs)+extra
def folded(e):
    """products of powers brought to lowest terms (kT/l l/kT = 1)"""
    memo={}
    for n in topo([e]):
        r=n if n.op in('c','s','nf') else rebuild(n,[memo[a.id] if isinstance(a,E) else a for a in n.args])
        if r.op in('mul','div','powi') and X.size(r)<40 and X.syms(r) and all(x.op in('c','s','mul','div','powi') for x in topo([r])):
            t={}; c=monomial(r,1,t)
            if c is not None:
                r=C(c)
                for v,k in sorted(t.items()):
                    if k>0: r=mul(r,powi(S(v),k))
                for v,k in sorted(t.items()):
                    if k<0: r=div(r,powi(S(v),-k))
        memo[n.id]=r
    return memo[e.id]
def monomial(e,k,t):
    if e.op=='c': return None if e.args[0]==0 and k<0 else F(e.args[0])**k
    if e.op=='s': t[e.args[0]]=t.get(e.args[0],0)+k; return F(1)
    if e.op=='powi': return monomial(e.args[0],k*e.args[1],t)
    a=monomial(e.args[0],k,t); b=monomial(e.args[1],k if e.op=='mul' else -k,t)
    return None if a is None or b is None else a*b
def prove(kind,e,syms,ints,cs,bounds,stat,limit=8):
    P=positivity.Prover(syms,ints,cs,bounds)
    if settled(kind,e,P): return True,[]
    e=folded(e); cs=[Cond(c.op,folded(c.a),folded(c.b),c.neg) for c in cs]; bounds={v:(folded(l),folded(h)) for v,(l,h) in bounds.items()}
    e,syms,cs=powers(e,syms,ints,cs)
    P=positivity.Prover(syms,ints,cs,bounds)
    if settled(kind,e,P): return True,[]
    memo=stat.setdefault('memo',{}); ids={x.id for x in topo([e])}; gs=[]; wide=dict(syms,**{'$g':(F(0),F(10**60))})
    for cand in [ZEROSTATE]+generalise(e):
        if cand.id not in ids: continue
        if cand is not ZEROSTATE and not positivity.Prover(syms,ints,cs,bounds,timeout=0.7,limit=1).pos(cand): continue
        g=replace(e,cand,S('$g')); gs.append(g)
        if settled(kind,g,positivity.Prover(wide,ints,cs,bounds)): return True,[]
    def go(x,sy,to,lim):
        sx=X.syms(x); rel=[c for c in cs if X.syms(c.a,c.b)&sx-{'$pi'}]
        q=(key(kind,x,rel),tuple((v,l.id,h.id) for v,(l,h) in bounds.items() if v in sx),to)
        if q not in memo:
            P=positivity.Prover(sy,ints,rel,bounds,timeout=to,limit=lim); memo[q]=(holds(kind,x,P),P.models); stat['q']+=P.queries
        return memo[q]
    if ZEROSTATE.id in ids and go(gs[0],wide,0.7,4)[0]: return True,[]
    ok,models=go(e,syms,0.7,2)
    if ok: return True,[]
    # the shortest rest first
    for g in sorted(gs[ZEROSTATE.id in ids:],key=X.size):
        if go(g,wide,0.7,4)[0]: return True,[]
    ok,m=go(e,syms,4,limit)
    return ok,m or models
def settled(kind,e,P):
    """from the structure alone"""
    s=P.sign(e if kind!='above -1' else X.add(e,ONE))
    return s=='+' or kind=='nonzero' and s=='-' or kind=='nonnegative' and s=='0'
def explore(c,ob):
    ex=c.W.executor(dict(ob.syms),dict(ob.ints),ob.hooks); ex.defs=True
    outs=ex.explore(lambda ex:symeval(c.W,ex,ob.lhs,{}),ob.guard or ()); c.W.note(ex)
    return outs
def check(c,ob,panics=False):
    t0=time.time(); stat=dict(q=0); opened=[]; n=0; seen=set(); skipped=0
    try: outs=explore(c,ob)
    except Exception as x:
        if isinstance(x,MemoryError): raise
        return dict(status='unencodable',detail='%s: %s'%(type(x).__name__,x),time=time.time()-t0)
    late=0
    for o in outs:
        b=o.extra.get('bound',{}); newton={v for v,r in b.items() if r is None}; roots=o.extra.get('newton',{}); defs=o.extra.get('defs',[])
        # a root is a place where the inverted function is defined
        facts=[]
        for v,root in roots.items():
            for k,e,cs in defs:
                if v in X.syms(e) and not any('$' in s and s!=v for s in X.syms(e)-{'$pi'}) and k in('positive','nonnegative','above -1/e'):
                    try: facts.append(Cond('<=' if k=='nonnegative' else '<',ZERO,subst(e,{v:root})))
                    except Exception: pass
        if o.kind=='panic' and ob.allow_panic: skipped+=1; continue
        if o.kind!='ret':
            stat['q']+=1; 
            if not oblig.infeasible(ob,o.conds,10): opened.append((o.kind+': '+str(o.msg),None,o.conds,facts,[]))
        good=set()
        for k,e,cs in () if panics else sorted(defs,key=lambda t:t[0]=='nonzero'):
            sy=X.syms(e)
            if sy&newton: skipped+=1; continue
            n+=1; q=key(k,e,cs)
            if q in seen or k=='nonzero' and ('positive',)+q[1:] in good: continue
            seen.add(q)
            if time.time()-t0>(80 if c.tier=="quick" else 300): late+=1; continue
            bd={v:r for v,r in b.items() if r is not None and v in sy}
            ok,models=prove(k,e,ob.syms,ob.ints,list(cs),bd,stat)
            if not ok and facts: ok,models=prove(k,e,ob.syms,ob.ints,list(cs)+facts,bd,stat)
            if ok and k=='positive': good.add(q)
            if not ok: opened.append((k,e,list(cs),facts,models))
    d=dict(paths=len(outs),queries=stat['q'],time=time.time()-t0,detail='%d conditions (%d distinct)%s'%(n,len(seen),', %d on root-finder iterates left out'%skipped if skipped else ''))
    if late: opened.append(('time',None,[],[],[]))
    if not opened: return dict(d,status='proved')
    from driver import wait_native
    nat=wait_native(c)
    for k,e,cs,facts,models in opened:
        v=search(nat,ob,k,e,cs,facts,models,c.seed)
        if v: return dict(d,status='violated',detail='%s of %s on a path with %s: native %s'%(k,show(e)[:200] if e is not None else '-',' & '.join(str(q) for q in cs)[:300],v[1]),env=v[0],replay=v[1])
    return dict(d,status='undecided',detail=d['detail']+'; open: '+'; '.join('%s %s'%(k,show(e)[:120] if e is not None else '') for k,e,_,_,_ in opened[:4])+' (native replays stay finite)')
def value(nat,ob,env):
    try: v=oblig.neval(nat,ob.lhs,env)
    except oblig.NativePanic as p: return 'panics'
    except (OverflowError,ZeroDivisionError,ValueError): return None
    if v!=v: return 'returns NaN'
    if v in(float('inf'),-float('inf')): return 'returns %r'%v
    return v
def really(k,e,env):
    """in exact arithmetic too, not only through rounding: the operation is undefined at (or, for divisors, next to) the input"""
    if e is None: return True
    if any('$' in s for s in X.syms(e)-{'$pi'}): return True
    try:
        v=X.evalmp(e,env,60)
        if k=='nonzero':
            if v==0: return True
            return any((X.evalmp(e,dict(env,**{x:env[x]*r}),60)>0)!=(v>0) for x in X.syms(e)&set(env) for r in (1-1e-9,1+1e-9))
        return {'above -1/e':v<-1e-9,'positive':v<=0,'nonnegative':v<0,'above -1':v<=-1,'within 1':abs(v)>1}[k]
    except Exception: return False
def search(nat,ob,k,e,cs,facts,models,seed):
    """an input at which the compiled function fails"""
    free_e=e is not None and not any('$' in s for s in X.syms(e)-{'$pi'})
    want=list(cs)+([FAILS[k](e)] if free_e and k in FAILS and k!='nonzero' else [])
    # values chosen by the solver where exact arithmetic can confirm the failure, else ordinary ones
    if not free_e or e is None or any(x.op=='fn' and x.args[0] in('INT','INV') for x in topo([e])): models=[]
    for m in (models[:3] or [None]):
        for env in oblig.candidates(ob,seed,24,m,want):
            if ob.guard and oblig.unmet(ob.guard,env): continue
            v=value(nat,ob,env)
            if k=='above -1/e' and free_e and not isinstance(v,str) and not oblig.unmet(cs,env) and really(k,e,env): v='returns %r, from lambert_w of a number below -1/e'%v
            if isinstance(v,str) and not(v=='panics' and ob.allow_panic) and not oblig.unmet(facts,env) and really(k,e,env): return env,v
    try: return free_e and k=='nonzero' and pole(nat,ob,e,cs,seed) or None
    except (ArithmeticError,ValueError,TypeError): return None
def pole(nat,ob,e,cs,seed):
    if True:
        # a zero of a divisor between two inputs: adjacent numbers around it
        rng=random.Random('%s/%s/pole'%(seed,ob.name)); t0=time.time()
        for _ in range(12):
            if time.time()-t0>20: break
            a=ob.sample(rng)
            for x in sorted(set(X.syms(e))&set(ob.syms)):
                g=lambda t:X.evalmp(e,dict(a,**{x:t}),30); pts=[a[x]*1.15**i for i in range(-25,26)]; prev=None
                for t in pts:
                    try: y=g(t)
                    except Exception: prev=None; continue
                    if prev and prev[1]*y<=0:
                        p,q=prev[0],t; sp=prev[1]
                        for _ in range(200):
                            m=(p+q)/2
                            if m in(p,q): break
                            if g(m)*sp>0: p=m
                            else: q=m
                        ends=[dict(a,**{x:z}) for z in (p,q)]
                        # inside the domain, not at its edge
                        if any(not oblig.dom_ok(ob,env) or ob.guard and oblig.unmet(ob.guard,env) or oblig.unmet(cs,env) for env in [dict(a,**{x:z*r}) for z in (p,q) for r in (0.999,1,1.001)]): continue
                        for env in ends:
                            z=env[x]
                            v=value(nat,ob,env); w=[value(nat,ob,dict(a,**{x:z*r})) for r in (0.98,1.02)]
                            if isinstance(v,str) and not(v=='panics' and ob.allow_panic): return env,v
                            if isinstance(v,float) and all(isinstance(u,float) for u in w) and abs(v)>1e7*max(abs(u) for u in w): return env,'returns %r next to %r: a pole'%(v,w)
                    prev=(t,y)
    return None
UNKNOWN={'link_stiffness':lambda:div(mul(S('nondimensional_link_stiffness'),KT),powi(L,2)),'link_energy':lambda:mul(S('nondimensional_link_energy'),KT),
 'force':lambda:div(mul(S('nondimensional_force'),KT),L),'end_to_end_length':lambda:mul(S('nondimensional_end_to_end_length_per_link'),NL()),
 'potential_distance':lambda:mul(S('nondimensional_potential_distance'),NL()),'potential_stiffness':lambda:div(mul(S('nondimensional_potential_stiffness'),KT),powi(L,2)),
 'persistance_length':lambda:mul(S('nondimensional_persistance_length'),NL())}
def fam_defined(tier,only=None):
    out=[]
    for mod,fs in free().items():
        # the WLC transform: powers and exponentials of an inverted power series under an integral, beyond the prover
        if mod.startswith('wlc::thermodynamics::isotensional'): continue
        for nm,f in fs.items():
            if only and only not in f.sym: continue
            kw={}
            for a,o in OVER.items():
                if a in mod: kw['over']=o
            if 'over' not in kw and reach(mod) is not ONE: kw['over']={'nondimensional_end_to_end_length_per_link':(0.12,1.4)}
            # every dimensional argument is some nondimensional one times its unit
            call=callf(f,{k:UNKNOWN[k]() for k,_ in f.args if k in UNKNOWN})
            ns=[None]
            if is_treloar(mod) and 'modified' not in mod: ns+=[3,6] if tier=='quick' else [2,3,4,5,6,7,9,12]
            if is_treloar(mod) and 'modified' not in mod: ns.append(255)
            for n in ns:
                # the largest link count, near full extension: the longest exact sums are out of reach, their integer arithmetic is not
                kn=dict(kw,dom={'nondimensional_end_to_end_length_per_link':(F(99,100),F(999999999,10**9))},over={'nondimensional_end_to_end_length_per_link':(0.9902,0.998)}) if n==255 else kw
                ob=mkob('%s::%s is defined'%(mod,nm),call,ZERO,mod,Nconc=n,**kn)
                ob.guard=guards([call],mod)+domain(mod,f)
                if n is None and is_treloar(mod) and ob.ints: ob.ints={'N':(2,255)}
                if n is not None:
                    for g in ob.guard: g.a=subst0(g.a,{'N':C(n)}); g.b=subst0(g.b,{'N':C(n)})
                if n==255 and nm not in('nondimensional_force','nondimensional_equilibrium_distribution','nondimensional_gibbs_free_energy'): continue
                out.append(Task(ob.name.replace("is defined","does not overflow") if n==255 else ob.name,lambda c,ob=ob,p=n==255:check(c,ob,p)))
    return out
