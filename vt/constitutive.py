"""C17, C18: the hyperelastic and damage models against the integrals they document, summed over the model's own grid."""
import random,time
from fractions import Fraction as F
from expr import *
import expr as X
import oblig,norm,symex,mhooks
from oblig import CALL,Ob
from special import add_,mul_,q
from driver import Task,wait_native
import z3
M='f__efjc__thermodynamics__isometric__asymptotic__reduced__legendre__'
ETA,ENG=M+'nondimensional_force',M+'nondimensional_relative_helmholtz_free_energy'
def only(e): return e.sym in(ETA,ENG)
PAT='re:^polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::%s$'
UFH={PAT%'nondimensional_force':mhooks.uf('eta',('f64','f64')),PAT%'nondimensional_relative_helmholtz_free_energy':mhooks.uf('energy',('u8','f64','f64'))}
PI=S('$pi'); N_,K,LAM,GC,J=S('n'),S('kappa'),S('lam'),S('gc'),S('J')
sq=lambda e:powi(e,2); root=lambda e:fn('sqrt',e)
def eta(g): return CALL(ETA,K,g)
def energy(g): return CALL(ENG,N_,K,g)
def gauss(): return div(mul_(q(3,2),N_,K,add(K,ONE)),add_(sq(K),mul(C(6),K),C(3)))
def boltz(method,g):
    """weight of a chain of nondimensional length g at equilibrium, not normalised"""
    return fn('exp',neg(energy(g) if method==2 else mul(gauss(),sq(g))))
def sum_(l): return add_(*l) if l else ZERO
DOM={'kappa':(F(1,10),F(10**6)),'lam':(F(1,20),F(20)),'gc':(F(1,10),F(10)),'J':(F(1,20),F(20))}
INT={'n':(1,255)}
def sample(names,ints):
    def s(rn):
        e={'kappa':10**rn.uniform(1,2),'lam':10**rn.uniform(-.4,.4),'gc':rn.uniform(.4,1.3),'J':10**rn.uniform(-.5,.5)}
        e={k:v for k,v in e.items() if k in names}
        for k in names:
            if k not in e: e[k]=rn.uniform(.2,2)
        for k in ints: e[k]=rn.randint(2,12)
        return e
    return s
def mkob(name,l,r,names,ints=('n',),tol=1e-9,hooks=UFH,dom=None):
    D={k:(dom or {}).get(k) or DOM.get(k) or (F(1,1000),F(1000)) for k in names}
    return Ob(name,l,r,D,{k:INT[k] for k in ints},sample=sample(names,ints),tol=tol,where='constitutive',hooks=hooks)
# ---- hyperelastic ----
def hgrid(G): 
    w=[F(i+1,G+1) for i in range(G)]
    return w,[mul(q(1,2),fn('ln',q((1+x)/(1-x)))) for x in w]
def hsum(method,G,zz,rr):
    """2 pi N sum of eta/gamma (2 z^2 - r^2) r P(gamma0) over the tanh-spaced grid; gamma0^2 = zz z^2 + rr r^2; P sums to one over the radial grid"""
    w,z=hgrid(G); dw=q(F(1,G+1)); jac=[q(1/(1-x*x)) for x in w]
    nrm=mul_(C(4),PI,dw,sum_([mul_(sq(z[i]),jac[i],boltz(method,z[i])) for i in range(G)]))
    t=[]
    for i in range(G):
        for j in range(G):
            g=root(add(sq(z[i]),sq(z[j])))
            t.append(mul_(div(eta(g),g),sub(mul(C(2),sq(z[i])),sq(z[j])),z[j],jac[i],jac[j],boltz(method,root(add(mul(zz,sq(z[i])),mul(rr,sq(z[j])))))))
    return div(mul_(C(2),PI,N_,sq(dw),sum_(t)),nrm)
def fam_hyper(c):
    G=c.grid; out=[]
    for m in(2,3):
        names=('kappa','lam')
        out.append(mkob('method %d: uniaxial stress is the documented integral over the grid'%m,CALL('h_uni',C(m),N_,K,LAM),hsum(m,G,powi(LAM,-2),LAM),names))
        out.append(mkob('method %d: equibiaxial stress is minus the documented integral over the grid'%m,CALL('h_equi',C(m),N_,K,LAM),neg(hsum(m,G,powi(LAM,4),powi(LAM,-2))),names))
        out.append(mkob('method %d: equibiaxial stress at a stretch is minus the uniaxial stress at its inverse square'%m,CALL('h_equi',C(m),N_,K,LAM),neg(CALL('h_uni',C(m),N_,K,powi(LAM,-2))),names,dom={'lam':(F(1,4),F(4))}))
        e=[[S('e%d%d'%(i,j)) for j in range(G)] for i in range(G)]; z=[S('z%d'%i) for i in range(G)]; f,nr=S('factor'),S('norm')
        names=['kappa','lam','norm']+(['factor'] if m==3 else [])+[x.args[0] for r in e for x in r]+[x.args[0] for x in z]
        for eq in(0,1):
            zz,rr=(powi(LAM,4),powi(LAM,-2)) if eq else(powi(LAM,-2),LAM)
            def wt(i,j):
                g2=add(mul(zz,sq(z[i])),mul(rr,sq(z[j])))
                return fn('exp',neg(energy(root(g2)) if m==2 else mul(f,g2)))
            s=div(sum_([mul(e[i][j],wt(i,j)) for i in range(G) for j in range(G)]),nr)
            out.append(mkob('method %d: C function of the %s stress sums the tables it is given'%(m,'equibiaxial' if eq else 'uniaxial'),CALL('x_uni',C(eq),C(m),N_,K,LAM,f if m==3 else ZERO,nr,*[x for r in e for x in r],*z),neg(s) if eq else s,names))
        out.append(mkob('method %d: field nondimensional_link_stiffness'%m,CALL('h_field',ZERO,C(m),N_,K),K,('kappa',)))
        out.append(mkob('method %d: field number_of_links'%m,CALL('h_field',ONE,C(m),N_,K),N_,('kappa',)))
    return out
# ---- damage ----
def dtable(method,G):
    z=[mul(GC,q(F(i+1,G))) for i in range(G)]; d=mul(GC,q(F(1,G)))
    return z,d,mul_(C(4),PI,d,sum_([mul(sq(x),boltz(method,x)) for x in z]))
def dstep(method,G,s,mx,comp,intact):
    """one step at stretch s after the maximum stretch mx; intact(i,j): 0/1"""
    z,d,nrm=dtable(method,G); j13=fn('exp',mul(q(1,3),fn('ln',J))); t=[]
    for i in range(G):
        for j in range(G):
            k=intact(i,j)
            if k==0: continue
            g=root(add(sq(z[i]),sq(z[j]))); g0=root(add(sq(div(z[i],s)),mul(s,sq(z[j]))))
            p=boltz(method,div(g0,j13))
            t.append(mul_(p,z[j]) if comp else mul_(div(eta(g),g),sub(mul(C(2),sq(z[i])),sq(z[j])),z[j],p))
    t=sum_(t)
    # chains per volume and their distribution are both diluted by the swelling
    return div(mul_(C(4),PI,sq(d),t),mul(J,nrm)) if comp else div(mul_(C(2),PI,N_,sq(d),t),mul(sq(J),nrm))
def t_damage(method,G,L,k,top,comp,entry='d_uni',held=False):
    """step k of a history of L stretches whose largest so far is stretch number top (None: the current one; the stretch t times the current one otherwise)"""
    nm=('' if entry=='d_uni' else 'Python damage model, ')+'method %d: %s at step %d of %d, largest stretch %s, is the documented integral over the intact chains'%(method,'total probability' if comp else 'stress',k+1,L,'now' if top is None else 'at step %d'%(top+1))+(', held between' if held else '')
    T=S('t'); s=S('s%d'%k)
    st=[mul(T,s) if i==top else S('s%d'%i) for i in range(L)]
    if held: st[L-2]=st[L-3]
    names=['kappa','gc','J']+['s%d'%i for i in range(L) if i!=top and st[i].op=='s' and st[i].args[0]=='s%d'%i]+(['t'] if top is not None else [])
    code=CALL(entry,C(L),C(k),C(comp),C(method),N_,GC,K,J,*[st[i] if i<L else ONE for i in range(4)])
    mx=s if top is None else mul(T,s)
    o=mkob(nm,code,code,names,dom={x:(F(1),F(20)) for x in names if x[0]=='s'}|{'t':(F(1),F(20))})
    o.guard=[symex.Cond('<=',S('s%d'%i),mx) for i in range(k) if 's%d'%i in names and i!=top]
    z=[q(F(i+1,G)) for i in range(G)]
    tt=ONE if top is None else T
    def late(i,j): return symex.Cond('<=',add(sq(mul(z[i],tt)),div(sq(z[j]),tt)),ONE)
    def early(i,j): return symex.Cond('<=',add(sq(div(z[i],s)),mul(s,sq(z[j]))),ONE)
    def run(c):
        t0=time.time(); nq=0; w=c.W; seen={}; base=sample(names,('n',)); rn=random.Random('%s%s'%(c.seed,nm))
        def feasible(conds):
            nonlocal nq
            # conditions on one variable each, and those that relate the stretches of the history
            gr={}; conds,_=resolve(list(conds)+o.guard)
            for x in conds: gr.setdefault(frozenset(X.syms(x.a,x.b)),[]).append(x)
            multi=[x for v,l in gr.items() if len(v)>1 for x in l]
            for l in [l for v,l in gr.items() if len(v)<2]+([multi] if multi else []):
                key=frozenset((x.op,x.a.id,x.b.id,x.neg) for x in l)
                if key not in seen: nq+=1; seen[key]=not oblig.infeasible(o,list(l),c.timeout)
                if not seen[key]: return False
            return True
        def oracle(conds,cd):
            # a branch on stretches and lengths that the path already decides
            cs=[scaled(x) for x in conds]; sc=scaled(cd)
            return False if not feasible(cs+[sc]) else True if not feasible(cs+[sc.flip()]) else None
        outs=oblig.paths(w,o,oracle)
        for x in outs: x.conds=[scaled(y) for y in x.conds]
        def open_(why,conds=()):
            nat=wait_native(c); n=0
            m=model(o,conds,c.timeout) if conds else None
            while n<80:
                env=base(rn); n+=1
                for x in names:
                    if x[0]=='s': env[x]=1+rn.choice((0,rn.uniform(0,.5),rn.uniform(0,1.5)))
                    if x=='t': env[x]=1+rn.choice((rn.uniform(0,.2),rn.uniform(0,1.5)))
                if m and n%4:
                    for x in names:
                        if x in m and x[0] in 'st': env[x]=max(1,m[x]*(1+(n//8)*rn.uniform(-2e-3,2e-3)))
                    env['gc']=rn.uniform(.4,.9) if method==3 else env['gc']; env['n']=rn.randint(2,4); env['kappa']=rn.uniform(5,30)
                if not oblig.conds_hold(o.guard,env): continue
                al={}
                for i in range(G):
                    for j in range(G):
                        v=[float(X.evalmp(f(i,j).a,env,20)) for f in(late,early)]
                        al[i,j]=None if any(abs(y-1)<1e-9 for y in v) else int(max(v)<1)
                if None in al.values(): continue
                try: a=oblig.neval(nat,code,env); b=oblig.neval(nat,dstep(method,G,s,mx,comp,lambda i,j:al[i,j]),env)
                except oblig.NativePanic: return dict(status='violated',detail=why+'; the compiled model panics',env=env,replay='panic',queries=nq,paths=len(outs),time=time.time()-t0)
                except (OverflowError,ZeroDivisionError): continue
                if a!=a or b!=b: continue
                if not abs(a-b)<=1e-8*max(abs(a),abs(b))+1e-300: return dict(status='violated',detail=why+'; native lhs=%r rhs=%r'%(a,b),env=env,replay=(a,b),queries=nq,paths=len(outs),time=time.time()-t0)
            return dict(status='undecided',detail=why+'; native runs agree',queries=nq,paths=len(outs),time=time.time()-t0)
        left=None; ncase=0; wants={}
        for oc in outs:
            if oc.kind!='ret':
                if feasible(oc.conds): return open_('path %s %s'%(oc.kind,oc.msg),oc.conds)
                continue
            # which cells are intact, as the code decides it and as documented: every consistent combination
            stack=[(list(oc.conds),{},oc.value[0],[(i,j,f) for i in range(G) for j in range(G) for f in(late,early)])]
            while stack:
                conds,al,val,rest=stack.pop()
                if rest:
                    i,j,f=rest[0]
                    if f is early and al[i,j]==0: stack.append((conds,al,val,rest[1:])); continue
                    cd=f(i,j); yes=feasible(conds+[cd]); no=feasible(conds+[cd.flip()])
                    if yes: stack.append((conds+[cd] if no else conds,{**al,(i,j):1},val,rest[1:]))
                    if no: stack.append((conds+[cd.flip()] if yes else conds,{**al,(i,j):0},val,rest[1:]))
                    continue
                ind=next((x for x in topo([val]) if x.op=='fn' and x.args[0]=='ind'),None)
                if ind is not None:
                    sc=scaled(symex.Cond(ind.args[1],ind.args[2],ind.args[3]))
                    yes=feasible(conds+[sc]); no=feasible(conds+[sc.flip()])
                    for ok,bit,cc in((yes,ONE,sc),(no,ZERO,sc.flip())):
                        if ok: stack.append((conds+([cc] if yes and no else []),al,replace(val,{ind.id:bit}),[]))
                    continue
                ncase+=1; key=frozenset(a for a in al if al[a])
                if key not in wants:
                    want=dstep(method,G,s,mx,comp,lambda i,j:al[i,j])
                    ex=w.executor(dict(o.syms),dict(o.ints),o.hooks); wants[key]=ex.explore(lambda ex:oblig.symeval(w,ex,want,{}))[0].value
                nq+=1
                rc,(va,vb)=resolve(list(conds)+o.guard,[val,wants[key]])
                try: r=oblig.query_eq(o,va,vb,[],c.timeout,False)[0]
                except (norm.TooBig,norm.Undef,oblig.Unsupported) as x: r=repr(x)[:80]
                if r!='unsat' and not oblig.infeasible(o,rc,c.timeout):
                    d=open_('intact cells %s: %s'%(sorted(a for a in al if al[a]),r),conds)
                    if d['status']=='violated': return d
                    left=left or d
                    if time.time()-t0>300: return left
        return left or dict(status='proved',detail='%d paths, %d cases'%(len(outs),ncase),queries=nq,paths=len(outs),time=time.time()-t0)
    return Task(nm,run,entry)
def model(o,conds,timeout):
    """values of the inputs on a path, in the interior of the path if there are any"""
    for strict in(1,0):
        N=norm.Norm(); S_=oblig.Smt(N,o.syms,o.ints); pre=[]
        for c in conds:
            try:
                x,y,den=N.pair(c.a,c.b)
                if den: continue
                x,y=oblig.common_shift(x,y); S_.scan(x); S_.scan(y); pre.append((c,x,y))
            except (norm.TooBig,norm.Undef): pass
        sol=z3.Solver(); sol.set('timeout',int(timeout*1000))
        for c,x,y in pre:
            l,r=S_.poly(x),S_.poly(y); k={'<':l<r,'<=':l<r if strict else l<=r,'==':l==r}[c.op]
            sol.add((z3.Not(k) if not strict else l>r) if c.neg else k)
        for a in S_.ax: sol.add(a)
        if sol.check()==z3.sat:
            m=sol.model(); env={}
            for n,(var,L) in S_.names.items():
                v=m.eval(var,model_completion=True)
                try: env[n]=float(v.as_fraction() if z3.is_rational_value(v) else v.approx(20).as_fraction())**L
                except Exception: pass
            return env
    return None
def resolve(conds,also=()):
    """equal stretches (a <= b and not a < b, or a == b) replaced by one another"""
    conds=list(conds); also=list(also)
    for _ in range(8):
        le={(c.a.id,c.b.id) for c in conds if c.op=='<=' and not c.neg}|{(c.b.id,c.a.id) for c in conds if c.op=='<' and c.neg}
        hit=next((c for c in conds if (c.op=='==' and not c.neg or (c.op=='<=' and not c.neg or c.op=='<' and c.neg) and (c.b.id,c.a.id) in le) and c.a is not c.b and (c.a.op=='s' and c.a.args[0] not in X.syms(c.b) or c.b.op=='s' and c.b.args[0] not in X.syms(c.a))),None)
        if hit is None: break
        a,b=(hit.a,hit.b) if hit.a.op=='s' and hit.a.args[0] not in X.syms(hit.b) else (hit.b,hit.a)
        m={a.args[0]:b}; out=[]
        for c in conds:
            d=symex.Cond(c.op,subst(c.a,m),subst(c.b,m),c.neg)
            if d.a is d.b and (d.op in('<=','=='))!=d.neg: continue
            out.append(d)
        conds=out; also=[subst(e,m) for e in also]
    return conds,also
def scaled(cd):
    """condition on lengths with the critical length divided out (both sides are positive): squared where it is a root"""
    a,b=cd.a,cd.b
    if b.op=='s' and b.args[0]=='gc':
        if a.op=='fn' and a.args[0]=='sqrt': return symex.Cond(cd.op,subst(a.args[1],{'gc':ONE}),ONE,cd.neg)
        return symex.Cond(cd.op,subst(a,{'gc':ONE}),ONE,cd.neg)
    return cd
def fam_python(c):
    G=c.grid; out=[]
    for m in(2,3):
        for eq in(0,1): out.append(mkob('Python hyperelastic model, method %d: %s stress is that of the Rust object'%(m,'equibiaxial' if eq else 'uniaxial'),CALL('p_h_uni',C(eq),C(m),N_,K,LAM),CALL('h_equi' if eq else 'h_uni',C(m),N_,K,LAM),('kappa','lam')))
        out.append(mkob('Python hyperelastic model, method %d: attribute nondimensional_link_stiffness'%m,CALL('p_h_field',ZERO,C(m),N_,K),K,('kappa',)))
        out.append(mkob('Python hyperelastic model, method %d: attribute number_of_links'%m,CALL('p_h_field',ONE,C(m),N_,K),N_,('kappa',)))
        for L in(1,2,3):
            for k in range(L):
                if k<L-1 and L>2: continue
                for top in [None]+list(range(k)):
                    for comp in(0,1): out.append(t_damage(m,G,L,k,top,comp,'p_d_uni'))
        for i,(f,v) in enumerate((('nondimensional_link_stiffness',K),('number_of_links',N_),('nondimensional_critical_extension',GC),('swelling_ratio',J))):
            out.append(mkob('Python damage model, method %d: attribute %s'%(m,f),CALL('p_d_field',C(i),C(m),N_,GC,K,J),v,('kappa','gc','J')))
    return out
def fam_damage(c):
    G=c.grid; out=[]
    for m in(2,3):
        for L in (1,2,3,4):
            for k in range(L):
                if k<L-1 and L>2: continue
                for top in [None]+list(range(k)):
                    for comp in(0,1):
                        if c.tier=='quick' and L==4:
                            # the third stretch holds the second (which is not the largest)
                            if top in(None,0): out.append(t_damage(m,G,L,k,top,comp,held=True))
                        else: out.append(t_damage(m,G,L,k,top,comp))
        for i,(f,v) in enumerate((('nondimensional_link_stiffness',K),('number_of_links',N_),('nondimensional_critical_extension',GC),('swelling_ratio',J))):
            out.append(mkob('method %d: field %s'%(m,f),CALL('d_field',C(i),C(m),N_,GC,K,J),v,('kappa','gc','J')))
    return out
