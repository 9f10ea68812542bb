"""C16: the Monte Carlo samplers. Every random draw is a symbol; geometry of the sampled chains and bookkeeping of the histograms."""
import random,time,itertools
from fractions import Fraction as F
import mpmath,z3
from expr import *
import expr as X
import oblig,norm,symex
from oblig import CALL,DIFF,Ob
from special import ob,add_,mul_,q
from driver import Task,wait_native
U=(F(1,10**12),1-F(1,10**12)); PIS=S('$pi')
NU=dict(fjc=6,efjc=6,frc=16,efrc=12); PER=dict(fjc=2,efjc=2,frc=4,efrc=4); NN=dict(fjc=0,efjc=3,frc=0,efrc=3); HU=dict(fjc=12,efjc=12,frc=24,efrc=24); HN=dict(fjc=0,efjc=6,frc=0,efrc=6)
th=S('theta')
def lam(i): return S('l%d'%i)
def cargs(m,used,lams,shift=0,nu=None,nn=None):
    """arguments after the indices: angle, mean and deviation, normal draws (giving link lengths l_i), uniform draws"""
    a=[]
    if 'r' in m: a.append(th)
    if m[0]=='e':
        mm,ss=S('m'),S('s'); a+=[mm,ss]
        a+=[div(sub(lam(shift+i),mm),ss) if i<lams else ZERO for i in range(nn or NN[m])]
    return a+[S('u%d'%(shift*PER[m]+i)) if i<used else q(1,2) for i in range(nu or NU[m])]
def coord(m,n,i,k):
    return CALL('c_'+m,C(n),C(i),C(k),*cargs(m,PER[m]*(i+1),i+1))
def link(m,n,i): return [sub(coord(m,n,i,k),coord(m,n,i-1,k)) if i else coord(m,n,0,k) for k in range(3)]
def dot(a,b): return add_(*[mul(x,y) for x,y in zip(a,b)])
def dom(m,n):
    D={'u%d'%i:U for i in range(PER[m]*n)}
    if 'r' in m: D['theta']=(F(1,1000),F(157,100))
    if m[0]=='e': D.update({'l%d'%i:(F(1,1000),F(1000)) for i in range(n)}); D.update(m=(F(1,10),F(10)),s=(F(1,100),F(10)))
    return D
def fam_geometry(tier):
    out=[]
    for m in('fjc','efjc','frc','efrc'):
        top=3 if m in('fjc','efjc') else 2
        for n in range(1,top+1):
            for i in range(n):
                if i<n-1 and n<top: continue
                l=link(m,n,i); D=dom(m,i+1)
                L2=powi(lam(i),2) if m[0]=='e' else ONE
                out.append(ob('%s: link %d of %d has the drawn length'%(m,i+1,n),dot(l,l),L2,D,tol=1e-8))
                if 'r' in m and i: 
                    Lp=mul(lam(i),lam(i-1)) if m[0]=='e' else ONE
                    out.append(ob('%s: links %d and %d of %d enclose the given angle'%(m,i,i+1,n),dot(l,link(m,n,i-1)),mul(Lp,fn('cos',th)),D,tol=1e-7))
            D=dom(m,n)
            e=CALL('e_'+m,C(n),*cargs(m,PER[m]*n,n)); c=[coord(m,n,n-1,k) for k in range(3)]
            out.append(ob('%s: end-to-end length of %d links is the norm of the last position'%(m,n),powi(e,2),dot(c,c),D,tol=1e-8))
    return out
def either(name,alts):
    """holds when one of the alternative obligations does (the property does not say which draw plays which part)"""
    def run(c):
        t0=time.time(); nq=np_=0; kept=[]
        for o in alts:
            R,op=oblig.solve(c.W,o,c.timeout); nq+=R.queries; np_+=R.paths
            if R.status=='proved': return dict(status='proved',detail=o.name,queries=nq,paths=np_,time=time.time()-t0)
            kept.append((o,R,op))
        nat=wait_native(c); bad=[]
        for o,R,op in kept:
            R=oblig.settle(nat,o,R,op,c.seed); bad.append(R)
        if all(R.status=='violated' for R in bad):
            R=bad[0]; return dict(status='violated',detail=R.detail,env=R.env,replay=R.replay,queries=nq,paths=np_,time=time.time()-t0)
        return dict(status='undecided',detail='; '.join(R.detail for R in bad)[:300],queries=nq,paths=np_,time=time.time()-t0)
    return Task(name,run,'monte_carlo')
def cross(a,b): return [sub(mul(a[1],b[2]),mul(a[2],b[1])),sub(mul(a[2],b[0]),mul(a[0],b[2])),sub(mul(a[0],b[1]),mul(a[1],b[0]))]
def fam_uniform(tier):
    out=[]
    for m in('fjc','efjc'):
        for i in range(3 if tier!='quick' else 2):
            l=link(m,3,i); D=dom(m,i+1); a,b='u%d'%(2*i),'u%d'%(2*i+1)
            L=lam(i) if m[0]=='e' else ONE
            # area element of the direction: constant 4 pi, whatever the two draws
            j=dot(l,cross([DIFF(a,x) for x in l],[DIFF(b,x) for x in l]))
            out.append(ob('%s: link %d covers the sphere with constant density 1/4pi'%(m,i+1),powi(j,2),mul_(C(16),powi(PIS,2),powi(L,6)),D,tol=1e-4))
            # antipodal symmetry under a reflection of the draws
            def refl(mm): return [oblig.specsub(x,mm) for x in l]
            Dh=dict(D); al=[]
            for s_,t_ in((a,b),(b,a)):
                r=refl({s_:sub(ONE,S(s_)),t_:add(S(t_),q(1,2))}); D2=dict(D); D2[t_]=(F(1,10**6),F(1,2)-F(1,10**6))
                al.append([ob('%s%d'%('xyz'[k],i),add(r[k],l[k]),ZERO,D2,tol=1e-8,band=(L,F(1,10**9))) for k in range(3)])
            for k in range(3): out.append(either('%s: direction of link %d is symmetric under reversal, component %s'%(m,i+1,'xyz'[k]),[x[k] for x in al]))
            if m[0]=='e':
                for k in range(3): out.append(ob('efjc: direction of link %d is independent of its length, component %s'%(i+1,'xyz'[k]),mul(S('l%d'%i),DIFF('l%d'%i,l[k])),l[k],D,tol=1e-6))
    for m in('fjc','efjc'):
        for i in((0,11,23) if tier=='quick' else range(24)):
            la=[S('l0')] if m[0]=='e' else []; L=la[0] if la else ONE; D=dom(m,1)
            l=[CALL('l_'+m,C(i),C(k),*la,S('u0'),S('u1')) for k in range(3)]
            out.append(ob('%s: link %d of 24 has the drawn length'%(m,i+1),dot(l,l),powi(L,2),D,tol=1e-8))
            j=dot(l,cross([DIFF('u0',x) for x in l],[DIFF('u1',x) for x in l]))
            out.append(ob('%s: link %d of 24 covers the sphere with constant density'%(m,i+1),powi(j,2),mul_(C(16),powi(PIS,2),powi(L,6)),D,tol=1e-4))
    for m in('frc','efrc'):
        for i in range(2):
            l=link(m,2,i); D=dom(m,i+1); L=lam(i) if m[0]=='e' else ONE
            al=[]
            for d in range(4):
                v='u%d'%(4*i+d); dl=[DIFF(v,x) for x in l]
                al.append(ob(v,dot(dl,dl),mul_(C(4),powi(PIS,2),powi(fn('sin',th),2),powi(L,2)),D,tol=1e-4))
            out.append(either('%s: link %d turns uniformly about the previous one, whatever the reference direction'%(m,i+1),al))
            if m[0]=='e':
                for k in range(3): out.append(ob('efrc: direction of link %d is independent of its length, component %s'%(i+1,'xyz'[k]),mul(S('l%d'%i),DIFF('l%d'%i,l[k])),l[k],D,tol=1e-6))
    return out
# ---- histograms ----
def zr(e,env,memo):
    """z3 term; what is no polynomial is an unconstrained real, the same one for the same expression"""
    if e.id in memo: return memo[e.id]
    o=e.op
    if o=='c': r=z3.RealVal(str(e.args[0]))
    elif o in('add','sub','mul','div'):
        a,b=zr(e.args[0],env,memo),zr(e.args[1],env,memo); r=a+b if o=='add' else a-b if o=='sub' else a*b if o=='mul' else a/b
    elif o=='neg': r=-zr(e.args[0],env,memo)
    elif o=='powi' and 0<e.args[1]<6:
        r=zr(e.args[0],env,memo); b=r
        for _ in range(e.args[1]-1): r=r*b
    else:
        r=z3.Real('v%d'%e.id); env[e.id]=(e,r)
    memo[e.id]=r
    return r
def hargs(m,ns,n):
    a=[]
    if m[0]=='e': a+=[S('gmax'),S('kappa')]
    if 'r' in m: a.append(th)
    # normal draws giving link lengths l_i at mean 1 and deviation 1/sqrt(kappa)
    if m[0]=='e': a+=[S('n%d'%i) for i in range(HN[m])]
    return a+[S('u%d'%i) for i in range(HU[m])]
def eargs(m,n,s):
    """arguments of e_ for sample s"""
    a=[]
    if 'r' in m: a.append(th)
    if m[0]=='e': a+=[ONE,div(ONE,fn('sqrt',S('kappa')))]+[S('n%d'%(s*n+i)) if i<n else ZERO for i in range(NN[m])]
    return a+[S('u%d'%(s*n*PER[m]+i)) if i<n*PER[m] else q(1,2) for i in range(NU[m])]
def t_hist(m,n,ns):
    def run(c):
        w=c.W; t0=time.time(); nq=0
        D={'u%d'%i:U for i in range(HU[m])}; D.update(theta=(F(1,1000),F(157,100)),kappa=(F(1,10),F(10**6)),gmax=(F(1,1000),F(1000)))
        for i in range(6): D['n%d'%i]=(F(-50),F(50))
        ex=w.executor({k:v for k,v in D.items()},{},None)
        hs=[CALL('h_'+m,C(n),C(ns),C(b),*hargs(m,ns,n)) for b in range(6)]
        gs=[CALL('e_'+m,C(n),*eargs(m,n,s)) for s in range(ns)]
        def th_(ex):
            memo={}
            return [oblig.symeval(w,ex,g,memo) for g in gs],[oblig.symeval(w,ex,h,memo) for h in hs]
        outs=ex.explore(th_); w.note(ex)
        g0=None
        for o in outs:
            if o.kind=='ret': g0,h0=o.value; break
        def nat_bad():
            nat=wait_native(c); rn=random.Random('%s%s%d%d'%(c.seed,m,n,ns)); ok_=0
            for t in range(600):
                env={k:rn.random() for k in D if k[0]=='u'}; env['theta']=rn.uniform(.05,1.5); env['kappa']=10**rn.uniform(0,3)
                for i in range(6): env['n%d'%i]=rn.gauss(0,1)
                env['gmax']=rn.uniform(.4,1.5)
                try: g=[oblig.neval(nat,e,env)/n for e in gs]
                except oblig.NativePanic: continue
                try: h=[oblig.neval(nat,e,env) for e in hs]
                except oblig.NativePanic:
                    if m in('fjc','frc') or max(g)<env['gmax']*(1-1e-9): return env,('panic',g)
                    continue
                cs=h[3:]; ed=[0,(cs[0]+cs[1])/2,(cs[1]+cs[2])/2]; ed.append(2*cs[2]-ed[2])
                if m[0]=='e' and abs(ed[3]/env['gmax']-1)>1e-9: return env,(cs,env['gmax'])
                if any(abs(x-y)<1e-9 for x in g for y in ed): continue
                for b in range(3):
                    k=sum(ed[b]<=x<ed[b+1] for x in g)
                    if abs(h[b]*(ed[b+1]-ed[b])*ns-k)>1e-9: return env,(h,g)
            return None
        def open_(why):
            r=nat_bad()
            if r: return dict(status='violated',detail=why+'; confirmed by a native run',env=r[0],replay=r[1],queries=nq,paths=len(outs),time=time.time()-t0)
            return dict(status='undecided',detail=why+'; native runs agree',queries=nq,paths=len(outs),time=time.time()-t0)
        if g0 is None: return open_('no run returns')
        for o in outs:
            env={}; memo={}
            g=[zr(e,env,memo) for e in g0]; cs=[zr(e,env,memo) for e in h0[3:]]
            gv=[x/n for x in g]
            ed=[z3.RealVal(0),(cs[0]+cs[1])/2,(cs[1]+cs[2])/2]; ed.append(2*cs[2]-ed[2])
            sol=z3.Solver(); sol.set('timeout',c.timeout*1000)
            sol.add(cs[0]>0,cs[1]>cs[0],cs[2]>cs[1],cs[1]-cs[0]==2*cs[0],cs[2]-cs[1]==2*cs[0])
            for x in gv:
                sol.add(x>=0,x<ed[3]); sol.add(*[x!=y for y in ed])
            if m[0]=='e': sol.add(ed[3]==zr(S('gmax'),env,memo))
            okc=True
            for cd in o.conds:
                l,r=zr(cd.a,env,memo),zr(cd.b,env,memo); t={'<':l<r,'<=':l<=r,'==':l==r}[cd.op]; sol.add(z3.Not(t) if cd.neg else t)
            if o.kind=='ret':
                hv=[zr(e,env,memo) for e in o.value[1][:3]]
                sol.add(z3.Or(*[hv[b]*(ed[b+1]-ed[b])*ns!=z3.Sum([z3.If(z3.And(ed[b]<=x,x<ed[b+1]),z3.RealVal(1),z3.RealVal(0)) for x in gv]) for b in range(3)]))
            nq+=1; v=sol.check()
            if v!=z3.unsat: return open_('%s path: %s'%(o.kind if o.kind=='ret' else o.kind+' '+str(o.msg),v))
        return dict(status='proved',detail='%d paths'%len(outs),queries=nq,paths=len(outs),time=time.time()-t0)
    return Task('%s: histogram of %d chains of %d links: every length inside the range is counted once in its bin, unit normalisation'%(m,ns,n),run,'h_'+m)
SPAN={2:[],3:[(1,0,-1)],4:[(1,1,-1,-1)],5:[(0,0,1,0,-1),(1,0,-1,0,0),(1,1,0,-1,-1)]}
def t_span(n):
    """links of unit length at a fixed angle (both shown of the code) reach at most n times the range found in the code's bin centres"""
    def run(c):
        t0=time.time(); w=c.W
        e=CALL('h_frc',C(n),ONE,C(4),th,*[S('u%d'%i) if i<n*4 else q(1,2) for i in range(HU['frc'])])
        D=dict(dom('frc',n)); o_=ob('x',e,e,D); outs=[o for o in oblig.paths(w,o_) if o.kind=='ret']; nq=0
        def fail(why):
            nat=wait_native(c); rn=random.Random(str(c.seed)+'span%d'%n)
            for _ in range(20000):
                env={k:rn.random() for k in D}; env['theta']=rn.uniform(.2,1.5)
                for i in range(n): env['u%d'%(4*i)]=rn.choice((0,.25,.5,.75))+rn.uniform(-.05,.05)
                env={k:abs(v) for k,v in env.items()}
                try: oblig.neval(nat,CALL('h_frc',C(n),ONE,C(4),th,*[S('u%d'%i) if i<n*4 else q(1,2) for i in range(HU['frc'])]),env)
                except oblig.NativePanic:
                    L=oblig.neval(nat,CALL('e_frc',C(n),*cargs('frc',4*n,n)),env)
                    return dict(status='violated',detail=why+'; the histogram panics on a chain of length %g per link'%(L/n),env=env,replay=('panic',L/n),queries=nq,paths=len(outs),time=time.time()-t0)
            return dict(status='undecided',detail=why,queries=nq,paths=len(outs),time=time.time()-t0)
        for o in outs:
            N=norm.Norm(); f=N.norm(powi(mul(C(2*n),o.value[0]),2)); k=N.norm(fn('cos',th))
            (m,cc),=k.num.items(); ci=m[0][0]
            if f.den or any(mm not in((),m) for mm in f.num): return fail('range of another form')
            cv=z3.Real('c'); bound=z3.Sum([zq(v)*(cv if mm else z3.RealVal(1)) for mm,v in f.num.items()]+[z3.RealVal(0)])
            g={(i,j):z3.RealVal(1) if i==j else cv if j==i+1 else z3.Real('g%d%d'%(i,j)) for i in range(n) for j in range(i,n)}
            sq=lambda w_:z3.Sum([(1 if i==j else 2)*w_[i]*w_[j]*g[i,j] for i in range(n) for j in range(i,n) if w_[i]*w_[j]]+[z3.RealVal(0)])
            sol=z3.Solver(); sol.add(cv>0,cv<1,*[sq(v)>=0 for v in SPAN[n]]); sol.add(sq([1]*n)>bound); nq+=1
            if sol.check()!=z3.unsat: return fail('a chain can be longer than the range')
        return dict(status='proved' if outs else 'undecided',detail='%d paths'%len(outs),queries=nq,paths=len(outs),time=time.time()-t0)
    return Task('frc: no chain of %d links is longer than the range of the histogram'%n,run,'h_frc')
zq=lambda x:z3.RealVal(str(F(x)))
def fam_hist(tier):
    out=[]
    for m in('fjc','efjc','frc','efrc'):
        Ns=dict(fjc=(2,3),efjc=(1,2,3),frc=(2,3,4),efrc=(1,2))[m]
        for n in Ns:
            if tier=='quick' and n>2 and m in('frc','efrc') and m!='frc': continue
            for ns in((1,2,3) if n<3 or 'r' not in m or tier!='quick' else (1,)):
                if ns*n*PER[m]>HU[m] or ns*n>6: continue
                out.append(t_hist(m,n,ns))
        # bin centres and range
        for n in dict(fjc=(1,2,3),efjc=(1,2,3),frc=(2,3,4,5),efrc=(1,2,3))[m]:
            for b in range(3):
                if m=='fjc': g=ONE
                elif m[0]=='e': g=S('gmax')
                else: g=fn('sqrt',div(add(mul(C(n*n-n%2),mul(q(1,2),add(ONE,fn('cos',th)))),C(n%2)),C(n*n)))
                D={'theta':(F(1,1000),F(157,100)),'gmax':(F(1,1000),F(1000)),'kappa':(F(1,10),F(10**6))}
                a=[{'theta':th,'gmax':S('gmax'),'kappa':S('kappa')}[k] for k in dict(fjc=(),efjc=('gmax','kappa'),frc=('theta',),efrc=('gmax','kappa','theta'))[m]]
                D={k:v for k,v in D.items() if any(x.args[0]==k for x in a)}
                out.append(ob('%s: bin %d of 3 for %d links is centred where it should'%(m,b+1,n),CALL('h_'+m,C(n),ONE,C(b+3),*a,*[S('n%d'%i) if i<n else ZERO for i in range(HN[m])],*[S('u%d'%i) if i<n*PER[m] else q(1,2) for i in range(HU[m])]),mul_(g,q(2*b+1,6)),dict(D,**{'u%d'%i:U for i in range(n*PER[m])},**({'n%d'%i:(F(1,100),F(2)) for i in range(n)} if m[0]=='e' else {})),tol=1e-10)); out[-1].allow_panic=True
    # no chain is longer than the range: the difference of the squares is a sum of squares
    def r(m,n): return [link(m,n,i) for i in range(n)]
    def lc(cs,ls): return [add_(*[mul(C(k),l[j]) for k,l in zip(cs,ls)]) for j in range(3)]
    sq=lambda v:dot(v,v)
    for n in(2,3):
        l=r('fjc',n); e=CALL('e_fjc',C(n),*cargs('fjc',2*n,n))
        s=add_(*[sq(lc([1,-1],[l[i],l[j]])) for i in range(n) for j in range(i)])
        out.append(ob('fjc: %d links are at most %d long'%(n,n),sub(C(n*n),powi(e,2)),s,dom('fjc',n),tol=1e-6,band=None))
    for n in(2,3,4,5): out.append(t_span(n))
    n=2; e=CALL('e_frc',C(n),*cargs('frc',4*n,n)); G=mul(C(2),CALL('h_frc',C(n),ONE,C(4),th,*[S('u%d'%i) if i<n*4 else q(1,2) for i in range(HU['frc'])]))
    out.append(ob('frc: 2 links span the range of the histogram exactly',powi(mul(G,C(n)),2),powi(e,2),dom('frc',n),tol=1e-6)); out[-1].allow_panic=True
    return out
