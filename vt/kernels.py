"""C15: the crate's quadrature and root-finding kernels (math/mod.rs) on an arbitrary function, and the equations handed to them."""
import random,time
from fractions import Fraction as F
import mpmath,z3
from expr import *
import expr as X
import oblig,norm,mhooks,symex
from oblig import CALL,Ob
from special import RAW,ob,add_,mul_,q
from driver import Task,wait_native
mp=mpmath.mp
X._FN['UF:f']=lambda x:mpmath.mpf('0.4')*x+x**3/7
X._FN['UF:fp']=lambda x:mpmath.mpf('0.4')+3*x*x/7
X._FN['UF:r']=lambda j:mpmath.mpf('0.3')/(j+1)
X._FN['UF:d']=lambda j:mpmath.mpf(1)
X._FN['UF:f2']=lambda x,y:mpmath.exp(mpmath.mpf('0.3')*x-mpmath.mpf('0.1')*y)+x*x*y/7+x
def uf(n): return lambda ex,a,_:fn('UF:'+n,*a)
KH=dict(RAW,__vt_f=uf('f'),__vt_fp=uf('fp'),__vt_f2=uf('f2'))
f=lambda x:fn('UF:f',x); fp=lambda x:fn('UF:fp',x); f2=lambda x,y:fn('UF:f2',x,y)
def sum_(l):
    r=ZERO
    for e in l: r=add(r,e)
    return r
def fam_quadrature(tier):
    out=[]; a,b,c,d=[S(k) for k in 'abcd']; R=lambda *k:{x:(F(1,1000),F(1000)) for x in k}
    small=lambda *k:(lambda r:{x:r.uniform(.1,3) for x in k})
    mx=10 if tier=='quick' else 40
    for n in list(range(1,mx+1))+([64] if tier!='quick' else []):
        pt=lambda lo,hi,i:add(lo,mul(q(2*i+1,2*n),sub(hi,lo)))
        out.append(ob('integrate_1d: midpoint sum of any function, %d points'%n,CALL('k_int1',a,b,C(n)),mul(div(sub(b,a),C(n)),sum_([f(pt(a,b,i)) for i in range(n)])),R('a','b'),hooks=KH,samp=small('a','b'),tol=1e-10))
        if n<=(4 if tier=='quick' else 8):
            out.append(ob('integrate_2d: midpoint sum of any function, %d x %d points'%(n,n),CALL('k_int2',a,b,c,d,C(n)),mul_(div(sub(b,a),C(n)),div(sub(d,c),C(n)),sum_([f2(pt(a,b,i),pt(c,d,j)) for i in range(n) for j in range(n)])),R(*'abcd'),hooks=KH,samp=small(*'abcd'),tol=1e-10))
            out.append(ob('integrate_2d_symmetric: midpoint sum of any function, %d x %d points'%(n,n),CALL('k_int2s',a,b,C(n)),mul(powi(div(sub(b,a),C(n)),2),sum_([f2(pt(a,b,i),pt(a,b,j)) for i in range(n) for j in range(n)])),R(*'ab'),hooks=KH,samp=small(*'ab'),tol=1e-10))
    out.append(ob('integrate_1d_grid: weighted sum over the grid',CALL('k_int1g',a,b,c,d),mul(d,sum_([f(x) for x in(a,b,c)])),R(*'abcd'),hooks=KH,samp=small(*'abcd')))
    e,w=S('e'),S('w')
    out.append(ob('integrate_2d_grid: weighted sum over the product grid',CALL('k_int2g',a,b,c,d,e,w),mul(w,sum_([f2(x,y) for x in(a,b) for y in(c,d,e)])),R(*'abcdew'),hooks=KH,samp=small(*'abcdew')))
    out.append(ob('integrate_2d_symmetric_grid: weighted sum over the square grid',CALL('k_int2sg',a,b,c,w),mul(w,sum_([f2(x,y) for x in(a,b,c) for y in(a,b,c)])),R(*'abcw'),hooks=KH,samp=small(*'abcw')))
    return out
def nat_newton(y,g,tol,m,p):
    """reference run of the specification on the replay function"""
    F_=lambda t:float(X._FN['UF:f'](mpmath.mpf(t))); D=lambda t:float(X._FN['UF:fp'](mpmath.mpf(t)))
    xs=[g]; rs=[]
    for j in range(m):
        x=xs[-1]; rs.append(abs((y-F_(x))/y)); xs.append(x+(y-F_(x))/(p*D(x)))
    return xs,rs
def t_newton(m,p):
    """exit of the iteration after at most m steps, power p (0: the plain variant)"""
    y,g,tol=S('y'),S('g'),S('tol')
    def run(c):
        w=c.W; t0=time.time(); nq=0; D={'y':(F(1,10**6),F(10**6)),'g':(F(1,10**6),F(10**6)),'tol':(F(1,10**12),F(99,100))}
        e=CALL('k_newton',y,g,tol,C(m)) if not p else CALL('k_newtonp',y,g,tol,C(m),C(p))
        o=Ob('n',e,e,D,hooks=KH); outs=oblig.paths(w,o); k=p or 1
        xs=[g]; rs=[]
        for j in range(m): x=xs[-1]; rs.append(sub(div(f(x),y),ONE)); xs.append(add(x,div(sub(y,f(x)),mul(C(k),fp(x)))))
        bad=None
        def replay_bad():
            nat=wait_native(c)
            rn=random.Random(1)
            for _ in range(400):
                yy=10**rn.uniform(-2,1.3); gg=rn.uniform(.05,4); tt=10**rn.uniform(-9,-.3)
                ok,v=nat.call(*(['k_newton',yy,gg,tt,m] if not p else ['k_newtonp',yy,gg,tt,m,p]))
                X_,R_=nat_newton(yy,gg,tt,m,k)
                good=ok and any(abs(v-X_[j])<=1e-9*max(1,abs(v)) and (j==m or j>0 and R_[j-1]<=tt*(1+1e-6)) for j in range(1,m+1))
                if not good: return dict(y=yy,g=gg,tol=tt,max_iters=m,power=p),(v,X_)
            return None
        def open_(why):
            r=replay_bad()
            if r: return dict(status='violated',detail=why+'; native run returns a value that is no converged iterate',env=r[0],replay=r[1],queries=nq,paths=len(outs),time=time.time()-t0)
            return dict(status='undecided',detail=why+'; native replays agree',queries=nq,paths=len(outs),time=time.time()-t0)
        for oc in outs:
            if oc.kind!='ret':
                nq+=1
                if oblig.infeasible(o,oc.conds,c.timeout): continue
                return open_('path %s %s'%(oc.kind,oc.msg))
            v=oc.value[0]; j=None
            for i in range(m+1):
                nq+=1
                if oblig.query_eq(o,v,xs[i],[],c.timeout,False)[0]=='unsat': j=i; break
            if j is None:
                nq+=1
                if oblig.infeasible(o,oc.conds,c.timeout): continue
                return open_('a returned value is no iterate')
            if j==m: continue
            # claim: the last step was taken from a point with relative residual at most tol
            for sg in(ONE,C(-1)):
                nq+=1
                extra=[symex.Cond('<',tol,mul(sg,rs[j-1]))] if j else []
                if not oblig.infeasible(o,list(oc.conds)+extra,c.timeout): return open_('returns after %d of %d steps with residual above tol'%(j,m))
        return dict(status='proved',detail='%d exits'%len(outs),queries=nq,paths=len(outs),time=time.time()-t0)
    nm='inverse_newton_raphson' if not p else 'inverse_newton_raphson_powered (power %d)'%p
    return Task('%s: a Newton iterate, stopped only when converged or after %d steps'%(nm,m),run,'math')
def t_newton_long(m,p):
    """many steps: the j-th iterate's residual r_j and derivative d_j are arbitrary numbers (one pair for each different argument)"""
    y,g,tol=S('y'),S('g'),S('tol'); k=p or 1
    R_=lambda j:fn('UF:r',C(j)); D_=lambda j:fn('UF:d',C(j))
    xs=[g]
    for j in range(m): xs.append(sub(xs[-1],div(R_(j),mul(C(k),D_(j)))))
    N=norm.Norm(); memo={}
    def key(e):
        f=N.norm(e); return (tuple(sorted(f.num.items())),f.den)
    spec={}
    def find(e):
        if e.id in memo: return memo[e.id]
        if not spec: spec.update({key(x):j for j,x in enumerate(xs)})
        try: j=spec.get(key(e))
        except (norm.TooBig,norm.Undef): j=None
        memo[e.id]=j; return j
    def at(ex,a,leaf):
        j=find(a)
        return leaf(j if j is not None else 1000+a.id)
    H=dict(RAW,__vt_f=lambda ex,a,_:add(y,at(ex,a[0],R_)),__vt_fp=lambda ex,a,_:at(ex,a[0],D_))
    def run(c):
        w=c.W; t0=time.time(); nq=0; D={'y':(F(1,10**6),F(10**6)),'g':(F(1,10**6),F(10**6)),'tol':(F(1,10**12),F(99,100))}
        e=CALL('k_newton',y,g,tol,C(m)) if not p else CALL('k_newtonp',y,g,tol,C(m),C(p))
        o=Ob('n',e,e,D,hooks=H); outs=oblig.paths(w,o)
        def open_(why):
            nat=wait_native(c); rn=random.Random(c.seed)
            for it in range(400):
                yy=10**rn.uniform(-2,1.3); gg=10**rn.uniform(-1.3,12); tt=10**rn.uniform(-12,-3)
                ok,v=nat.call(*(['k_newton',yy,gg,tt,m] if not p else ['k_newtonp',yy,gg,tt,m,p]))
                X_,Q_=nat_newton(yy,gg,tt,m,k)
                if not(ok and any(abs(v-X_[j])<=1e-9*max(1,abs(v)) and (j==m or j>0 and Q_[j-1]<=tt*(1+1e-3)+1e-13) for j in range(1,m+1))):
                    return dict(status='violated',detail=why+'; native run returns a value that is no converged iterate',env=dict(y=yy,g=gg,tol=tt,max_iters=m,power=p),replay=(v,X_[:60]),queries=nq,paths=len(outs),time=time.time()-t0)
            return dict(status='undecided',detail=why+'; native replays agree',queries=nq,paths=len(outs),time=time.time()-t0)
        for oc in outs:
            if oc.kind!='ret':
                nq+=1
                if oblig.infeasible(o,oc.conds,c.timeout): continue
                return open_('path %s %s'%(oc.kind,oc.msg))
            j=find(oc.value[0])
            if j is None:
                nq+=1
                if oblig.infeasible(o,oc.conds,c.timeout): continue
                return open_('a returned value is no iterate')
            nq+=1
            if oblig.query_eq(o,oc.value[0],xs[j],[],c.timeout,False)[0]!='unsat': return open_('a returned value is no iterate')
            if j==m: continue
            near=[d for d in oc.conds if j and any(x is R_(j-1) for x in topo([d.a,d.b]))]
            for sg in(ONE,C(-1)):
                nq+=1; extra=[symex.Cond('<',tol,mul(sg,div(R_(j-1),y)))] if j else []
                if not(near and oblig.infeasible(o,near+extra,c.timeout)) and not oblig.infeasible(o,list(oc.conds)+extra,c.timeout): return open_('returns after %d of %d steps with residual above tol'%(j,m))
        return dict(status='proved',detail='%d exits'%len(outs),queries=nq,paths=len(outs),time=time.time()-t0)
    nm='inverse_newton_raphson' if not p else 'inverse_newton_raphson_powered (power %d)'%p
    return Task('%s: a Newton iterate, stopped only when converged or after %d steps, any sequence of values'%(nm,m),run,'math')
def fam_newton(tier):
    ms=range(1,4) if tier=='quick' else range(1,7)
    return [t_newton_long(100 if tier=='quick' else 255,p) for p in(0,1,2,3)]+[t_newton(m,p) for m in ms for p in(0,1,2,3)]

DOMAIN={'nondimensional_end_to_end_length_per_link':(F(1,10**6),F(999,1000))}
def start_positive(o,conds,g,timeout):
    """z3 verdict on: path and starting point <= 0 (solutions found by the inverse Langevin function are positive)"""
    rep={x.id:S('$u9%d'%i) for i,x in enumerate([x for x in topo([g]) if x.op=='fn' and x.args[0]=='INV'])}
    try:
        g=replace(g,rep); N=norm.Norm(); S_=oblig.Smt(N,o.syms,o.ints); x,y,_=N.pair(g,ONE)
        pre=[]
        for cd in conds:
            try:
                a,b,den=N.pair(replace(cd.a,rep),replace(cd.b,rep))
                if den: continue
                a,b=oblig.common_shift(a,b); S_.scan(a); S_.scan(b); pre.append((cd,a,b))
            except (norm.TooBig,norm.Undef): pass
        S_.scan(x); S_.scan(y); s=z3.Solver(); s.set('timeout',int(timeout*1000)); x,y=oblig.common_shift(x,y)
        s.add(S_.poly(x)*S_.poly(y)<=0)
        for cd,a,b in pre:
            l,r=S_.poly(a),S_.poly(b); q_={'<':l<r,'<=':l<=r,'==':l==r}[cd.op]; s.add(z3.Not(q_) if cd.neg else q_)
        for a in S_.ax: s.add(a)
        return str(s.check())
    except (norm.TooBig,norm.Undef,oblig.Unsupported,X.NoDeriv) as e: return repr(e)[:80]
def t_calls(sym,args,skip=False):
    """the equations a function hands to the root finder: derivative of the inverted function, tolerance, iteration limit"""
    def run(c):
        w=c.W; t0=time.time(); nq=0; D={}; I={}
        for k,t in args:
            if t=='u8': I[k]=(2,255)
            else: D[k]=DOMAIN.get(k,(F(1,10**9),F(10**9)))
        if ('__efjc__' in sym or '__ufjc__' in sym) and 'nondimensional_end_to_end_length_per_link' in D: D['nondimensional_end_to_end_length_per_link']=(F(1,10**6),F(100))
        if sym=='k_invlang': D={'y':(F(1,10**6),F(1)-F(1,10**9))}
        o=Ob('c',CALL(sym,*[S(k) for k,_ in args]),ZERO,D,I,hooks={'polymers::math::inverse_langevin':lambda ex,a,n:NotImplemented} if sym=='k_invlang' else None)
        if '__swfjc__' in sym:
            g='nondimensional_end_to_end_length_per_link'; D[g]=(F(1,10**6),F(10**6)); o.guard=[symex.Cond('<',mul(S(g),S('link_length')),mul(q(9999,10000),add(S('link_length'),S('well_width'))))]
        outs=oblig.paths(w,o); n=0
        def bad(why,r):
            nat=wait_native(c); rn=random.Random('%s%s'%(c.seed,sym))
            for it in range(240):
                env={k:rn.uniform(float(D[k][0]),float(D[k][1])) if float(D[k][1])<2 else rn.uniform(.01,2) if k=='nondimensional_end_to_end_length_per_link' else 10**rn.uniform(-1.5,3) for k in D}; env.update({k:rn.randint(2,40) for k in I})
                if it%2 and 'nondimensional_end_to_end_length_per_link' in env: env['nondimensional_end_to_end_length_per_link']=1+(it//2%9)*rn.choice((0,1e-12,-1e-12,1e-6,-1e-6)) if D['nondimensional_end_to_end_length_per_link'][1]>1 else rn.choice((1e-6,1e-3,.998,.5))
                ok,v=nat.call(sym,*[env[k] for k,_ in args])
                try:
                    y=float(X.evalmp(r['y'],env,30)); b=r['var'].args[0] if isinstance(r['var'],E) else r['var']
                    got=float(X.evalmp(r['F'],dict(env,**{b:v}),30))
                except Exception: continue
                if not ok or v!=v or abs(got-y)>1e-4*abs(y): return dict(status='violated',detail=why+'; the compiled function returns a value that does not solve its equation',env=env,replay=(v,got,y),queries=nq,paths=len(outs),time=time.time()-t0)
            return dict(status='undecided',detail=why+'; native replays solve their equation',queries=nq,paths=len(outs),time=time.time()-t0)
        for oc in outs:
            for r in oc.extra.get('inv',[]):
                b=r['var'].args[0] if isinstance(r['var'],E) else r['var']; n+=1
                nq+=1; v=start_positive(o,oc.conds,r['guess'],c.timeout)
                if v!='unsat': return bad('the root finder may start from a force that is not positive (%s)'%v,r)
                if r['dF'] is None: continue
                if r['tol'].op=='c' and not 0<r['tol'].args[0]<=F(1,10**5): return bad('tolerance %s'%show(r['tol']),r)
                if isinstance(r['iters'],int) and r['iters']<50: return bad('at most %d iterations'%r['iters'],r)
                if skip and any(z.op=='fn' and z.args[0]=='INV' for z in topo([r['dF']])): continue
                nq+=1
                try: v=oblig.query_eq(o,diff(r['F'],b),r['dF'],[],c.timeout,False)[0]
                except (norm.TooBig,norm.Undef,oblig.Unsupported,X.NoDeriv) as x: v=repr(x)[:80]
                if v!='unsat': return bad('the derivative given to the root finder is not that of the inverted function (%s)'%v,r)
        return dict(status='proved',detail='%d calls on %d paths'%(n,len(outs)),queries=nq,paths=len(outs),time=time.time()-t0)
    return Task('root finding in %s: exact derivative, tolerance at most 1e-5, at least 50 iterations allowed'%sym.split('__',1)[-1].replace('__','::'),run,sym)
def call_sites(c):
    out=[]
    for e in c.ents:
        if e.kind=='free' and e.name in('nondimensional_force','nondimensional_end_to_end_length_per_link') and ('legendre' in e.mod and 'isometric' in e.mod or 'lennard_jones' in e.mod) and not 'wlc' in e.mod and not 'monte' in e.mod:
            out.append((e.sym,e.args,'lennard_jones' in e.mod))
    return out
def fam_calls(c):
    return [t_calls(s,a,k) for s,a,k in call_sites(c)]+[t_calls('k_invlang',[('y','f64')])]
def fam_invlang(tier):
    y=S('y'); b=S('$b1'); H={'polymers::math::inverse_langevin':lambda ex,a,n:NotImplemented}
    def truth(env):
        v=env['y']
        with mpmath.workdps(30):
            v=mpmath.mpf(v)
            if v<mpmath.mpf('1e-2'): return 3*v+9*v**3/5+297*v**5/175
            x=v*(3-v*v)/(1-v*v)
            for _ in range(60): x=x-(mpmath.coth(x)-1/x-v)/(1/x**2-mpmath.csch(x)**2)
            return x
    o=[ob('inverse_langevin: solves coth x - 1/x = y, 1e-3 < y < 1',CALL('k_invlang',y),fn('INV',b,sub(div(ONE,fn('tanh',b)),div(ONE,b)),y,ONE),{'y':(F(1001,10**6),F(1)-F(1,10**6))},hooks=H,truth=(CALL('k_invlang',y),truth,1e-7),tol=1e-7),
       ob('inverse_langevin: 3y + 9y^3/5 to 1e-6, 0 < y <= 1e-3',CALL('k_invlang',y),add(mul(C(3),y),mul(q(9,5),powi(y,3))),{'y':(F(1,10**9),F(1,1000))},hooks=H,band=(y,F(3,10**6)),truth=(CALL('k_invlang',y),truth,2e-6))]
    return o
