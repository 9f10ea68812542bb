"""Convergence of lambert_w: every iterate of the real loop is bounded, cell by cell in W with x = W exp(W), by the solver."""
import math,time
from fractions import Fraction as F
import mpmath,z3
from expr import *
import expr as X
import oblig,norm,symex
from oblig import CALL,Ob
from special import RAW
from driver import Task,wait_native
mp=mpmath.mp
def rat(v,up):
    """rational just above / below an mpf"""
    q=F(int(mpmath.floor(mpmath.mpf(v)*mpmath.mpf(2)**110)),2**110)
    return q+F(1,2**110) if up else q
def zq(q): return z3.RealVal(str(F(q)))
def tr(e,env,memo):
    if e.id in memo: return memo[e.id]
    o=e.op
    if o=='c': r=zq(e.args[0])
    elif o=='s': r=env[e.args[0]]
    elif o=='neg': r=-tr(e.args[0],env,memo)
    elif o in('add','sub','mul','div'):
        a,b=tr(e.args[0],env,memo),tr(e.args[1],env,memo); r=a+b if o=='add' else a-b if o=='sub' else a*b if o=='mul' else a/b
    elif o=='powi' and e.args[1]>0:
        r=z3.RealVal(1); a=tr(e.args[0],env,memo)
        for _ in range(e.args[1]): r=r*a
    else: raise symex.Unsupported('step %s'%o)
    memo[e.id]=r
    return r
def run_cell(wl,wh,tol):
    """cell wl <= W <= wh (one sign)"""
    wl,wh=F(wl),F(wh); neg_=wh<=0
    def run(c):
        t0=time.time(); nq=0; w=c.W
        with mpmath.workdps(50):
            m=lambda q:mpmath.mpf(q.numerator)/q.denominator
            ends=sorted([m(wl)*mpmath.exp(m(wl)),m(wh)*mpmath.exp(m(wh))]); ends=sorted(abs(v) for v in ends)
            lo,hi=rat(ends[0],False),rat(ends[1],True); lo=max(lo,F(1,10**15))
        xe=neg(S('x')) if neg_ else S('x')
        seen=[]
        def h_exp(ex,a,n):
            ex.extra.setdefault('its',[])
            if a[0].id not in[z.id for z in ex.extra['its']]: ex.extra['its'].append(a[0])
            return fn('exp',a[0])
        def h_l10(ex,a,n):
            # log10 of a negative number is NaN, which saturating casts read as 0
            if neg_: return S('nanlog')
            return fn('log10',a[0])
        e=CALL('k_lambert',xe)
        o=Ob('l',e,e,{'x':(lo,hi),'nanlog':(F(-1),F(-1,2))},hooks=dict(RAW,**{k:h_exp for k in('llvm.exp.f64','exp')},**{k:h_l10 for k in('llvm.log10.f64','log10')}))
        def native_bad():
            nat=wait_native(c)
            for k in range(201):
                W=float(wl)+(float(wh)-float(wl))*k/200; x=W*math.exp(W)
                if x==0: continue
                ok,v=nat.call('k_lambert',x)
                with mpmath.workdps(30): tv=float(mpmath.lambertw(mpmath.mpf(x)).real)
                if not ok or not abs(v-tv)<=1e-10*max(1,abs(tv))/min(1,1+tv): return dict(x=x),(v,tv)
            return None
        def fin(why):
            r=native_bad()
            if r: return dict(status='violated',detail=why+'; the compiled function is off',env=r[0],replay=r[1],queries=nq,time=time.time()-t0)
            return dict(status='undecided',detail=why,queries=nq,time=time.time()-t0)
        try: outs=oblig.paths(w,o)
        except Exception as x: return fin('%s: %s'%(type(x).__name__,x))
        worst=0
        for oc in outs:
            if oc.kind!='ret':
                if oblig.infeasible(o,oc.conds,c.timeout): continue
                return fin('path '+oc.kind)
            its=oc.extra.get('its',[])+[oc.value[0]]
            b=symex.ival(its[0],{'x':(lo,hi)})
            if b is None: return fin('starting point not bounded')
            with mpmath.workdps(50): p,q=rat(b[0],False)-wh,rat(b[1],True)-wl
            for k in range(len(its)-1):
                cur,nxt=its[k],its[k+1]
                T=replace(nxt,{cur.id:S('a'),fn('exp',cur).id:S('A')}) if nxt is not cur else S('a')
                if neg_: T=X.subst(T,{'x':neg(S('x'))})
                if set(syms(T))-{'a','A','x'}: return fin('iterate %d does not depend on the previous one alone'%(k+1))
                cc=S('cc'); N=norm.Norm()
                try:
                    l,r,_=N.pair(T,X.subst(T,{'A':mul(S('A'),cc),'x':mul(S('x'),cc)}))
                    if l!=r: return fin('step is not scale free')
                except norm.TooBig: return fin('step too big')
                W,d,s,tt=S('W'),S('d'),S('s'),S('t'); small=max(abs(p),abs(q))<=F(3,2)
                ser=add(add(sub(ONE,d),mul(C(F(1,2)),powi(d,2))),add(mul(C(F(-1,6)),powi(d,3)),mul(mul(C(F(1,24)),tt),powi(d,4))))
                N=norm.Norm(); x,y,_=N.pair(sub(X.subst(T,{'a':add(W,d),'A':ONE,'x':mul(W,ser if small else s)}),W),ONE); x,y=oblig.common_shift(x,y)
                ix={N.atoms[i][1]:i for mm in list(x)+list(y) for i,_ in mm}
                cube=small and 'd' in ix and x and min(dict(mm).get(ix['d'],0) for mm in x)>=3
                if cube:
                    di=ix['d']; x={tuple((i,e2-3) if i==di else (i,e2) for i,e2 in mm if not(i==di and e2==3)):cf for mm,cf in x.items()}
                S_=oblig.Smt(N,{},{}); S_.scan(x); S_.scan(y); P,Q=S_.poly(x),S_.poly(y)
                V={k2:S_.var(i) for k2,i in ix.items()}; zW,zd,zs,zt=[V.get(k2) if k2 in V else z3.Real('free_'+k2) for k2 in('W','d','s','t')]
                box=[zW>=zq(wl),zW<=zq(wh),zd>=zq(p),zd<=zq(q)]
                with mpmath.workdps(50):
                    ep,eq=mpmath.exp(-m(p)),mpmath.exp(-m(q))
                    if small: box+=[zt>=zq(rat(min(mpmath.mpf(1),eq),False)),zt<=zq(rat(max(mpmath.mpf(1),ep),True))]
                    else:
                        tans=[zq(rat(mpmath.exp(-m(z)),False))*(1-(zd-zq(z))) for z in(p,(p+q)/2,q)]
                        cho=zq(rat(ep,True))+zq((rat(eq,True)-rat(ep,False))/(q-p) if q>p else F(0))*(zd-zq(p))+zq(F(1,2**90))
                        box+=[zs>=z for z in tans]+[zs<=cho]
                    Tf=lambda W_,d_:oblig.evalmp(X.subst(T,{'A':ONE}),{'a':W_+d_,'x':W_*mpmath.exp(-d_)},40)-W_
                    gr=[F(i,8) for i in range(9)]; vals=[(m(p+(q-p)*j),Tf(m(wl+(wh-wl)*i),m(p+(q-p)*j))) for i in gr for j in gr]
                def unsat(cl,to=2):
                    # affine in s: its extremes lie on the border of the enclosure of exp(-d)
                    for edge in[None]:
                        so=z3.Solver(); so.set('timeout',int(1000*min(c.timeout,to))); so.add(*box); so.add(cl)
                        if edge is not None: so.add(edge)
                        if so.check()!=z3.unsat: return False
                    return True
                dg=max([dict(mm).get(ix.get('s'),0) for mm in list(x)+list(y)])
                sg=1 if unsat(Q<=0,8) else -1 if unsat(Q>=0,8) else 0; nq+=1
                if not sg: return fin('iterate %d: the divisor may vanish'%(k+1))
                if sg<0: P,Q=-P,-Q
                done=False; mx=max(v for _,v in vals); mn=min(v for _,v in vals)
                for tries in range(12 if cube else 5):
                    nq+=2
                    if cube:
                        cc_=rat(mpmath.mpf('0.2')*mpmath.mpf(1.5)**tries,True)
                        if unsat(P>zq(cc_)*Q) and unsat(P<-zq(cc_)*Q):
                            b3=cc_*max(abs(p),abs(q))**3; b3=F(int(b3*2**200)+1,2**200); pn,qn=-b3,b3; done=True; break
                    else:
                        sl=(mx-mn)*mpmath.mpf('0.1')*2**tries+mpmath.mpf(10)**-3; pn,qn=rat(mn-sl,False),rat(mx+sl,True)
                        if unsat(P>zq(qn)*Q,1+3*tries) and unsat(P<zq(pn)*Q,1+3*tries): done=True; break
                if not done: return fin('iterate %d: bound not shown, d in [%.3g,%.3g]'%(k+1,float(p),float(q)))
                p,q=pn,qn
            e_=max(abs(p),abs(q)); worst=max(worst,float(e_))
            if e_>tol*max(1,abs(wl)): return fin('error after the last iterate only bounded by %.2g'%float(e_))
        return dict(status='proved',detail='|w - W| <= %.1e'%worst,queries=nq,paths=len(outs),time=time.time()-t0)
    return Task('lambert_w: |w - W(x)| <= %g, %s <= W <= %s'%(float(tol),'%.4g'%float(wl),'%.4g'%float(wh)),run,'math::lambert_w')
def cells(tier):
    out=[]; w=F(0)
    while w<(12 if tier=='quick' else 16):
        h=F(1,20) if w<1 else F(1,8) if w<4 else F(1,4)
        out.append((w,w+h)); w+=h
    w=F(0)
    while w>F(-75,100):
        h=F(1,20) if w>F(-1,2) else F(1,100)
        out.append((w-h,w)); w-=h
    return out
def fam_lambert(tier): return [run_cell(a,b,F(1,10**12)) for a,b in cells(tier)]
