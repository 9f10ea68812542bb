"""C14: the crate's own special functions (math/mod.rs), executed without reading them as operators, against the equations that define them."""
import math,random
from fractions import Fraction as F
import mpmath
from expr import *
import expr as X
from oblig import Ob,CALL,DIFF
import mhooks
mp=mpmath
def _real(ex,a,n): return NotImplemented
RAW={k:_real for k in mhooks.MH if k.startswith('polymers::math::')}
ZR=lambda a,b,*xs:{**{k:v for k,v in xs}}
def add_(*a):
    r=a[0]
    for b in a[1:]: r=add(r,b)
    return r
def mul_(*a):
    r=a[0]
    for b in a[1:]: r=mul(r,b)
    return r
def q(a,b=1): return C(F(a)/F(b))
def rnd(lo,hi,log=False):
    def f(r,k): return {k:math.exp(r.uniform(math.log(lo),math.log(hi))) if log else r.uniform(lo,hi)}
    return f
def ob(name,l,r,syms,band=None,truth=None,samp=None,tol=1e-10,hooks=RAW,where='math',ints=()):
    def sample(rn):
        e={}
        for k,(lo,hi) in syms.items():
            lo,hi=float(lo),float(hi); lo=max(lo,1e-9)
            e[k]=math.exp(rn.uniform(math.log(lo),math.log(hi))) if hi/lo>1000 else rn.uniform(lo,hi)
        for k,(lo,hi) in dict(ints).items(): e[k]=rn.randint(lo,hi)
        return e
    o=Ob(name,l,r,syms,ints=ints,sample=samp or sample,tol=tol,where=where,hooks=hooks,band=band); o.truth=truth
    return o
x_=S('x'); z_=S('z'); u_=S('u')
PI=S('$pi')
def erfcx(e): return CALL('k_erfcx',e)
def tr(e,f,rtol):
    """replay reference: compiled value of e against the mpmath function of the inputs"""
    def g(env):
        with mp.workdps(40): return f(*[mp.mpf(env[k]) for k in sorted(env)])
    return (e,g,rtol)
import os
EPS=F(os.environ.get('VT_EPS','1'))
def ref(f):
    """reference constant, 45 digits"""
    with mp.workdps(60):
        v=f(); return C(F(mp.nstr(v,45)))
def fam_erf(tier):
    out=[]
    # x = 400/z - 4 covers 0 <= x < 50 by 400/54 < z <= 100: one polynomial piece per integer part of z
    xz=sub(div(C(400),z_),C(4)); y=erfcx(xz)
    res=sub(mul_(q(-1,400),powi(z_,2),DIFF('z',y)),mul_(C(2),xz,y))
    t=tr(y,lambda z:mp.erfc(400/z-4)*mp.exp((400/z-4)**2),1e-12)
    for i in range(7,100):
        lo=F(i) if i>7 else F(400,54)+F(1,10**9)
        out.append(ob('erfcx: dy/dx = 2 x y - 2/sqrt(pi) to 1e-11, 400/(4+x) in [%d,%d)'%(i,i+1),res,neg(div(C(2),fn('sqrt',PI))),{'z':(lo,F(i+1)-F(1,10**12))},band=(ONE,EPS*F(1,10**11)),truth=t))
    for i in range(8,100):
        a=sub(div(C(400),C(i)),C(4)); b=sub(div(C(400),C(F(i)-F(1,10**20))),C(4))
        v=ref(lambda:mp.erfc(mp.mpf(400)/i-4)*mp.exp((mp.mpf(400)/i-4)**2))
        for s,e in((' from below',a),('',b)): out.append(ob('erfcx: value at 400/(4+x) = %d%s'%(i,s),erfcx(e),v,{},band=(v,EPS*F(1,10**14))))
    x0=C(50); v=ref(lambda:mp.erfc(50)*mp.exp(2500))
    out.append(ob('erfcx: value at x = 50',erfcx(x0),v,{},band=(v,EPS*F(1,10**9))))
    out.append(ob('erfcx: value at x = 50 from below',erfcx(sub(x0,q(1,10**20))),v,{},band=(v,EPS*F(1,10**14))))
    out.append(ob('erfcx(0) = 1',erfcx(ZERO),ONE,{},band=(ONE,EPS*F(1,10**14))))
    # asymptotic range: u = 1/x; sqrt(pi) x erfcx(x) lies between consecutive partial sums 1 - u^2/2 + 3u^4/4 - 15u^6/8 + 105u^8/16
    xu=div(ONE,u_); h=mul_(fn('sqrt',PI),xu,erfcx(xu))
    ser=add_(ONE,neg(mul(q(1,2),powi(u_,2))),mul(q(3,4),powi(u_,4)),neg(mul(q(15,8),powi(u_,6))),mul(q(105,16),powi(u_,8)))
    out.append(ob('erfcx: asymptotic series for 50 <= x <= 1e9 to 1e-9',h,ser,{'u':(F(1,10**9),F(1,50))},band=(ONE,EPS*F(1,10**9)),truth=tr(erfcx(xu),lambda u:mp.mpf(1)/u*0+mp.erfc(1/u)*mp.exp(1/u**2) if u>1e-4 else u/mp.sqrt(mp.pi)*(1-u**2/2+3*u**4/4),1e-9)))
    D={'x':(F(1,10**9),F(61,10))}
    X2=powi(x_,2)
    out.append(ob('erfcx(-x) + erfcx(x) = 2 exp(x^2), 0 < x <= 6.1',add(erfcx(neg(x_)),erfcx(x_)),mul(C(2),fn('exp',X2)),D,tol=1e-12))
    out.append(ob('erfcx(-x) = 2 exp(x^2), 6.1 < x <= 26',erfcx(neg(x_)),mul(C(2),fn('exp',X2)),{'x':(F(61001,10000),26)},tol=1e-12))
    D2={'x':(F(1,10**9),F(26))}
    for sg in(1,-1):
        a=x_ if sg>0 else neg(x_); nm='x' if sg>0 else '-x'
        out.append(ob('erfc(%s) exp(x^2) = erfcx(%s)'%(nm,nm),mul(CALL('k_erfc',a),fn('exp',X2)),erfcx(a),D2,tol=1e-11))
        out.append(ob('erf(%s) + erfc(%s) = 1'%(nm,nm),add(CALL('k_erf',a),CALL('k_erfc',a)),ONE,D2,tol=1e-12))
    out.append(ob('erf(-x) = -erf(x), 0 < x <= 6.1',CALL('k_erf',neg(x_)),neg(CALL('k_erf',x_)),D,tol=1e-12,samp=lambda r:dict(x=r.uniform(.1,6))))
    return out
def fam_bessel(tier):
    out=[]; K=30
    def taylor(nu):
        t=mul(q(1,4),powi(x_,2)); r=ZERO
        for k in range(K,-1,-1): r=add(q(1,math.factorial(k)*math.factorial(k+nu)),mul(t,r)) if k<K else q(1,math.factorial(k)*math.factorial(k+nu))
        return r if nu==0 else mul_(q(1,2),x_,r)
    for nu in(0,1):
        I=lambda e,nu=nu:CALL('k_bessel',C(nu),e)
        t=tr(I(x_),lambda x,nu=nu:mp.besseli(nu,x),1e-10)
        N=12 if tier=='quick' else 31
        out.append(ob('I%d: power series to 1e-12, 0 < x < 7.75'%nu,I(x_),taylor(nu),{'x':(F(1,10**6),F(775,100)-F(1,10**12))},band=(taylor(nu),EPS*F(1,10**12)),truth=t))
        # I = e^x/sqrt(x) w(1/x): u^2 w'' + 2 u w' - 2 w' + (1/4 - nu^2) w = 0
        xu=div(ONE,u_); w=mul_(I(xu),fn('sqrt',xu),fn('exp',neg(xu)))
        dw=DIFF('u',w); d2=DIFF('u',dw)
        res=add_(mul(powi(u_,2),d2),mul_(C(2),u_,dw),mul(C(-2),dw),mul(C(F(1,4)-nu*nu),w))
        tu=tr(I(xu),lambda u,nu=nu:mp.besseli(nu,1/u),1e-10)
        for nm,lo,hi,eps in(('7.75 <= x < 500',F(1,500)+F(1,10**12),F(100,775),F(1,10**8)),('500 <= x <= 700',F(1,700),F(1,500),F(1,10**8))):
            out.append(ob('I%d: modified Bessel equation to %g, %s'%(nu,float(eps),nm),res,ZERO,{'u':(lo,hi)},band=(ONE,EPS*eps),truth=tu))
        for c,eps in((F(775,100),F(1,10**13)),(F(500),F(1,10**12))):
            for s,d in(('',0),(' from below',F(1,10**20))):
                e=C(c-d); a=mul_(I(e),fn('exp',neg(e)))
                v=ref(lambda:mp.besseli(nu,mp.mpf(c.numerator)/c.denominator)*mp.exp(-mp.mpf(c.numerator)/c.denominator))
                out.append(ob('I%d: value at x = %g%s'%(nu,float(c),s),a,v,{},band=(v,EPS*eps)))
    return out
