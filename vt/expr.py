"""Hash-consed real-valued expression DAG: what the symbolic executor builds for f64 data."""
from fractions import Fraction
import math, struct, sys
import mpmath
sys.setrecursionlimit(200000)
F=Fraction
class E:
    __slots__=('op','args','id','_h')
    def __repr__(s): return show(s)
_tab={}
def mk(op,*args):
    k=(op,)+tuple(a.id if isinstance(a,E) else ('v',a) for a in args)
    e=_tab.get(k)
    if e is None:
        e=E(); e.op=op; e.args=args; e.id=len(_tab); _tab[k]=e
    return e
def C(q): return mk('c',F(q))
def S(n): return mk('s',n)
PI=S('$pi')
ZERO=C(0); ONE=C(1)
def isc(e): return e.op=='c'
class NonFinite(Exception): pass
def add(a,b):
    if a.op=='c':
        if b.op=='c': return C(a.args[0]+b.args[0])
        if a.args[0]==0: return b
    if b.op=='c' and b.args[0]==0: return a
    return mk('add',a,b)
def sub(a,b):
    if a.op=='c' and b.op=='c': return C(a.args[0]-b.args[0])
    if b.op=='c' and b.args[0]==0: return a
    if a.op=='c' and a.args[0]==0: return neg(b)
    if a is b: return ZERO
    return mk('sub',a,b)
def neg(a):
    if a.op=='c': return C(-a.args[0])
    if a.op=='neg': return a.args[0]
    return mk('neg',a)
def mul(a,b):
    if a.op=='c':
        if b.op=='c': return C(a.args[0]*b.args[0])
        if a.args[0]==0: return ZERO
        if a.args[0]==1: return b
        if a.args[0]==-1: return neg(b)
    if b.op=='c':
        if b.args[0]==0: return ZERO
        if b.args[0]==1: return a
        if b.args[0]==-1: return neg(a)
    return mk('mul',a,b)
def div(a,b):
    if b.op=='c':
        if b.args[0]==0: raise NonFinite('division by zero')
        if a.op=='c': return C(a.args[0]/b.args[0])
        if b.args[0]==1: return a
    if a.op=='c' and a.args[0]==0: return ZERO
    return mk('div',a,b)
def powi(a,n):
    if n==0: return ONE
    if n==1: return a
    if a.op=='c':
        if a.args[0]==0 and n<0: raise NonFinite('0 to a negative power')
        if abs(n)<4096: return C(a.args[0]**n)
    return mk('powi',a,n)
def fn(name,*a):
    if name in('sin','cos') and a[0].op=='fn' and a[0].args[0]=='acos':
        c=a[0].args[1]; return c if name=='cos' else fn('sqrt',sub(ONE,mul(c,c)))
    if name=='abs' and a[0].op=='c': return C(abs(a[0].args[0]))
    if name=='ceil' and a[0].op=='c': return C(math.ceil(a[0].args[0]))
    if name=='floor' and a[0].op=='c': return C(math.floor(a[0].args[0]))
    if name=='round' and a[0].op=='c': 
        q=a[0].args[0]; return C(math.floor(abs(q)+F(1,2))*(1 if q>=0 else -1))
    if name=='trunc' and a[0].op=='c': return C(math.trunc(a[0].args[0]))
    if a and isinstance(a[0],E) and a[0].op=='c':
        q=a[0].args[0]
        if q==0:
            if name in('sin','sinh','tanh','tan','asin','atan','erf','atanh','log1p','expm1'): return ZERO
            if name in('exp','cosh','cos'): return ONE
            if name=='sqrt': return ZERO
        if q==1:
            if name=='ln' or name=='log10': return ZERO
            if name=='sqrt': return ONE
        if name=='sqrt' and q>0:
            n,d=math.isqrt(q.numerator),math.isqrt(q.denominator)
            if n*n==q.numerator and d*d==q.denominator: return C(F(n,d))
    if name=='powf':
        b=a[1]
        if b.op=='c' and b.args[0].denominator==1 and abs(b.args[0])<4096: return powi(a[0],int(b.args[0]))
        if b.op=='c' and b.args[0]==F(1,2): return fn('sqrt',a[0])
    return mk('fn',name,*a)

def _near(v,w): return v==w
_consts=[]
for q in (F(1),F(2),F(1,2),F(1,3),F(1,4),F(1,6),F(1,8),F(4),F(3),F(8),F(4,3)):
    _consts.append((float(mpmath.mpf(q.numerator)*mpmath.pi/q.denominator),lambda q=q:mul(C(q),PI)))
_consts+= [(1/math.pi,lambda:div(ONE,PI)),(2/math.pi,lambda:div(C(2),PI)),(1.1283791670955126,lambda:div(C(2),fn('sqrt',PI))),(0.5641895835477563,lambda:div(ONE,fn('sqrt',PI))),
 (math.log(2),lambda:fn('ln',C(2))),(math.sqrt(2),lambda:fn('sqrt',C(2))),(math.sqrt(0.5),lambda:div(ONE,fn('sqrt',C(2)))),(math.e,lambda:fn('exp',ONE)),(math.sqrt(math.pi),lambda:fn('sqrt',PI)),(math.log(10),lambda:fn('ln',C(10)))]
_consts={v:f for v,f in _consts}
_litc={}
_pipow=[(k,math.pi**k) for k in(1,-1,2,-2)]
def lit(v):
    """A double literal: read as the mathematical constant it stands for (pi, ln 2, ...), a small-denominator rational,
    or the shortest decimal that rounds to it."""
    if v in _litc: return _litc[v]
    if v!=v or v in(math.inf,-math.inf): return mk('nf',repr(v))
    r=None
    if v in _consts: r=_consts[v]()
    elif -v in _consts: r=neg(_consts[-v]())
    else:
        q=F(repr(v)) if v==v else None
        if v!=0 and len(repr(v).replace('.','').lstrip('-0').split('e')[0])>=16:
            g=F('%.12g'%v)
            if abs(float(g)/v-1)<=4.5e-16: r=C(g); _litc[v]=r; return r
        if v!=0 and q.denominator>10**12:
            for k,pk in _pipow:
                w=v/pk; g=F(w).limit_denominator(128)
                if g!=0 and abs(g.numerator)<=512 and abs(float(g)/w-1)<=4.5e-16:
                    r=mul(C(g),PI) if k==1 else div(C(g),PI) if k==-1 else mul(C(g),powi(PI,2)) if k==2 else div(C(g),powi(PI,2)); _litc[v]=r; return r
            g=F(v).limit_denominator(2000)
            if g!=0 and float(g)==v: q=g
        r=C(q)
    _litc[v]=r
    return r
def bits2f(b): return struct.unpack('<d',struct.pack('<Q',b))[0]
def f2bits(v): return struct.unpack('<Q',struct.pack('<d',v))[0]

_prec={'add':1,'sub':1,'mul':2,'div':2,'neg':3,'powi':4}
def show(e,depth=12):
    if depth==0: return '…'
    o=e.op
    if o=='c': return str(e.args[0]) if e.args[0].denominator==1 or len(str(e.args[0]))<12 else repr(float(e.args[0]))
    if o=='s': return e.args[0]
    if o=='nf': return e.args[0]
    if o in('add','sub','mul','div'):
        return '(%s %s %s)'%(show(e.args[0],depth-1),{'add':'+','sub':'-','mul':'*','div':'/'}[o],show(e.args[1],depth-1))
    if o=='neg': return '-%s'%show(e.args[0],depth-1)
    if o=='powi': return '%s^%d'%(show(e.args[0],depth-1),e.args[1])
    return '%s(%s)'%(e.args[0],', '.join(show(a,depth-1) if isinstance(a,E) else str(a) for a in e.args[1:]))

def topo(roots):
    seen=set(); out=[]
    st=[(r,False) for r in roots]
    while st:
        e,d=st.pop()
        if d: out.append(e); continue
        if e.id in seen: continue
        seen.add(e.id); st.append((e,True))
        for a in e.args:
            if isinstance(a,E) and a.id not in seen: st.append((a,False))
    return out
def size(e): return len(topo([e]))
def syms(*es): return {x.args[0] for x in topo(es) if x.op=='s'}
def rebuild(e,args):
    o=e.op
    if o=='add': return add(*args)
    if o=='sub': return sub(*args)
    if o=='mul': return mul(*args)
    if o=='div': return div(*args)
    if o=='neg': return neg(*args)
    if o=='powi': return powi(*args)
    if o=='fn': return fn(*args)
    return e
def binder(x): return x.op=='fn' and x.args[0] in('INT','INV')
def subst(e,m,memo=None):
    """m: {sym name: E}, capture avoiding (a binder of the same name shadows the mapping)"""
    memo={} if memo is None else memo
    st=[(e,False)]
    while st:
        x,d=st.pop()
        if x.id in memo: continue
        sh=binder(x) and x.args[1].args[0] in m
        if not d:
            st.append((x,True))
            if sh:
                ins=x.args[2:4] if x.args[0]=='INT' else x.args[3:]
            else: ins=x.args
            for a in ins:
                if isinstance(a,E) and a.id not in memo: st.append((a,False))
            continue
        if x.op=='s': memo[x.id]=m.get(x.args[0],x)
        elif x.op in('c','nf'): memo[x.id]=x
        elif sh:
            m2={k:v for k,v in m.items() if k!=x.args[1].args[0]}; bi=5 if x.args[0]=='INT' else 2
            args=[]
            for i,a in enumerate(x.args):
                if i==1 or not isinstance(a,E): args.append(a)
                elif i==bi: args.append(subst(a,m2) if m2 else a)
                else: args.append(memo[a.id])
            memo[x.id]=rebuild(x,args)
        else: memo[x.id]=rebuild(x,[memo[a.id] if isinstance(a,E) else a for a in x.args])
    return memo[e.id]
def replace(e,m):
    """m: {E.id: E}: replace whole sub-expressions."""
    memo=dict(m)
    for x in topo([e]):
        if x.id in memo: continue
        if x.op in('c','nf','s'): memo[x.id]=x
        else: memo[x.id]=rebuild(x,[memo[a.id] if isinstance(a,E) else a for a in x.args])
    return memo[e.id]

class NoDeriv(Exception): pass
def diff(e,x,memo=None):
    memo={} if memo is None else memo
    for n in topo([e]):
        if n.id in memo: continue
        o=n.op
        if o=='c': r=ZERO
        elif o=='s': r=ONE if n.args[0]==x else ZERO
        elif o=='add': r=add(memo[n.args[0].id],memo[n.args[1].id])
        elif o=='sub': r=sub(memo[n.args[0].id],memo[n.args[1].id])
        elif o=='neg': r=neg(memo[n.args[0].id])
        elif o=='mul':
            a,b=n.args; r=add(mul(memo[a.id],b),mul(a,memo[b.id]))
        elif o=='div':
            a,b=n.args; da,db=memo[a.id],memo[b.id]
            r=div(da,b) if db is ZERO else sub(div(da,b),div(mul(n,db),b))
        elif o=='powi':
            a,k=n.args; da=memo[a.id]
            r=ZERO if da is ZERO else mul(mul(C(k),powi(a,k-1)),da)
        elif o=='fn':
            nm=n.args[0]; a=n.args[1:]
            if nm=='INT':   # INT(bound var, lo, hi, n, integrand): linear functional of the integrand
                v,lo,hi,k,f=a
                if memo[lo.id] is not ZERO or memo[hi.id] is not ZERO: raise NoDeriv('INT limits')
                d=diff(f,x); r=ZERO if d is ZERO else fn('INT',v,lo,hi,k,d)
            elif nm=='INV': # INV(bound var, F, y, ...): the u with F(u)=y
                v,f,y=a[:3]
                dF=subst(diff(f,v.args[0]),{v.args[0]:n}); dp=subst(diff(f,x),{v.args[0]:n})
                r=div(sub(memo[y.id],dp),dF)
            elif nm=='TS':
                if memo[a[0].id] is not ZERO: raise NoDeriv('TS in N')
                r=mul(mul(C(F(-1,2)),mul(sub(sub(a[0],C(2)),a[2]),mk('fn','TS',a[0],a[1],C(a[2].args[0]+1)))),memo[a[1].id])
            elif nm.startswith('UF:'):
                r=ZERO
                for i,b in enumerate(a):
                    if memo[b.id] is not ZERO: r=add(r,mul(mk('fn',nm+'/%d'%i,*a),memo[b.id]))
            else:
                if nm=='ind':
                    if any(memo[b.id] is not ZERO for b in a[1:]): raise NoDeriv('indicator')
                    memo[n.id]=ZERO; continue
                u=a[0]; du=memo[u.id]
                if all(memo[b.id] is ZERO for b in a if isinstance(b,E)): r=ZERO
                elif nm=='exp': r=mul(n,du)
                elif nm=='ln': r=div(du,u)
                elif nm=='log1p': r=div(du,add(ONE,u))
                elif nm=='expm1': r=mul(add(n,ONE),du)
                elif nm=='log10': r=div(du,mul(u,fn('ln',C(10))))
                elif nm=='sqrt': r=div(du,mul(C(2),n))
                elif nm=='cbrt': r=div(du,mul(C(3),powi(n,2)))
                elif nm=='sinh': r=mul(fn('cosh',u),du)
                elif nm=='cosh': r=mul(fn('sinh',u),du)
                elif nm=='tanh': r=mul(sub(ONE,powi(n,2)),du)
                elif nm=='sin': r=mul(fn('cos',u),du)
                elif nm=='cos': r=neg(mul(fn('sin',u),du))
                elif nm=='atanh': r=div(du,sub(ONE,powi(u,2)))
                elif nm=='erf': r=mul(div(mul(C(2),fn('exp',neg(powi(u,2)))),fn('sqrt',PI)),du)
                elif nm=='erfc': r=neg(mul(div(mul(C(2),fn('exp',neg(powi(u,2)))),fn('sqrt',PI)),du))
                elif nm=='erfcx': r=mul(sub(mul(mul(C(2),u),n),div(C(2),fn('sqrt',PI))),du)
                elif nm=='bessel_i0': r=mul(fn('bessel_i1',u),du)
                elif nm=='bessel_i1': r=mul(sub(fn('bessel_i0',u),div(n,u)),du)
                elif nm=='lambert_w': r=mul(div(n,mul(u,add(ONE,n))),du)
                elif nm=='powf':
                    v=a[1]; dv=memo[v.id]
                    r=mul(mul(v,fn('powf',u,sub(v,ONE))),du)
                    if dv is not ZERO: r=add(r,mul(mul(n,fn('ln',u)),dv))
                elif nm=='abs': r=mul(div(n,u),du)
                elif nm=='inverse_langevin': # L(n)=u
                    r=div(du,sub(powi(n,-2),powi(fn('sinh',n),-2)))
                else: raise NoDeriv(nm)
        else: raise NoDeriv(o)
        memo[n.id]=r
    return memo[e.id]

# ---- numeric evaluation (mpmath) -------------------------------------------------------------
def evalmp(e,env,dps=40,memo=None):
    with mpmath.workdps(dps):
        return _ev(e,env,{} if memo is None else memo)
def _ev(e,env,memo):
    mp=mpmath
    def skip(x): return x.op=='fn' and x.args[0] in('INT','INV')
    # manual topo that does not descend under binders
    st=[(e,False)]
    while st:
        x,d=st.pop()
        if x.id in memo: continue
        if not d:
            st.append((x,True))
            sub_=x.args
            if skip(x): sub_=x.args[2:5] if x.args[1 - 0]=='INT' else ()
            if x.op=='fn' and x.args[0]=='INT': sub_=x.args[2:4]
            if x.op=='fn' and x.args[0]=='INV': sub_=x.args[3:4]
            for a in sub_:
                if isinstance(a,E) and a.id not in memo: st.append((a,False))
            continue
        o=x.op
        if o=='c': r=mp.mpf(x.args[0].numerator)/x.args[0].denominator
        elif o=='s':
            n=x.args[0]
            r=mp.pi() if n=='$pi' else mp.mpf(env[n])
        elif o=='nf': r=mp.mpf(x.args[0])
        elif o=='add': r=memo[x.args[0].id]+memo[x.args[1].id]
        elif o=='sub': r=memo[x.args[0].id]-memo[x.args[1].id]
        elif o=='mul': r=memo[x.args[0].id]*memo[x.args[1].id]
        elif o=='div': r=memo[x.args[0].id]/memo[x.args[1].id]
        elif o=='neg': r=-memo[x.args[0].id]
        elif o=='powi': r=memo[x.args[0].id]**x.args[1]
        else:
            nm=x.args[0]
            if nm=='INT':
                v,lo,hi,k,f=x.args[1:6]; lo=memo[lo.id]; hi=memo[hi.id]; dx=(hi-lo)/k; s=mp.mpf(0)
                for i in range(k):
                    env2=dict(env); env2[v.args[0]]=lo+(mp.mpf(i)+mp.mpf(1)/2)*dx
                    s+=_ev(f,env2,{})
                r=s*dx
            elif nm=='INV':
                v,f,y=x.args[1:4]; g=x.args[4]
                yv=memo[y.id]
                def ff(u):
                    env2=dict(env); env2[v.args[0]]=u; return _ev(f,env2,{})-yv
                x0=_ev(g,env,{})
                r=mp.findroot(ff,(x0,x0*mp.mpf('1.01')+mp.mpf('1e-9')),solver='secant',tol=1e-30,maxsteps=200,verify=False)
            else:
                a=[memo[b.id] if isinstance(b,E) else b for b in x.args[1:]]
                r=_FN[nm](*a)
        memo[x.id]=r
    return memo[e.id]
_FN=dict(exp=mpmath.exp,ln=mpmath.log,log1p=mpmath.log1p,expm1=mpmath.expm1,log10=mpmath.log10,sqrt=mpmath.sqrt,cbrt=mpmath.cbrt,sinh=mpmath.sinh,cosh=mpmath.cosh,tanh=mpmath.tanh,sin=mpmath.sin,cos=mpmath.cos,tan=mpmath.tan,
 acos=mpmath.acos,asin=mpmath.asin,atan=mpmath.atan,atanh=mpmath.atanh,erf=mpmath.erf,erfc=mpmath.erfc,erfcx=lambda x:mpmath.exp(x*x)*mpmath.erfc(x),bessel_i0=lambda x:mpmath.besseli(0,x),bessel_i1=lambda x:mpmath.besseli(1,x),
 lambert_w=lambda x:mpmath.lambertw(x).real,powf=lambda a,b:a**b,abs=abs,ceil=mpmath.ceil,floor=mpmath.floor,atan2=mpmath.atan2,hypot=mpmath.hypot,
 inverse_langevin=lambda y:mpmath.findroot(lambda u:mpmath.coth(u)-1/u-y,(3*y*(1-y*y/3)/(1-y*y),3*y/(1-y*y)),verify=False),round=lambda x:mpmath.floor(abs(x)+0.5)*mpmath.sign(x))
