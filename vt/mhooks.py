"""Hooks that read the crate's numerical kernels (quadrature, root finding, special functions) as mathematical operators
while the physics code above them is executed symbolically. The kernels' own code is the subject of separate checks."""
from expr import *
import expr as X
from fractions import Fraction as F
from symex import Cond,PanicPath,Unsupported,SymI,UBPath
def _f(ex,p): return ex.load(p,('d',))
_cnt=[0]
def fresh():
    _cnt[0]+=1; return '$v%d'%_cnt[0]
def bheight(e,v):
    """greatest binder index among the binders whose scope mentions v"""
    has=set(); h=0
    for x in topo([e]):
        if (x.op=='s' and x.args[0]==v) or any(isinstance(a,E) and a.id in has for a in x.args):
            has.add(x.id)
            if binder(x): h=max(h,int(x.args[1].args[0][2:]))
    return h
def closure_on(ex,data,vt,names):
    """Value(s) of a `dyn Fn(&f64..)->f64` closure on bound symbols: list of (conds, value)."""
    def th():
        ps=[]
        for n in names:
            p=ex.alloc(8); ex.store(p,S(n),8); ps.append(p)
        return ex.call_closure(data,vt,ps)
    return settle_outs(ex,th,names)
def settle_outs(ex,th,names):
    outs=ex.sub_explore(th)
    while len(outs)>1:
        # a condition free of the bound variables is decided once, on the enclosing path
        nm=set(names)
        free=[c for cs,_ in outs for c in cs if not(syms(c.a,c.b)&nm)]
        if not free: break
        ex.branch(free[0]); outs=ex.sub_explore(th)
    for c,v in outs:
        if isinstance(v,Exception): 
            raise PanicPath('panic inside integrand/closure') if isinstance(v,PanicPath) else v
    return outs
def region(conds):
    e=ONE
    for c in conds:
        if c.op=='<': a=fn('ind','<',c.a,c.b) if not c.neg else fn('ind','<=',c.b,c.a)
        elif c.op=='<=': a=fn('ind','<=',c.a,c.b) if not c.neg else fn('ind','<',c.b,c.a)
        else: a=fn('ind','==',c.a,c.b) if not c.neg else X.sub(ONE,fn('ind','==',c.a,c.b))
        e=mul(a,e) if e is not ONE else a
    return e
def rename(e,v):
    """canonical bound variable: height above the binders inside"""
    h=1+bheight(e,v); b='$b%d'%h
    return b,subst(e,{v:S(b)})
def h_integrate_1d(ex,a,name):
    data,vt,plo,phi,pn=a
    lo,hi=_f(ex,plo),_f(ex,phi); n=ex.load(pn,('i',128))
    if not isinstance(n,int): raise Unsupported('symbolic number of integration points')
    v=fresh(); r=ZERO
    return integral(ex,v,lo,hi,n,lambda:closure_on(ex,data,vt,[v]))
def integral(ex,v,lo,hi,n,explore):
    rg=ex.ranges; r=ZERO; ex.extra.setdefault('bound',{})[v]=(lo,hi)
    try:
        from symex import ival
        l,h=ival(lo,rg),ival(hi,rg)
        if l and h: ex.ranges=dict(rg); ex.ranges[v]=(min(float(l[0]),float(h[0])),max(float(l[1]),float(h[1])))
    except Exception: pass
    try: outs=explore()
    finally: ex.ranges=rg
    for c,e in outs:
        f=mul(region(c),e) if c else e
        b,f=rename(f,v)
        r=add(r,fn('INT',S(b),lo,hi,n,f))
    return r
def h_newton(ex,a,name):
    y,gu=_f(ex,a[0]),_f(ex,a[5])
    v=fresh(); ex.extra.setdefault('bound',{})[v]=None
    F=closure_on(ex,a[1],a[2],[v]); D=closure_on(ex,a[3],a[4],[v])
    if len(F)!=1: raise Unsupported('branching inside an inverted function')
    b,f=rename(F[0][1],v)
    d=D[0][1] if len(D)==1 else None
    if d is not None: d=subst(d,{v:S(b)})
    tol=_f(ex,a[6]); it=ex.load(a[7],('i',8)) if not isinstance(a[7],SymI) else None
    ex.extra.setdefault('inv',[]).append(dict(var=b,F=f,dF=d,y=y,guess=gu,tol=tol,iters=it))
    r=fn('INV',S(b),f,y,gu); ex.extra.setdefault('newton',{})[v]=r
    return r
def h_sf(nm):
    def h(ex,a,n):
        if ex.defs and nm=='lambert_w': ex.need('above -1/e',X.add(_f(ex,a[0]),fn('exp',C(-1))))
        return fn(nm,_f(ex,a[0]))
    return h
def h_bessel(ex,a,n):
    k=ex.load(a[0],('i',8))
    if k not in(0,1): return NotImplemented
    return fn('bessel_i%d'%k,_f(ex,a[1]))
MH={'polymers::math::integrate_1d':h_integrate_1d,
    'polymers::math::inverse_newton_raphson':h_newton,
    'polymers::math::inverse_newton_raphson_powered':h_newton,
    'polymers::math::bessel_i':h_bessel}
def h_inverse_langevin(ex,a,n):
    y=_f(ex,a[0]); b=S('$b1')
    if ex.defs: ex.need('positive',X.sub(ONE,powi(y,2)))
    if X.size(y)<60:
        try:
            import norm
            q=norm.Norm().norm(y)
            if not q.den and set(q.num)<={()} and 0<q.num.get((),0)<=F(1,1000): return NotImplemented
        except Exception: pass
    return fn('INV',b,sub(div(ONE,fn('tanh',b)),div(ONE,b)),y,div(mul(C(3),y),sub(ONE,powi(y,2))))
MH['polymers::math::inverse_langevin']=h_inverse_langevin
for k in('erf','erfc','erfcx','lambert_w'): MH['polymers::math::'+k]=h_sf(k)

# Treloar sums of the freely jointed chain: TS(N,g,k) with dTS_k/dg = -(N-2-k)/2 TS_{k+1} inside a piece (checked on the code for
# concrete N by the combinatorics check); precondition N>=2, 0<g<1.
def _int_e(v): return v.toE() if isinstance(v,SymI) else C(v)
def _pre(ex,N,g):
    lo,hi=ex.irange(N) if isinstance(N,SymI) else (N,N)
    if hi<2: return False
    return True
def h_treloar_sums(ex,a,n):
    out,pn,pg,po,ln=a
    N=ex.load(pn,('i',8)); g=_f(ex,pg)
    if not isinstance(N,SymI): return NotImplemented
    buf=ex.alloc(8*ln)
    for i in range(ln):
        k=ex.load(po+4*i,('i',32)); k=k-(1<<32) if k>>31 else k
        ex.store(buf+8*i,fn('TS',_int_e(N),g,C(k)),8)
    ex.store(out,ln,8); ex.store(out+8,buf,8); ex.store(out+16,ln,8)
    return None
def h_treloar0(ex,a,n):
    N=ex.load(a[0],('i',8)); g=_f(ex,a[1])
    if not isinstance(N,SymI): return NotImplemented
    n_=_int_e(N)
    return div(mul(fn('TP',n_),fn('TS',n_,g,C(0))),g)
MH['re:^polymers::physics::single_chain::fjc::thermodynamics::treloar_sums$']=h_treloar_sums
MH['re:^polymers::physics::single_chain::fjc::thermodynamics::treloar_sum_0_with_prefactor$']=h_treloar0

def uf(name,types):
    """reads a function of the crate as an uninterpreted differentiable function of its arguments (any such function)"""
    def h(ex,a,n):
        vs=[]
        for t,p in zip(types,a):
            if t=='u8': vs.append(_int_e(ex.load(p,('i',8))))
            else: vs.append(_f(ex,p))
        return fn('UF:'+name,*vs)
    return h

def uf_sum(parts,types):
    """as uf, for a function known to be a sum of uninterpreted functions of some of its arguments: parts [(name, argument indices)]"""
    def h(ex,a,n):
        vs=[_int_e(ex.load(p,('i',8))) if t=='u8' else _f(ex,p) for t,p in zip(types,a)]
        r=ZERO
        for name,ix in parts: r=add(r,fn('UF:'+name,*[vs[i] for i in ix]))
        return r
    return h
