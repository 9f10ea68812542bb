"""Rewriting of expression DAGs to fractions of Laurent polynomials over algebraically treated atoms (exponentials, logarithms of
primes/primitive polynomials, roots, quadratures, inverses), and their translation to SMT real arithmetic."""
from fractions import Fraction as F
import math
import mpmath
from expr import *
import expr as X
class TooBig(Exception): pass
class Undef(Exception): pass
ONEM=()
def _q(x):
    if isinstance(x,F) and x.denominator==1: return x.numerator
    return x
def mmul(a,b):
    if not a: return b
    if not b: return a
    i=j=0; r=[]
    while i<len(a) and j<len(b):
        if a[i][0]<b[j][0]: r.append(a[i]); i+=1
        elif a[i][0]>b[j][0]: r.append(b[j]); j+=1
        else:
            s=_q(a[i][1]+b[j][1])
            if s: r.append((a[i][0],s))
            i+=1; j+=1
    r.extend(a[i:]); r.extend(b[j:])
    return tuple(r)
def mpow(a,k): return tuple((i,_q(e*k)) for i,e in a) if k else ()
class Frac:
    __slots__=('num','den')
    def __init__(s,num,den=()): s.num=num; s.den=den
def factorint(n):
    r={}; p=2
    while p*p<=n:
        while n%p==0: r[p]=r.get(p,0)+1; n//=p
        p+=1
        if p>200000: break
    if n>1: r[n]=r.get(n,0)+1
    return r
class Norm:
    MAX=40000
    def __init__(s):
        s.atoms=[]; s.idx={}; s.memo={}; s.special=set(); s.deps={}; s.assume=set(); s.invs={}; s._expmemo={}
        s.budget=None
    # ---- atoms
    def atom(s,key,syms=()):
        i=s.idx.get(key)
        if i is None:
            i=len(s.atoms); s.idx[key]=i; s.atoms.append(key); s.deps[i]=frozenset(syms)
            if key[0] in('poly','prime'): s.special.add(i)
        return i
    def mdeps(s,m):
        r=frozenset()
        for a,_ in m: r=r|s.deps[a]
        return r
    def pdeps(s,p):
        r=frozenset()
        for m in p: r=r|s.mdeps(m)
        return r
    def fdeps(s,f):
        r=s.pdeps(f.num)
        for a,_ in f.den: r=r|s.deps[a]
        return r
    def const(s,q): return Frac({ONEM:F(q)} if q else {})
    def var(s,i,e=1): return s.fix({((i,_q(F(e))),):F(1)})
    # ---- polynomial arithmetic (exponents of 'poly' atoms inside monomials kept in (0,1); integer parts are expanded or moved to den)
    def padd(s,a,b,k=1):
        if len(a)<len(b) and k==1: a,b=b,a
        r=dict(a)
        for m,c in b.items():
            v=r.get(m,0)+c*k
            if v: r[m]=v
            else: r.pop(m,None)
        return r
    def pmul_raw(s,a,b):
        if len(a)*len(b)>400000: raise TooBig('product of %d and %d terms'%(len(a),len(b)))
        r={}
        for m,c in a.items():
            for n,d in b.items():
                k=mmul(m,n); v=r.get(k,0)+c*d
                if v: r[k]=v
                else: r.pop(k,None)
        if len(r)>s.MAX: raise TooBig('%d terms'%len(r))
        return r
    def pmul(s,a,b):
        """returns Frac"""
        return s.fix(s.pmul_raw(a,b))
    def fix(s,p):
        if not s.special: return Frac(p)
        bad=False
        for m in p:
            for i,e in m:
                if i in s.special and not(0<e<1): bad=True; break
            if bad: break
        if not bad: return Frac(p)
        groups={}
        for m,c in p.items():
            rest=[]; ints=[]
            for i,e in m:
                if i in s.special and not(0<e<1):
                    k=math.floor(e); f=_q(F(e)-k)
                    if s.atoms[i][0]=='prime':
                        c=c*F(s.atoms[i][1])**k
                    else: ints.append((i,k))
                    if f: rest.append((i,f))
                else: rest.append((i,e))
            g=groups.setdefault(tuple(ints),{}); k=tuple(rest); v=g.get(k,0)+c
            if v: g[k]=v
            else: g.pop(k,None)
        out=Frac({})
        for ints,g in groups.items():
            f=Frac(g); den=[]
            for i,k in ints:
                if k<0: den.append((i,-k))
                else:
                    for _ in range(k): f=s.fix(s.pmul_raw(f.num,s.polyof(i))) if not f.den else s.fmul(f,Frac(s.polyof(i)))
            f=Frac(f.num,s.denmul(f.den,tuple(sorted(den))))
            out=s.fadd(out,f)
        return out
    def polyof(s,i): return dict(s.atoms[i][1])
    def denmul(s,a,b):
        d=dict(a)
        for i,k in b: d[i]=d.get(i,0)+k
        return tuple(sorted(d.items()))
    def scaleup(s,f,den):
        """numerator of f over the denominator den (a multiple of f.den)"""
        p=Frac(f.num); have=dict(f.den)
        for i,k in den:
            for _ in range(k-have.get(i,0)):
                p=s.pmul(p.num,s.polyof(i)) if not p.den else s.fmul(p,Frac(s.polyof(i)))
        return p
    def fadd(s,a,b,k=1):
        if a.den==b.den: return s.clean(Frac(s.padd(a.num,b.num,k),a.den))
        if not a.num: return Frac({m:c*k for m,c in b.num.items()},b.den)
        if not b.num: return a
        d=dict(a.den)
        for i,n in b.den: d[i]=max(d.get(i,0),n)
        den=tuple(sorted(d.items()))
        x=s.scaleup(a,den); y=s.scaleup(b,den)
        if x.den or y.den:
            # roots produced new denominators; fall back
            r=s.fadd(x,y,k); return s.clean(Frac(r.num,s.denmul(r.den,den)))
        return s.clean(Frac(s.padd(x.num,y.num,k),den))
    def fmul(s,a,b):
        if not a.num or not b.num: return Frac({})
        an,bn=a.num,b.num; ad,bd=a.den,b.den
        if ad and len(bn)>1: bn,ad=s.cancel(bn,ad)
        if bd and len(an)>1: an,bd=s.cancel(an,bd)
        r=s.pmul(an,bn)
        return Frac(r.num,s.denmul(r.den,s.denmul(ad,bd)))
    def clean(s,f):
        if not f.num: return Frac({})
        if f.den and len(f.num)<=300:
            n,d=s.cancel(f.num,f.den); return Frac(n,d)
        return f
    def cancel(s,num,den):
        nd=[]
        for i,k in den:
            p=s.polyof(i)
            while k>0:
                q=s.divide(num,p)
                if q is None: break
                num=q; k-=1
            if k: nd.append((i,k))
        return num,tuple(nd)
    def divide(s,num,p):
        """exact quotient of Laurent polynomials or None"""
        if len(num)<len(p) or len(num)>600: 
            return None
        # shift to nonnegative exponents
        vs={i for m in p for i,_ in m}|{i for m in num for i,_ in m}
        def shift(q):
            mn={}
            for v in vs: mn[v]=min(dict(m).get(v,0) for m in q)
            sh=tuple(sorted((v,-e) for v,e in mn.items() if e))
            return sh,{mmul(m,sh):c for m,c in q.items()}
        s1,n=shift(num); s2,d=shift(p)
        order=sorted(vs)
        def key(m):
            dm=dict(m); return tuple(dm.get(v,0) for v in order)
        lm=max(d,key=key); lc=d[lm]; lk=key(lm)
        # quick degree check
        q={}; n=dict(n); steps=0
        while n:
            m=max(n,key=key); k=key(m)
            if any(a<b for a,b in zip(k,lk)): return None
            t=mmul(m,mpow(lm,-1)); c=n[m]/lc; q[t]=c
            for mm,cc in d.items():
                kk=mmul(mm,t); v=n.get(kk,0)-cc*c
                if v: n[kk]=v
                else: n.pop(kk,None)
            steps+=1
            if steps>600 or len(n)>1200: return None
        sh=mmul(mpow(s1,-1),s2)
        return {mmul(m,sh):c for m,c in q.items()}
    def content(s,p):
        """p = coef * mono * primitive (primitive has min exponents 0 and coefficient 1 on its greatest monomial)"""
        it=iter(p); mn=dict(next(it))
        for m in it:
            dm=dict(m)
            for i in list(mn):
                e=dm.get(i)
                if e is None: mn[i]=min(mn[i],0)
                elif e<mn[i]: mn[i]=e
            for i,e in m:
                if i not in mn and e<0: mn[i]=e
        mono=tuple(sorted((i,e) for i,e in mn.items() if e))
        inv=mpow(mono,-1); q={mmul(m,inv):c for m,c in p.items()}
        lead=max(q); lc=q[lead]
        return lc,mono,{m:c/lc for m,c in q.items()}
    def polyatom(s,prim):
        return s.atom(('poly',tuple(sorted(prim.items()))),s.pdeps(prim))
    def inv(s,f):
        if not f.num: raise Undef('division by zero')
        num={ONEM:F(1)}; r=Frac(num)
        for i,k in f.den:
            for _ in range(k): r=s.fmul(r,Frac(s.polyof(i)))
        if len(f.num)==1:
            (m,c),=f.num.items(); return s.fmul(r,s.fix({mpow(m,-1):1/c}))
        c,m,p=s.content(f.num)
        # try to recognise known polynomial factors
        den=[]
        if len(p)>3 and len(p)<=300:
            for i in sorted(s.special):
                if s.atoms[i][0]!='poly': continue
                while len(p)>1:
                    po=s.polyof(i)
                    if len(po)>=len(p): break
                    q=s.divide(p,po)
                    if q is None: break
                    den.append((i,1)); p=q
            if len(p)==1:
                (m2,c2),=p.items(); m=mmul(m,m2); c*=c2; p=None
            else:
                c2,m2,p=s.content(p); c*=c2; m=mmul(m,m2)
        d=s.denmul(tuple(den),())
        if den:
            dd={}
            for i,k in den: dd[i]=dd.get(i,0)+k
            d=tuple(sorted(dd.items()))
        if p is not None: d=s.denmul(d,((s.polyatom(p),1),))
        t=s.fix({mpow(m,-1):1/c})
        return s.fmul(r,Frac(t.num,s.denmul(t.den,d)))
    def powq(s,f,q):
        """f^q for a rational q; roots assume positive radicands"""
        q=F(q)
        if q.denominator==1:
            n=q.numerator
            if n<0: f=s.inv(f); n=-n
            r=s.const(1)
            b=f
            while n:
                if n&1: r=s.fmul(r,b)
                n>>=1
                if n: b=s.fmul(b,b)
            return r
        if not f.num:
            if q>0: return s.const(0)
            raise Undef('0 to a negative power')
        s.assume.add('arguments of roots and of non-integer powers are positive')
        c,m,p=(lambda t:t)(s.content(f.num) if len(f.num)>1 else (list(f.num.values())[0],list(f.num)[0],None))
        if c<0:
            if p is None: raise Undef('root of a negative number')
            c=-c; p={k:-v for k,v in p.items()}
        r=s.fix({mpow(m,q):F(1)})
        for base,sg in ((c.numerator,1),(c.denominator,-1)):
            for pr,k in factorint(base).items():
                r=s.fmul(r,s.fix({((s.atom(('prime',pr)),_q(q*k*sg)),):F(1)}))
        if p is not None:
            # perfect power recognition for squares of binomials is left to the solver
            r=s.fmul(r,s.fix({((s.polyatom(p),_q(q)),):F(1)}))
        for i,k in f.den: r=s.fmul(r,s.fix({((i,_q(-q*k)),):F(1)}))
        return r
    def exp(s,f):
        """exp of a Frac: product of EXP(monomial)^coef"""
        r=s.const(1)
        for m,c in f.num.items():
            mm=m
            for i,k in f.den: mm=mmul(mm,((i,-k),))
            if len(mm)==1 and mm[0][1]==1:
                a=s.atoms[mm[0][0]]
                if a[0]=='ln':
                    t=a[1]
                    r=s.fmul(r,s.fix({((t,_q(c)),):F(1)})); continue
                if a[0]=='fn' and a[1]=='lambert_w' and F(c).denominator==1:
                    y=s.unkey(a[2]); w=s.var(mm[0][0])
                    r=s.fmul(r,s.powq(s.fmul(y,s.inv(w)),c)); continue
            r=s.fmul(r,Frac({((s.atom(('exp',mm),s.mdeps(mm)),_q(c)),):F(1)}))
        return r
    def lnq(s,q):
        r=s.const(0)
        for base,sg in ((abs(q.numerator),1),(q.denominator,-1)):
            for p,k in factorint(base).items():
                r=s.fadd(r,Frac({((s.atom(('ln',s.atom(('prime',p)))),1),):F(sg*k)}))
        return r
    def lnmono(s,m):
        r=s.const(0)
        for i,e in m:
            a=s.atoms[i]
            if a[0]=='exp': 
                t=s.fix({a[1]:F(e)})
            elif a[0]=='fn' and a[1]=='lambert_w':
                # ln|W(y)| = ln|y| - W(y)
                t=s.fmul(s.fadd(s.lnfrac(s.unkey(a[2])),s.var(i),-1),s.const(F(e)))
            else: t=Frac({((s.atom(('ln',i),s.deps[i]),1),):F(e)})
            r=s.fadd(r,t)
        return r
    def lnfrac(s,f):
        if not f.num: raise Undef('ln 0')
        s.assume.add('ln is applied to positive values (ln|.| is used)')
        if len(f.num)==1:
            (m,c),=f.num.items(); r=s.fadd(s.lnq(c),s.lnmono(m))
        else:
            c,m,p=s.content(f.num)
            r=s.fadd(s.lnq(c),s.lnmono(m))
            if len(p)<=300:
                for i in sorted(s.special):
                    if s.atoms[i][0]!='poly': continue
                    while len(p)>1:
                        po=s.polyof(i)
                        if len(po)>len(p): break
                        q=s.divide(p,po)
                        if q is None: break
                        r=s.fadd(r,s.lnmono(((i,1),))); p=q
                if len(p)==1:
                    (m2,c2),=p.items(); r=s.fadd(r,s.fadd(s.lnq(c2),s.lnmono(m2))); p=None
                else:
                    c2,m2,p=s.content(p); r=s.fadd(r,s.fadd(s.lnq(c2),s.lnmono(m2)))
            if p is not None: r=s.fadd(r,s.lnmono(((s.polyatom(p),1),)))
        for i,k in f.den: r=s.fadd(r,s.lnmono(((i,k),)),-1)
        return r
    def key(s,f):
        n,d=s.cancel(f.num,f.den) if f.den else (f.num,f.den)
        return (tuple(sorted(n.items())),d)
    def unkey(s,k): return Frac(dict(k[0]),k[1])
    def isneg(s,f):
        """canonical sign: is the coefficient of the greatest monomial negative"""
        if not f.num: return False
        return f.num[max(f.num)]<0
    def fneg(s,f): return Frac({m:-c for m,c in f.num.items()},f.den)
    # ---- DAG -> Frac
    def norm(s,e):
        for x in topo_nb(e,s.memo):
            if x.id in s.memo: continue
            s.memo[x.id]=s._n(x)
        return s.memo[e.id]
    def _ln(s,e):
        o=e.op
        if o=='mul': return s.fadd(s._ln(e.args[0]),s._ln(e.args[1]))
        if o=='div': return s.fadd(s._ln(e.args[0]),s._ln(e.args[1]),-1)
        if o=='neg': return s._ln(e.args[0])
        if o=='powi': return s.fmul(s.const(e.args[1]),s._ln(e.args[0]))
        if o=='fn':
            if e.args[0]=='exp': return s.norm(e.args[1])
            if e.args[0]=='sqrt': return s.fmul(s.const(F(1,2)),s._ln(e.args[1]))
            if e.args[0]=='powf': return s.fmul(s.norm(e.args[2]),s._ln(e.args[1]))
        return s.lnfrac(s.norm(e))
    def _pow(s,e,q):
        """e^q structurally"""
        o=e.op
        if o=='mul': return s.fmul(s._pow(e.args[0],q),s._pow(e.args[1],q))
        if o=='div': return s.fmul(s._pow(e.args[0],q),s._pow(e.args[1],-q))
        if o=='powi' and (e.args[1]*q).denominator==1 and e.args[1]%2==1: return s.powq(s.norm(e.args[0]),q*e.args[1])
        if o=='powi' and e.args[1]%2==0:
            s.assume.add('roots of even powers: base taken positive')
            return s.powq(s.norm(e.args[0]),q*e.args[1])
        return s.powq(s.norm(e),q)
    def _n(s,x):
        o=x.op; M=s.memo
        if o=='c': return s.const(x.args[0])
        if o=='s': return s.var(s.atom(('s',x.args[0]),() if x.args[0]=='$pi' else (x.args[0],)))
        if o=='nf': raise Undef('non-finite constant')
        if o=='add': return s.fadd(M[x.args[0].id],M[x.args[1].id])
        if o=='sub': return s.fadd(M[x.args[0].id],M[x.args[1].id],-1)
        if o=='neg': return s.fneg(M[x.args[0].id])
        if o=='mul': return s.fmul(M[x.args[0].id],M[x.args[1].id])
        if o=='div': return s.fmul(M[x.args[0].id],s.inv(M[x.args[1].id]))
        if o=='powi': return s.powq(M[x.args[0].id],x.args[1])
        nm=x.args[0]; a=x.args[1:]
        if nm=='INT': return s._int(x)
        if nm=='INV':
            v,f,y=a[:3]
            ff=s.norm(f); yy=s.norm(y)
            s.assume.add('the inverted function takes the value on one branch only (unique root)')
            deps=(s.fdeps(ff)-{v.args[0]})|s.fdeps(yy)
            i=s.atom(('INV',s.key(ff),s.key(yy),v.args[0]),deps); s.invs.setdefault(i,x); return s.var(i)
        if nm=='ind': return s._ind(x)
        u=M[a[0].id]
        if nm=='exp': return s.exp(u)
        if nm in('sinh','cosh','tanh'):
            p=s.exp(u); m=s.exp(s.fneg(u)); h=s.const(F(1,2))
            if nm=='sinh': return s.fmul(h,s.fadd(p,m,-1))
            if nm=='cosh': return s.fmul(h,s.fadd(p,m))
            return s.fmul(s.fadd(p,m,-1),s.inv(s.fadd(p,m)))
        if nm=='ln': return s._ln(a[0])
        if nm=='log1p': return s.lnfrac(s.fadd(s.const(1),u))
        if nm=='expm1': return s.fadd(s.exp(u),s.const(1),-1)
        if nm=='log10': return s.fmul(s._ln(a[0]),s.inv(s.lnq(F(10))))
        if nm=='sqrt': return s._pow(a[0],F(1,2))
        if nm=='cbrt': return s._pow(a[0],F(1,3))
        if nm=='powf':
            b=M[a[1].id]
            if not b.den and len(b.num)<=1 and (not b.num or ONEM in b.num): return s._pow(a[0],b.num.get(ONEM,F(0)))
            return s.exp(s.fmul(b,s._ln(a[0])))
        if nm=='tan': return s.fmul(s._n(X.fn('sin',a[0])),s.inv(s._n(X.fn('cos',a[0]))))
        if nm in('sin','cos'): return s._trig(nm,u)
        if nm in('erf','bessel_i1','asin','atan','atanh'):
            if not u.num: return s.const(0)
            if s.isneg(u): return s.fneg(s._fn(nm,s.fneg(u)))
            return s._fn(nm,u)
        if nm in('bessel_i0','abs'):
            if not u.num: return s.const(0 if nm=='abs' else 1)
            if s.isneg(u): u=s.fneg(u)
            return s._fn(nm,u)
        if nm=='erfc': return s.fadd(s.const(1),s.norm(X.fn('erf',a[0])),-1)
        if nm=='erfcx': return s.fmul(s.exp(s.fmul(u,u)),s.fadd(s.const(1),s.norm(X.fn('erf',a[0])),-1))
        if nm=='ind':
            return s.var(s.atom(('ind',a[0],s.key(s.fadd(M[a[1].id],M[a[2].id],-1))),s.fdeps(M[a[1].id])|s.fdeps(M[a[2].id]))) if False else s._ind(x)
        return s._fn(nm,*[M[b.id] for b in a if isinstance(b,E)])
    def _trig(s,nm,u):
        if not u.den:
            for m,c in u.num.items():
                if len(m)==1 and m[0][1]==1 and s.atoms[m[0][0]]==('s','$pi') and (2*F(c)).denominator==1:
                    # whole quarter turns
                    v=s.fadd(u,s.fmul(s.const(c),s.var(m[0][0])),-1); k=int(2*F(c))%4
                    o=nm if k%2==0 else('cos' if nm=='sin' else 'sin'); t=s._trig(o,v)
                    return s.fneg(t) if (k>=2 if nm=='sin' else k in(1,2)) else t
        if not u.num: return s.const(0 if nm=='sin' else 1)
        if s.isneg(u):
            t=s._fn(nm,s.fneg(u)); return s.fneg(t) if nm=='sin' else t
        return s._fn(nm,u)
    def _ind(s,x):
        op,a,b=x.args[1:4]; d=s.fadd(s.norm(a),s.norm(b),-1)
        return s.var(s.atom(('ind',op,s.key(d)),s.fdeps(d)))
    def _fn(s,nm,*us):
        deps=frozenset()
        for u in us: deps=deps|s.fdeps(u)
        return s.var(s.atom(('fn',nm)+tuple(s.key(u) for u in us),deps))
    def _int(s,x):
        v,lo,hi,n,f=x.args[1:6]
        L=s.norm(lo); H=s.norm(hi); f=s.norm(f); b=v.args[0]
        n_,d_=s.cancel(f.num,f.den); lim=(s.key(L),s.key(H),n); ld=s.fdeps(L)|s.fdeps(H)
        dv=tuple((i,k) for i,k in d_ if b in s.deps[i]); df=tuple((i,k) for i,k in d_ if b not in s.deps[i])
        groups={}
        for m,c in n_.items():
            a=tuple(t for t in m if b in s.deps[t[0]]); r=tuple(t for t in m if b not in s.deps[t[0]])
            g=groups.setdefault(a,{}); g[r]=g.get(r,0)+c
        out=s.const(0)
        for a,g in groups.items():
            if not a and not dv:
                t=s.fadd(H,L,-1)
            else:
                deps=((s.mdeps(a)|frozenset().union(*[s.deps[i] for i,_ in dv]) if dv else s.mdeps(a))-{b})|ld
                t=s.var(s.atom(('INT',b,lim,a,dv),deps))
            out=s.fadd(out,s.fmul(Frac(g),t))
        return Frac(out.num,s.denmul(out.den,df)) if df else out
    # ---- show
    def showm(s,m):
        return '*'.join('%s%s'%(s.showa(i),'' if e==1 else '^%s'%e) for i,e in m) or '1'
    def showa(s,i):
        a=s.atoms[i]
        if a[0]=='s': return a[1]
        if a[0]=='prime': return str(a[1])
        if a[0]=='exp': return 'exp(%s)'%s.showm(a[1])
        if a[0]=='ln': return 'ln(%s)'%s.showa(a[1])
        if a[0]=='poly': return '[%s]'%s.showp(dict(a[1]))
        if a[0]=='fn': return '%s(%s)'%(a[1],','.join(s.showf(s.unkey(k)) for k in a[2:]))
        if a[0]=='INT': return 'INT<%s>(%s/%s)'%(a[1],s.showm(a[3]),s.showm(a[4]))
        if a[0]=='INV': return 'INV(%s = %s)'%(s.showf(s.unkey(a[1])),s.showf(s.unkey(a[2])))
        return str(a)
    def showp(s,p): return ' + '.join('%s*%s'%(c,s.showm(m)) for m,c in list(p.items())[:12])+(' ...(%d)'%len(p) if len(p)>12 else '')
    def showf(s,f): return s.showp(f.num)+(' / '+s.showm(f.den) if f.den else '')
    # ---- relations: F(u) = y for the atoms u = INV(F, y)
    def axioms(s,p):
        """{atom: polynomial that vanishes} for the inverse atoms of a polynomial (closure)"""
        out={}; todo=[p]
        while todo:
            q=todo.pop()
            for i in s.atoms_in(q):
                if i in s.invs and i not in out:
                    x=s.invs[i]; u=X.subst(x.args[2],{x.args[1].args[0]:x})
                    a,b,_=s.pair(u,x.args[3]); d=dict(a)
                    for m,c in b.items():
                        d[m]=d.get(m,0)-c
                        if not d[m]: del d[m]
                    out[i]=d; todo.append(d)
        return out
    def atoms_in(s,p):
        """atom indices occurring in p, also inside composite atoms"""
        seen=set(); st=[i for m in p for i,_ in m]
        while st:
            i=st.pop()
            if i in seen: continue
            seen.add(i); a=s.atoms[i]
            if a[0]=='exp': st+= [j for j,_ in a[1]]
            elif a[0]=='poly': st+= [j for m,_ in a[1] for j,_ in m]
            elif a[0]=='ln': st.append(a[1])
        return seen
    def combine(s,D,gens,limit=4000):
        """quotients q_i with D = sum q_i*g_i * unit (Laurent), or None"""
        gens=[g for g in gens if g]
        if not D or not gens: return None
        vs=sorted({i for q in [D]+gens for m in q for i,_ in m})
        def shift(q):
            mn={v:min(dict(m).get(v,0) for m in q) for v in vs}
            sh=tuple((v,-e) for v,e in sorted(mn.items()) if e)
            return {mmul(m,sh):c for m,c in q.items()}
        D=shift(D); gs=[shift(g) for g in gens]
        for order in (vs,vs[::-1]):
            def key(m):
                dm=dict(m); return tuple(dm.get(v,0) for v in order)
            lead=[(max(g,key=key)) for g in gs]; lk=[key(m) for m in lead]
            n=dict(D); qs=[{} for _ in gs]; steps=0; ok=True
            while n and ok:
                m=max(n,key=key); k=key(m)
                for j,l in enumerate(lk):
                    if all(a>=b for a,b in zip(k,l)):
                        t=mmul(m,mpow(lead[j],-1)); c=n[m]/gs[j][lead[j]]; qs[j][t]=qs[j].get(t,0)+c
                        for mm,cc in gs[j].items():
                            kk=mmul(mm,t); v=n.get(kk,0)-cc*c
                            if v: n[kk]=v
                            else: n.pop(kk,None)
                        break
                else: ok=False
                steps+=1
                if steps>limit or len(n)>limit: ok=False
            if ok: return qs,gs
        return None
    # ---- difference, cleared of denominators
    def pair(s,l,r):
        """(numL, numR) over a common denominator"""
        a=s.norm(l); b=s.norm(r)
        d=dict(a.den)
        for i,n in b.den: d[i]=max(d.get(i,0),n)
        den=tuple(sorted(d.items()))
        x=s.scaleup(a,den); y=s.scaleup(b,den)
        if x.den or y.den:
            d=dict(x.den)
            for i,n in y.den: d[i]=max(d.get(i,0),n)
            den2=tuple(sorted(d.items())); x=s.scaleup(x,den2); y=s.scaleup(y,den2); den=s.denmul(den,den2)
        return x.num,y.num,den
def topo_nb(e,memo):
    """post-order; integrands/inverted functions are visited too (they are normalised with the bound symbol as an ordinary atom)"""
    seen=set(); out=[]; st=[(e,False)]
    while st:
        x,d=st.pop()
        if d: out.append(x); continue
        if x.id in seen or x.id in memo: continue
        seen.add(x.id); st.append((x,True))
        args=x.args
        if x.op=='fn' and x.args[0]=='INV': args=x.args[1:4]
        if x.op=='fn' and x.args[0]=='ind': args=x.args[2:4]
        for a in args:
            if isinstance(a,E) and a.id not in seen: st.append((a,False))
    return out
