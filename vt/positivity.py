"""Signs of expressions for every value of their symbols: structurally, then as polynomials in atoms given to z3 with facts about the
transcendental functions that occur, then by descent (value at the lower end of a variable and sign of the derivative)."""
from fractions import Fraction as F
import math,time
import z3
from expr import *
import expr as X
import norm
from oblig import Smt,common_shift
from symex import Cond
POSF=('exp','cosh','TP','bessel_i0','erfcx','erfc')
ODD=('sinh','tanh','erf','bessel_i1','asin','atan','cbrt')
def inner(x):
    """operands outside integrands and inverted functions"""
    if x.op=='fn' and x.args[0]=='INT': return [x.args[2],x.args[3]]
    if x.op=='fn' and x.args[0]=='INV': return [x.args[3]]
    return [a for a in x.args if isinstance(a,E)]
def topo_(e,memo={}):
    seen=set(); out=[]; st=[(e,False)]
    while st:
        x,d=st.pop()
        if d: out.append(x); continue
        if x.id in seen or x.id in memo: continue
        seen.add(x.id); st.append((x,True))
        for a in inner(x):
            if a.id not in seen: st.append((a,False))
    return out
class PSmt(Smt):
    """atoms with what is known of them"""
    def __init__(s,N,syms,ints,pv): Smt.__init__(s,N,syms,ints); s.pv=pv; s.erfs=[]
    def ratio(s,p,den):
        """z3 term t with t*den = p, for a positive denominator"""
        one={():F(1)}; p,o=common_shift(dict(p),one); s.scan(p); s.scan(o)
        for i,_ in den: s.scan(s.N.polyof(i))
        t=z3.Real('r%d'%len(s.roots)); s.roots[len(s.roots)]=t
        d=s.poly(o)
        for i,k in den:
            for _ in range(k): d=d*s.poly(s.N.polyof(i))
        s.ax.append(t*d==s.poly(p)); return t
    def var(s,i):
        if i in s.vars: return s.vars[i]
        v=Smt.var(s,i); a=s.N.atoms[i]; L=s.lcm.get(i,1)
        if a[0]=='exp':
            if a[1]==(): 
                lo,hi=F(27182818,10**7),F(27182819,10**7); s.ax+=[v**L>z3.RealVal(str(lo)),v**L<z3.RealVal(str(hi))]
            else:
                t=s.ratio({a[1]:F(1,L)},()); s.ax.append(v>=1+t)
                if all(s.pv.atom_pos(s.N,j) for j,_ in a[1]): s.ax+=[t>0,v>1+t+t*t/2]
        elif a[0]=='ln':
            w=s.var(a[1])**s.lcm.get(a[1],1); s.ax+=[v**L<=w-1,v**L*w>=w-1]
        elif a[0]=='fn':
            if a[1]=='lambert_w':
                t=s.ratio(a[2][0],a[2][1]); e=z3.RealVal('2.7182819')
                s.ax+=[z3.Implies(t>0,v>0),z3.Implies(z3.And(t<0,t*e>-1),z3.And(v>-1,v<0))] if L==1 else []
            elif a[1]=='erf' and L==1:
                # odd, increasing, between -1 and 1
                t=s.ratio(a[2][0],a[2][1]); s.ax+=[v>-1,v<1,(v>0)==(t>0),(v<0)==(t<0)]
                for u,w in s.erfs: s.ax+=[(u<t)==(w<v),(u<-t)==(w<-v)]
                s.erfs.append((t,v))
            elif s.pv.atom_pos(s.N,i):
                s.ax.append(v>0)
                if a[1] in('erf','tanh'): s.ax.append(v<1)
                if a[1]=='bessel_i0': s.ax.append(v>=1)
                if a[1]=='bessel_i1':
                    j=s.N.idx.get(('fn','bessel_i0')+a[2:])
                    if j is not None: s.ax.append(v<s.var(j))
        elif a[0] in('INT','INV') and s.pv.atom_pos(s.N,i): s.ax.append(v>0)
        return v
class Prover:
    def __init__(s,syms,ints=(),conds=(),bounds=None,timeout=4,free=(),limit=8):
        """bounds: {bound variable: (lo,hi)} of quadratures; conds: facts"""
        s.syms=dict(syms); s.ints=dict(ints); s.conds=list(conds); s.bounds=bounds or {}; s.timeout=timeout; s.free=set(free)
        s.memo={}; s.queries=0; s.why=[]; s.models=[]; s.t0=time.time(); s.limit=limit; s.facts={}
    # ---- structure
    def sign(s,e):
        for x in topo_(e,s.memo): s.memo[x.id]=s._s(x)
        return s.memo[e.id]
    def _s(s,x):
        if x.id in s.facts: return s.facts[x.id]
        o=x.op; M=s.memo
        if o=='c': q=x.args[0]; return '+' if q>0 else '-' if q<0 else '0'
        if o=='s': return None if x.args[0] in s.free else '+'
        if o=='nf': return None
        if o in('mul','div'):
            a,b=M[x.args[0].id],M[x.args[1].id]
            if o=='mul' and x.args[0] is x.args[1] and a: return '+' if a!='0' else '0'
            if a=='0': return '0'
            if a is None or b is None or b=='0': return None
            return '+' if a==b else '-'
        if o=='neg': return {'+':'-','-':'+','0':'0',None:None}[M[x.args[0].id]]
        if o=='add' or o=='sub':
            a,b=M[x.args[0].id],M[x.args[1].id]
            if o=='sub' and b in('+','-'): b='-' if b=='+' else '+'
            if a=='0': return b
            if b=='0': return a
            return a if a==b else None
        if o=='powi':
            a=M[x.args[0].id]
            if a is None: return None
            return '+' if x.args[1]%2==0 and a!='0' else a
        nm=x.args[0]
        if nm=='INT': return s._int(x)
        if nm=='INV': return '+'
        if nm in POSF: return '+'
        a=M.get(x.args[1].id) if isinstance(x.args[1],E) else None
        if nm in ODD: return a
        if nm=='sqrt' or nm=='abs': return '+' if a in('+','-') else None
        if nm=='powf': return '+' if a=='+' else None
        if nm=='lambert_w': return a
        if nm=='TS': return '+' if x.args[3] is ZERO else None
        return None
    def _int(s,x):
        """a quadrature has the sign of its integrand between increasing limits"""
        v,lo,hi,n,f=x.args[1:6]; b=v.args[0]
        if not s.pos(X.sub(hi,lo)): return None
        w='$q%d'%len(s.bounds); p=Prover(s.syms,s.ints,s.conds,dict(s.bounds,**{w:(lo,hi)}),s.timeout,s.free,s.limit); p.t0=s.t0
        f=subst(f,{b:S(w)})
        r='+' if p.pos(f) else '-' if p.pos(X.neg(f)) else None
        s.queries+=p.queries; return r
    # ---- polynomials in atoms
    def atom_pos(s,N,i):
        a=N.atoms[i]; k=a[0]
        if k=='s': return a[1] not in s.free
        if k in('exp','prime','poly','INV'): return True
        if k=='fn':
            if a[1] in POSF: return True
            if a[1] in ODD or a[1] in('lambert_w','inverse_langevin'): return s.cpos(N,N.unkey(a[2]))
            if a[1]=='TS': return a[4][0]==() or not a[4][0]
            return a[1] in('abs','sqrt')
        if k=='INT': return s.cpos(N,norm.Frac({a[3]:F(1)},a[4]))
        if k=='ln': return N.atoms[a[1]][0]=='prime'
        return False
    def cpos(s,N,f,sg=1):
        """all coefficients of one sign over positive atoms"""
        if not f.num: return False
        for m,c in f.num.items():
            if c*sg<0: return False
            for i,e in m:
                if not s.atom_pos(N,i) and not(F(e).denominator==1 and e%2==0): return False
        return all(s.cpos(N,norm.Frac(N.polyof(i))) or k%2==0 for i,k in f.den)
    def toE(s,N,p):
        t=ZERO
        for m,c in p.items():
            e=C(c)
            for i,k in m: e=mul(e,s.atomE(N,i,k))
            t=add(t,e)
        return t
    def atomE(s,N,i,k):
        a=N.atoms[i]
        if a[0]=='s': b=S(a[1])
        elif a[0]=='exp':
            u=C(F(k))
            for j,e in a[1]: u=mul(u,s.atomE(N,j,e))
            return fn('exp',u)
        elif a[0]=='prime': b=C(a[1])
        elif a[0]=='poly': b=s.toE(N,N.polyof(i))
        elif a[0]=='ln': b=fn('ln',s.atomE(N,a[1],1))
        elif a[0]=='fn' and all(isinstance(q,tuple) for q in a[2:]): b=fn(a[1],*[s.fracE(N,N.unkey(q)) for q in a[2:]])
        else: raise norm.TooBig('atom')
        k=F(k)
        return powi(b,int(k)) if k.denominator==1 else fn('powf',b,C(k))
    def fracE(s,N,f):
        e=s.toE(N,f.num)
        for i,k in f.den: e=div(e,powi(s.toE(N,N.polyof(i)),k))
        return e
    def zq(s,N,p,want):
        """z3: does the polynomial have the wanted sign ('>' or '>=') wherever the facts hold"""
        if len(p)>400: return False
        T=PSmt(N,{k:(0,10**30) for k in ()},s.ints,s); q=common_shift(p)[0]; T.scan(q); cs=[]
        for c in s.conds:
            try: x,y,den=N.pair(c.a,c.b)
            except (norm.TooBig,norm.Undef,X.NonFinite): continue
            if any(not s.cpos(N,norm.Frac(N.polyof(i))) for i,_ in den): continue
            if len(x)+len(y)>300: continue
            x,y=common_shift(x,y); T.scan(x); T.scan(y); cs.append((c,x,y))
        for b,(lo,hi) in s.bounds.items():
            for l,r in ((lo,S(b)),(S(b),hi)):
                try: x,y,den=N.pair(l,r)
                except (norm.TooBig,norm.Undef): continue
                if any(not s.cpos(N,norm.Frac(N.polyof(i))) for i,_ in den) or len(x)+len(y)>300: continue
                x,y=common_shift(x,y); T.scan(x); T.scan(y); cs.append((Cond('<',l,r),x,y))
        # degrees of roots are final once every polynomial has been seen
        for i in list(range(len(N.atoms))):
            a=N.atoms[i]
            if a[0]=='poly' and T.lcm.get(i,1)>1: T.scan(N.polyof(i))
        sol=z3.Solver(); sol.set('timeout',int(s.timeout*1000))
        t=T.poly(q); sol.add(t<=0 if want=='>' else t<0)
        for c,x,y in cs:
            l,r=T.poly(x),T.poly(y); f={'<':l<r,'<=':l<=r,'==':l==r}[c.op]; sol.add(z3.Not(f) if c.neg else f)
        for i,v in list(T.vars.items()):
            a=N.atoms[i]
            if a[0]=='s' and a[1] in s.syms: lo,hi=s.syms[a[1]]; L=T.lcm.get(i,1); sol.add(v**L>=z3.RealVal(str(F(lo))),v**L<=z3.RealVal(str(F(hi))))
            if a[0]=='s' and a[1] not in s.free: sol.add(v>0)
        for a in T.ax: sol.add(a)
        r=sol.check(); s.queries+=1
        if r==z3.sat: 
            m=sol.model(); env={}
            for i,v in T.vars.items():
                a=N.atoms[i]
                if a[0]=='s':
                    q_=m.eval(v,model_completion=True)
                    try: env[a[1]]=float(q_.as_fraction() if z3.is_rational_value(q_) else q_.approx(20).as_fraction())**T.lcm.get(i,1)
                    except Exception: pass
            s.models.append(env)
        return r==z3.unsat
    def pos(s,e,strict=True,depth=4):
        """e>0 (e>=0) for every value"""
        if time.time()-s.t0>s.limit: return False
        g=s.sign(e)
        if g=='+': return True
        if g=='-' : return False
        if g=='0': return not strict
        N=norm.Norm()
        try: f=N.norm(e)
        except (norm.TooBig,norm.Undef,X.NonFinite,RecursionError): return s.split(e,strict,depth)
        if not f.num: return not strict
        if s.cpos(N,f): return True
        sg=1
        for i,k in f.den:
            if k%2==0: continue
            q=norm.Frac(N.polyof(i))
            if s.cpos(N,q): continue
            if s.cpos(N,q,-1): sg=-sg; continue
            z=s.toE(N,q.num) if all(N.atoms[j][0] in('s','exp','prime','poly','fn','ln') for m in q.num for j,_ in m) else None
            if z is not None and depth>0:
                if s.pos(z,True,depth-1): continue
                if s.pos(X.neg(z),True,depth-1): sg=-sg; continue
            return s.split(e,strict,depth)
        p={m:c*sg for m,c in f.num.items()}
        if len(p)>1:
            c,m,prim=N.content(p)
            if any(not s.atom_pos(N,i) and not(F(k).denominator==1 and k%2==0) for i,k in m): prim=p; c=1
        else: prim=p; c=1
        prim={k:v*(1 if c>0 else -1) for k,v in prim.items()}
        if s.cpos(N,norm.Frac(prim)): return True
        try:
            if s.zq(N,prim,'>' if strict else '>='): return True
        except (norm.TooBig,norm.Undef,X.NonFinite,z3.Z3Exception,AssertionError): pass
        return s.descend(N,prim,strict,depth) or s.split(e,strict,depth)
    def split(s,e,strict,depth):
        """products of factors of known sign"""
        if depth<=0: return False
        if e.op in('mul','div'):
            a,b=e.args
            for sg in (1,-1):
                if s.pos(a if sg>0 else X.neg(a),strict,depth-1) and s.pos(b if sg>0 else X.neg(b),True,depth-1): return True
        if e.op=='powi' and e.args[1]%2==0: return (not strict) or s.nonzero(e.args[0],depth-1)
        if e.op=='neg' and e.args[0].op in('mul','div'):
            a,b=e.args[0].args
            for sg in (1,-1):
                if s.pos(a if sg>0 else X.neg(a),strict,depth-1) and s.pos(b if sg<0 else X.neg(b),True,depth-1): return True
        if e.op=='fn' and e.args[0] in('sqrt','powf'): return s.pos(e.args[1],strict,depth-1)
        if e.op=='fn' and e.args[0]=='ln': return s.pos(X.sub(e.args[1],ONE),strict,depth-1)
        return False
    def nonzero(s,e,depth=4):
        if s.sign(e) in('+','-'): return True
        return s.pos(e,True,depth) or s.pos(X.neg(e),True,depth)
    def descend(s,N,p,strict,depth):
        if depth<=0 or len(p)>200: return False
        p=common_shift(p)[0]
        try: e=s.toE(N,p)
        except (norm.TooBig,X.NonFinite): return False
        held={v for c in s.conds for v in X.syms(c.a,c.b)}|set(s.bounds)|{v for lo,hi in s.bounds.values() for v in X.syms(lo,hi)}
        for x in sorted(X.syms(e)-{'$pi'}-s.free):
            if x in s.ints: continue
            # conditions that mention x may fail on the way down: they are dropped unless x only appears as the small side
            cs=[c for c in s.conds if x not in X.syms(c.a,c.b) or s.down(c,x)]
            bd={k:v for k,v in s.bounds.items() if k!=x and x not in X.syms(*v)}
            lo=ZERO
            if x in s.bounds: lo=s.bounds[x][0]; 
            if x in s.bounds: bd[x]=s.bounds[x]
            try:
                e0=subst(e,{x:lo}); d=X.diff(e,x)
            except (X.NonFinite,X.NoDeriv,ZeroDivisionError): continue
            P=Prover(s.syms,s.ints,cs,bd,s.timeout,s.free,s.limit); P.t0=s.t0
            P.syms={k:((0,v[1]) if k==x else v) for k,v in s.syms.items()}
            ok=P.pos(e0,False,depth-1) and P.pos(d,True,depth-1)
            s.queries+=P.queries
            if ok: return True
        return False
    def down(s,c,x):
        """the condition stays true when x decreases: x alone on the small side"""
        return c.op in('<','<=') and ((not c.neg and c.a.op=='s' and c.a.args[0]==x and x not in X.syms(c.b)) or (c.neg and c.b.op=='s' and c.b.args[0]==x and x not in X.syms(c.a)))
