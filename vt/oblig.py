"""Obligations: equalities between expressions that contain CALL(sym, args...) leaves (calls into the compiled crate) and
DIFF(var, expr). One evaluator runs the calls symbolically (LLVM IR -> expression DAG -> SMT query), another natively (replay)."""
import math,random,time,sys,os,itertools,threading,traceback
from fractions import Fraction as F
import mpmath
from expr import *
import expr as X
import symex, norm, mhooks, genharness, llir
from symex import SymI,Exec,Cond,Unsupported,PanicPath,StepLimit
import z3

def CALL(sym,*args): return mk('call',sym,*[C(a) if isinstance(a,(int,F)) else C(F(repr(a))) if isinstance(a,float) else a for a in args])
def QUAD(var,lo,hi,body):
    """integral of body over var by the crate's quadrature rule (midpoint, the crate's number of points)"""
    return mk('quad',var,lo,hi,body)
STATICS={}
def points(w=None):
    """the crate's quadrature resolution, read from its IR"""
    if 'POINTS' not in STATICS:
        STATICS['POINTS']=64
        if w is not None:
            for k,v in w.mod.glob.items():
                k=k[1] if isinstance(k,tuple) else k
                if k.endswith('single_chain6POINTS'):
                    try: STATICS['POINTS']=w.static(k)
                    except Exception: pass
    return STATICS['POINTS']
def DIFF(var,e): return mk('diff',var,e)
KB=C(F('8.314462618')); H=C(F('0.06350779923502961'))
HBAR_NOTE='kB = 8.314462618 J/(mol K), h = 0.06350779923502961 (crate units): specification-side copies'
def num(x): return C(F(x) if isinstance(x,(int,str)) else F(repr(x)))

class Ob:
    __slots__=('name','lhs','rhs','syms','ints','sample','tol','where','hooks','allow_panic','dist','group','guard','fallback','band','truth')
    def __init__(s,name,lhs,rhs,syms,ints=(),sample=None,tol=1e-8,where='',hooks=None,allow_panic=False,group='',guard=None,band=None):
        """syms: {name:(lo,hi)} real symbols with open positive domain; ints: {name:(lo,hi)} u8 symbols;
        sample(rng)->env: sensible replay inputs"""
        s.name,s.lhs,s.rhs,s.syms,s.ints,s.sample,s.tol,s.where,s.hooks,s.allow_panic,s.group,s.guard=name,lhs,rhs,syms,dict(ints),sample,tol,where,hooks,allow_panic,group,guard; s.fallback=(); s.band=band; s.truth=None

# ---------------- symbolic side ----------------
def calls_in(*es):
    return {x.args[0] for x in topo(es) if x.op=='call'}
class World:
    def __init__(s,mod,entries,hooks=None):
        s.mod=mod; s.ents={f.sym:f for f in entries}; s.hooks=hooks or mhooks.MH; s.extra={}
        s.encoded=set(); s.hooked=set(); s.steps=0; points(s)
    def static(s,name):
        ex=s.executor({},{}); ex.explore(lambda ex:None)
        a=ex.glob_addr(name) if hasattr(ex,'glob_addr') else None
        return ex.load(a,('i',64))
    def types(s,sym): return [t for _,t in (s.ents[sym].args if sym in s.ents else s.extra[sym])]
    def executor(s,ranges,ints,hooks=None):
        h=dict(s.hooks); h.update(hooks or {})
        return Exec(s.mod,hooks=h,ranges=ranges,intranges=ints)
    def note(s,ex):
        s.encoded|=ex.encoded; s.hooked|=ex.hooked; s.steps+=ex.total_steps
def toint(e):
    """u8 argument expression -> int or SymI (linear in integer symbols)"""
    if e.op=='c': return int(e.args[0])
    if e.op=='s': return SymI({e.args[0]:1},0,8)
    raise Unsupported('integer argument %r'%e)
def specsub(e,m):
    memo={}
    for x in topo([e]):
        if x.op=='s': memo[x.id]=m.get(x.args[0],x)
        elif x.op in('c','nf'): memo[x.id]=x
        elif x.op=='call': memo[x.id]=CALL(x.args[0],*[memo[a.id] for a in x.args[1:]])
        elif x.op=='diff': memo[x.id]=DIFF(x.args[0],memo[x.args[1].id])
        elif x.op=='quad':
            assert x.args[0] not in m
            memo[x.id]=QUAD(x.args[0],*[memo[a.id] for a in x.args[1:]])
        else: memo[x.id]=rebuild(x,[memo[a.id] if isinstance(a,E) else a for a in x.args])
    return memo[e.id]
def symeval(w,ex,e,memo):
    """evaluate a specification expression inside a path"""
    if e.id in memo: return memo[e.id]
    if e.op in('c','s','nf'): r=e
    elif e.op=='call':
        sym=e.args[0]; f=w.mod.find(len(w.mod.files),sym) or w.mod.funcs.get(sym)
        if f is None: raise Unsupported('no function '+sym)
        av=[]
        for t,a in zip(w.types(sym),e.args[1:]):
            v=symeval(w,ex,a,memo)
            av.append(toint(v) if t=='u8' else v)
        r=ex.call(f,av)
        if not isinstance(r,E): raise Unsupported('result %r'%(r,))
    elif e.op=='quad':
        var,lo,hi,body=e.args; lo,hi=symeval(w,ex,lo,memo),symeval(w,ex,hi,memo); v=mhooks.fresh()
        b2=specsub(body,{var:S(v)})
        r=mhooks.integral(ex,v,lo,hi,points(w),lambda:mhooks.settle_outs(ex,lambda:symeval(w,ex,b2,dict(memo)),[v]))
    elif e.op=='diff': r=diff(symeval(w,ex,e.args[1],memo),e.args[0])
    else: r=rebuild(e,[symeval(w,ex,a,memo) if isinstance(a,E) else a for a in e.args])
    memo[e.id]=r
    return r
def paths(w,ob,oracle=None):
    ex=w.executor(dict(ob.syms),dict(ob.ints),ob.hooks); ex.oracle=oracle
    def th(ex):
        memo={}
        return symeval(w,ex,ob.lhs,memo),symeval(w,ex,ob.rhs,memo)
    o=ex.explore(th,ob.guard or ()); w.note(ex)
    return o

# ---------------- SMT side ----------------
class Smt:
    """Translation of normal forms to z3 real arithmetic."""
    def __init__(s,N,syms,ints):
        s.N=N; s.syms=syms; s.ints=ints; s.roots={}; s.vars={}; s.lcm={}; s.ax=[]; s.names={}
    def scan(s,p):
        for m in p:
            for i,e in m:
                d=F(e).denominator; l=s.lcm.get(i,1); s.lcm[i]=l*d//math.gcd(l,d)
    def var(s,i):
        """variable v with v**lcm = atom i"""
        if i in s.vars: return s.vars[i]
        a=s.N.atoms[i]; L=s.lcm.get(i,1)
        v=z3.Real('a%d'%i); s.vars[i]=v
        if a[0]=='s':
            n=a[1]
            if n.startswith('$u'): s.ax.append(v>0)
            if n=='$pi':
                s.ax+= [v**L>z3.RealVal('3.14159265358979'),v**L<z3.RealVal('3.14159265358980'),v>0]
            else:
                r=s.syms.get(n) or s.ints.get(n)
                if r is not None:
                    s.names[n]=(v,L)
                    if L==1: s.ax+=[v>=z3.RealVal(str(F(r[0]))),v<=z3.RealVal(str(F(r[1])))]
                    else: s.ax+=[v>0]
        elif a[0]=='exp': s.ax.append(v>0)
        elif a[0]=='prime': s.ax+=[v**L==a[1],v>0]
        elif a[0]=='poly' and L>1:
            p=dict(a[1]); s.scan(p); s.ax+=[v**L==s.poly(p),v>0]
        elif a[0]=='fn' and a[1] in('sin','cos'):
            j=s.N.idx.get(('fn','cos' if a[1]=='sin' else 'sin')+a[2:])
            if j is not None and j in s.vars: s.ax.append(v*v+s.vars[j]*s.vars[j]==1)
        elif a[0]=='fn' and a[1]=='abs' and not a[2][1]:
            # v >= 0 and v = |argument|
            p={m:F(c) for m,c in a[2][0]}; one={():F(1)}; p,o=common_shift(p,one); s.scan(p); s.scan(o)
            s.ax.append(v>=0); l,r=v**L*s.poly(o),s.poly(p); s.ax.append(z3.Or(l==r,l==-r))
        elif a[0]=='ind': s.ax.append(z3.Or(v==0,v==1))
        return v
    def mono(s,m,c):
        t=[]; neg=[]
        for i,e in m:
            v=s.var(i); k=F(e)*s.lcm.get(i,1); assert k.denominator==1; k=int(k)
            if k<0: neg.append((v,-k))
            else: t.append((v,k))
        r=z3.RealVal(str(c))
        for v,k in t: r=r*v**k if k<=3 else r*z3.Product([v]*k) if k<40 else r*v**k
        return r,neg
    def poly(s,p):
        """polynomial with its negative exponents multiplied out by a common monomial: value*common"""
        mn={}
        for m in p:
            for i,e in m:
                if e<0: mn[i]=min(mn.get(i,0),e)
        sh=tuple(sorted((i,-e) for i,e in mn.items()))
        ts=[s.mono(norm.mmul(m,sh),c)[0] for m,c in p.items()]
        return z3.Sum(ts) if len(ts)!=1 else ts[0]
def common_shift(*ps):
    mn={}
    for p in ps:
        for m in p:
            for i,e in m:
                if e<0: mn[i]=min(mn.get(i,0),e)
    sh=tuple(sorted((i,-e) for i,e in mn.items()))
    return [{norm.mmul(m,sh):c for m,c in p.items()} for p in ps]
def cond_smt(S_,N,c):
    a=N.norm(c.a); b=N.norm(c.b); x,y,den=N.pair(c.a,c.b)
    # sign of the denominator is not tracked: only polynomial conditions are used
    if den: return None
    x,y=common_shift(x,y); S_.scan(x); S_.scan(y)
    # negative exponents only of atoms assumed positive (symbols, exponentials): shift keeps the order
    l,r=S_.poly(x),S_.poly(y)
    t={'<':l<r,'<=':l<=r,'==':l==r}[c.op]
    return z3.Not(t) if c.neg else t

def uses_inv(x): return x.op=='fn' and x.args[0]=='INV'
def eliminate(exprs):
    """Parametrise by the solution: for u = INV(F, y) with y linear in an input symbol s (that F does not mention) put s := F(u)*s/y.
    u stands for an arbitrary positive value, so the claim for all u covers every s. Returns (exprs, [(s, expression)])."""
    done=[]
    for rnd in range(6):
        invs=[x for x in {y.id:y for e in exprs[:2] for y in norm.topo_nb(e,{})}.values() if uses_inv(x)]
        if not invs: break
        N=norm.Norm(); hit=None; byatom={}
        for x in invs:
            try: f=N.norm(x); ff=N.norm(x.args[2]); y=N.norm(x.args[3])
            except (norm.TooBig,norm.Undef): continue
            if len(f.num)!=1: continue
            (m,_),=f.num.items(); a=m[0][0]; byatom.setdefault(a,[]).append(x)
            if hit or len(y.num)!=1 or y.den: continue
            (ym,yc),=y.num.items()
            for i,e in ym:
                at=N.atoms[i]
                if at[0]=='s' and e==1 and at[1] in ELIM and at[1] not in N.fdeps(ff) and not any(i!=j and at[1] in N.deps[j] for j,_ in ym):
                    hit=(a,x,at[1]); break
        if not hit: break
        a,x,sname=hit; u='$u%d'%len(done)
        coef=subst(x.args[3],{sname:ONE})
        val=div(subst(x.args[2],{x.args[1].args[0]:S(u)}),coef)
        rep={y.id:S(u) for y in byatom[a]}
        exprs=[subst(replace(e,rep),{sname:val}) for e in exprs]
        done.append((sname,u,val))
    return exprs,done
ELIM=set()
class Result:
    __slots__=('ob','status','detail','queries','time','replay','env','paths')
    def __init__(s,ob): s.ob=ob; s.status='?'; s.detail=''; s.queries=0; s.time=0.0; s.replay=None; s.env=None; s.paths=0
def atomval(N,i,memo):
    """high-precision value of an atom without input symbols"""
    if i in memo: return memo[i]
    a=N.atoms[i]; k=a[0]; mp=mpmath.mp
    def poly(p): 
        t=mpmath.mpf(0)
        for m,c in p: t+=mono(m)*c.numerator/c.denominator
        return t
    def mono(m):
        v=mpmath.mpf(1)
        for j,e in m: v*=mpmath.power(atomval(N,j,memo),mpmath.mpf(F(e).numerator)/F(e).denominator)
        return v
    def frac(key):
        v=poly(key[0])
        for j,e in key[1]: v/=mpmath.power(atomval(N,j,memo),e)
        return v
    if k=='s' and a[1]=='$pi': v=+mpmath.pi
    elif k=='prime': v=mpmath.mpf(a[1])
    elif k=='poly': v=poly([(m,F(c)) for m,c in a[1]])
    elif k=='exp': v=mpmath.exp(mono(a[1]))
    elif k=='ln': v=mpmath.log(atomval(N,a[1],memo))
    elif k=='fn' and a[1] in X._FN: v=X._FN[a[1]](*[frac(q) for q in a[2:]])
    else: raise Unsupported('value of %r'%(a,))
    memo[i]=v
    return v
def band_query(ob,l,r,conds,timeout):
    """|l-r| <= eps*scale on the path: constants evaluated to 60 digits, the rest decided by the solver"""
    scale,eps=ob.band; N=norm.Norm(); x,y,_=N.pair(sub(l,r),scale)
    with mpmath.workdps(60):
        memo={}
        def red(p):
            out={}
            for m,c in p.items():
                v=mpmath.mpf(1); k=[]
                for i,e in m:
                    if N.deps[i]: k.append((i,e))
                    else: v*=mpmath.power(atomval(N,i,memo),mpmath.mpf(F(e).numerator)/F(e).denominator)
                q=F(c)*F(int(mpmath.nint(v*mpmath.mpf(10)**58)),10**58) if abs(v)<1e20 else F(c)*F(int(mpmath.nint(v)))
                out[tuple(k)]=out.get(tuple(k),0)+q
            return {m:c for m,c in out.items() if abs(c)>F(1,10**45)}
        num=red(x); den=red(y)
    num,den=common_shift(num,den)
    S_=Smt(N,ob.syms,ob.ints); S_.scan(num); S_.scan(den); cs=[]
    for c in conds:
        try:
            t=cond_smt(S_,N,c)
            if t is not None: cs.append(t)
        except (norm.TooBig,norm.Undef,Unsupported): pass
    a,b=S_.poly(num),S_.poly(den); e=z3.RealVal(str(eps*F(999999,1000000)))
    sol=z3.Solver(); sol.set('timeout',int(timeout*1000)); ab=z3.If(b<0,-b,b); sol.add(z3.Or(a>e*ab,a<-e*ab))
    for t in S_.ax+cs: sol.add(t)
    v=sol.check(); env=None
    if v==z3.sat:
        m=sol.model(); env={}
        for n,(var,L) in S_.names.items():
            q=m.eval(var,model_completion=True)
            try: env[n]=float(q.as_fraction() if z3.is_rational_value(q) else q.approx(20).as_fraction())**L
            except Exception: pass
    return str(v),(len(num),len(den),sorted(N.assume)),env
def query(ob,l,r,conds,timeout,want_model=True):
    if ob.band: return band_query(ob,l,r,conds,timeout)
    return query_eq(ob,l,r,conds,timeout,want_model)
def query_eq(ob,l,r,conds,timeout,want_model=True):
    """z3 verdict on  conds and l != r  : ('unsat'|'sat'|'unknown', info, model env)"""
    N=norm.Norm(); x=y=None
    try: x,y,den=N.pair(l,r)
    except norm.TooBig: pass
    if (x is None or x!=y) and any(uses_inv(z) for z in topo([l,r])):
        es,elim=eliminate([l,r]+[c.a for c in conds]+[c.b for c in conds])
        if elim:
            n=len(conds); l2,r2=es[:2]; N2=norm.Norm()
            try:
                x2,y2,den2=N2.pair(l2,r2)
                N,x,y,den=N2,x2,y2,den2
                conds=[type(c)(c.op,es[2+i],es[2+n+i],c.neg) for i,c in enumerate(conds)]
            except norm.TooBig: pass
    if x is None: raise norm.TooBig('normal form')
    x,y=common_shift(x,y)
    if len(x)+len(y)>30000: raise norm.TooBig('query of %d terms'%(len(x)+len(y)))
    S_=Smt(N,ob.syms,ob.ints); gens=[]; comb=None
    if x!=y and N.invs:
        D=dict(x)
        for m,c in y.items():
            D[m]=D.get(m,0)-c
            if not D[m]: del D[m]
        ax=N.axioms(D)
        if ax:
            gens=list(ax.values()); comb=N.combine(D,gens)
            if comb: gens=comb[1]
            else: gens=[common_shift(g)[0] for g in gens]
            if comb:
                # D = sum of quotient*relation: the solver gets the relations and the combination
                x={}; y={}
    for g in gens: S_.scan(g)
    if comb:
        for q in comb[0]: S_.scan(q)
    S_.scan(x); S_.scan(y)
    cs=[]
    for c in conds:
        try:
            t=cond_smt(S_,N,c)
            if t is not None: cs.append(t)
        except (norm.TooBig,norm.Undef,Unsupported): pass
    # register before building (root degrees must be final)
    if comb:
        gv=[z3.Real('rel%d'%i) for i in range(len(gens))]
        lt=z3.Sum([S_.poly(q)*v for q,v in zip(comb[0],gv) if q]+[z3.RealVal(0)]); rt=z3.RealVal(0)
        S_.ax+=[v==0 for v in gv]
    else:
        lt,rt=S_.poly(x),S_.poly(y)
        for g in gens: S_.ax.append(S_.poly(g)==0)
    sol=z3.Solver(); sol.set('timeout',int(timeout*1000))
    same=x==y and not comb
    sol.add(lt!=rt)
    ax=list(S_.ax)
    if not same:
        for a in ax: sol.add(a)
        for c in cs: sol.add(c)
    v=sol.check()
    env=None
    if v==z3.sat and want_model:
        m=sol.model(); env={}
        for n,(var,L) in S_.names.items():
            q=m.eval(var,model_completion=True)
            try:
                f=float(q.as_fraction()) if z3.is_rational_value(q) else float(q.approx(20).as_fraction())
                env[n]=f**L
            except Exception: pass
    return str(v),(len(x),len(y),sorted(N.assume)),env

def infeasible(ob,conds,timeout):
    """the path condition contradicts the domain"""
    N=norm.Norm(); S_=Smt(N,ob.syms,ob.ints); pre=[]
    for c in conds:
        try:
            x,y,den=N.pair(c.a,c.b)
            if den: continue
            x,y=common_shift(x,y); S_.scan(x); S_.scan(y); pre.append((c,x,y))
        except (norm.TooBig,norm.Undef): pass
    sol=z3.Solver(); sol.set('timeout',int(timeout*1000))
    for c,x,y in pre:
        l,r=S_.poly(x),S_.poly(y); t={'<':l<r,'<=':l<=r,'==':l==r}[c.op]
        sol.add(z3.Not(t) if c.neg else t)
    for a in S_.ax: sol.add(a)
    return sol.check()==z3.unsat
# ---------------- native side ----------------
class Native2:
    def __init__(s,native): s.n=native; s.calls=0
def neval(nat,e,env,memo=None):
    memo={} if memo is None else memo
    for x in ntopo(e):
        if x.id in memo: continue
        o=x.op
        if o=='c': r=float(x.args[0])
        elif o=='s': r=math.pi if x.args[0]=='$pi' else env[x.args[0]]
        elif o=='call':
            ok,r=nat.call(x.args[0],*[memo[a.id] for a in x.args[1:]])
            if not ok: raise NativePanic(x.args[0])
        elif o=='quad':
            var,lo,hi,body=x.args; a,b=neval(nat,lo,env),neval(nat,hi,env); n=points(); h=(b-a)/n
            r=sum(neval(nat,body,dict(env,**{var:a+(i+.5)*h})) for i in range(n))*h
        elif o=='diff':
            r=nderiv(lambda t:neval(nat,x.args[1],dict(env,**{x.args[0]:t})),env[x.args[0]])
        else: r=float(_evop(x,memo))
        memo[x.id]=r
    return memo[e.id]
class NativePanic(Exception): pass
def nderiv(f,x0):
    h=abs(x0)*4e-3
    def d(h): return (8*(f(x0+h)-f(x0-h))-(f(x0+2*h)-f(x0-2*h)))/(12*h)
    a=d(h); b=d(h/2)
    return b+(b-a)/15
def ntopo(e):
    seen=set(); out=[]; st=[(e,False)]
    while st:
        x,d=st.pop()
        if d: out.append(x); continue
        if x.id in seen: continue
        seen.add(x.id); st.append((x,True))
        if x.op in('diff','quad'): continue
        for a in x.args:
            if isinstance(a,E): st.append((a,False))
    return out
def _evop(x,memo):
    a=[memo[b.id] if isinstance(b,E) else b for b in x.args]
    o=x.op
    if o=='add': return a[0]+a[1]
    if o=='sub': return a[0]-a[1]
    if o=='mul': return a[0]*a[1]
    if o=='div': return a[0]/a[1]
    if o=='neg': return -a[0]
    if o=='powi': return a[0]**a[1]
    with mpmath.workdps(25): return X._FN[a[0]](*[mpmath.mpf(b) for b in a[1:]])

# ---------------- discharge one obligation ----------------
def dom_ok(ob,env):
    for n,(lo,hi) in list(ob.syms.items())+list(ob.ints.items()):
        if n in env and not(lo<=env[n]<=hi): return False
    return True
def conds_hold(conds,env):
    try:
        for c in conds:
            a=evalmp(c.a,env,20); b=evalmp(c.b,env,20)
            t={'<':a<b,'<=':a<=b,'==':a==b}[c.op]
            if t==c.neg: return False
        return True
    except Exception: return None
def solve(w,ob,timeout=20):
    """symbolic part; returns (Result, list of open items (kind,conds,l,r,modelenv))"""
    R=Result(ob); t0=time.time(); opened=[]
    try:
        outs=paths(w,ob)
    except Exception as e:
        if isinstance(e,MemoryError): raise
        if os.environ.get('VT_TB'): traceback.print_exc()
        R.status='unencodable'; R.detail='%s: %s'%(type(e).__name__,e); R.time=time.time()-t0
        return R,[('unencodable',[],None,None,None)]
    R.paths=len(outs)
    for o in outs:
        if o.kind!='ret':
            if ob.allow_panic and o.kind=='panic': continue
            if infeasible(ob,o.conds,timeout): R.queries+=1; continue
            opened.append((o.kind+':'+str(o.msg),o.conds,None,None,None)); continue
        l,r=o.value
        try:
            v,info,env=query(ob,l,r,o.conds,timeout); R.queries+=1
        except (norm.TooBig,norm.Undef,RecursionError,z3.Z3Exception,MemoryError,Unsupported,NoDeriv,NonFinite) as e:
            v,env='unknown',None; R.detail=('%s: %s'%(type(e).__name__,e))[:200]
        if v!='unsat' and o.conds and infeasible(ob,o.conds,timeout): v='unsat'
        if v!='unsat': opened.append((v,o.conds,l,r,env))
    R.time=time.time()-t0
    R.status='proved' if not opened else 'open'
    return R,opened
def replay(nat,ob,env,tol=None):
    """native evaluation: ('same'|'differ'|'panic'|'nan', lhs, rhs)"""
    try:
        if ob.truth:
            # the compiled function against a high-precision reference: (expression, reference(env), relative tolerance)
            l=neval(nat,ob.truth[0],env); r=float(ob.truth[1](env))
            return ('differ' if not abs(l-r)<=ob.truth[2]*max(abs(l),abs(r))+1e-300 else 'same'),l,r
        l=neval(nat,ob.lhs,env); r=neval(nat,ob.rhs,env)
    except NativePanic as p: return 'panic',str(p),None
    except (OverflowError,ZeroDivisionError,ValueError,KeyError) as e: return 'nan',str(e),None
    if l!=l or r!=r or math.isinf(l) or math.isinf(r):
        if (l!=l)!=(r!=r) or (math.isinf(l)!=math.isinf(r)): return 'nonfinite',l,r
        return 'nan',l,r
    d=abs(l-r); sc=max(abs(l),abs(r))
    if ob.band: return ('differ' if d>abs(neval(nat,ob.band[0],env))*float(ob.band[1]) else 'same'),l,r
    return ('differ' if d>(tol or ob.tol)*sc+1e-300 else 'same'),l,r
def fcond(c,env):
    a=float(evalmp(c.a,env,20)); b=float(evalmp(c.b,env,20))
    t={'<':a<b,'<=':a<=b,'==':a==b}[c.op]
    return t!=c.neg
def unmet(conds,env):
    bad=[]
    for c in conds:
        try:
            if not fcond(c,env): bad.append(c)
        except Exception: bad.append(c)
    return bad
def steer(ob,conds,env):
    """move one input at a time until the path condition holds (replay search only; the verdict was the solver's)"""
    env=dict(env)
    for rnd in range(4):
        bad=unmet(conds,env)
        if not bad: return env
        best=None
        vs={v for c in bad for v in X.syms(c.a,c.b)}&set(env)
        for v in sorted(vs):
            if v in ob.ints: lo,hi=ob.ints[v]; pts=range(int(lo),int(hi)+1)
            elif v in ob.syms:
                x0=env[v]; lo,hi=float(ob.syms[v][0]),float(ob.syms[v][1]); pts=[x0*10**(k/8) for k in range(-40,41)]+[lo+(hi-lo)*(k+.5)/60 for k in range(60) if hi-lo<1000]
                # roots of the conditions' boundaries along v
                for c in bad:
                    g=lambda t:float(evalmp(sub(c.a,c.b),dict(env,**{v:t}),20)); prev=None
                    for t in sorted(pts[:81]):
                        try: y=g(t)
                        except Exception: prev=None; continue
                        if prev and prev[1]*y<=0:
                            p,q=prev[0],t
                            for _ in range(60):
                                m=(p+q)/2
                                if g(p)*g(m)<=0: q=m
                                else: p=m
                            pts+= [p,q,p*(1-1e-6),q*(1+1e-6),p*0.999,q*1.001]
                        prev=(t,y)
                pts=[t for t in pts if lo<=t<=hi]
            else: continue
            for t in pts:
                e=dict(env,**{v:t}); k=len(unmet(conds,e))
                if k<len(bad) and (best is None or k<best[0] or (k==best[0] and v not in ob.ints and abs(math.log(t/env[v]))<best[2])):
                    best=(k,e,abs(math.log(t/env[v])) if t>0 and env[v]>0 else 9)
        if best is None: return None
        env=best[1]
    return env if not unmet(conds,env) else None
def candidates(ob,seed,n,model=None,conds=()):
    rng=random.Random('%s/%s'%(seed,ob.name))
    conds=[c for c in conds if not any('$' in v for v in X.syms(c.a,c.b)-{'$pi'})]
    if model:
        base=ob.sample(random.Random('m%s/%s'%(seed,ob.name)))
        e=dict(base); e.update({k:v for k,v in model.items() if k in base})
        for k in ob.ints: e[k]=round(e[k])
        if dom_ok(ob,e): yield e
    t0=time.time(); steered=0
    for i in range(n):
        e=ob.sample(rng)
        if conds and time.time()-t0<20 and steered<6:
            try: e2=steer(ob,conds,e)
            except Exception: e2=None
            if e2 is not None: steered+=1; yield e2
        yield e
def settle(nat,ob,R,opened,seed,n=24):
    """replay candidates for the paths the solver left open"""
    worst=None; tried=0; bad={}
    for kind,conds,l,r,model in opened:
        for env in candidates(ob,seed,n,model,conds):
            tried+=1
            st,a,b=replay(nat,ob,env)
            if st=='differ' or st=='nonfinite':
                # a real gap must not vanish under the tolerance of the native evaluation itself
                if not ob.truth and 'diff' in {x.op for x in topo([ob.lhs,ob.rhs])} and not confirm(nat,ob,env): continue
                R.status='violated'; R.env=env; R.replay=(a,b); R.detail='solver verdict %s; native lhs=%r rhs=%r'%(kind,a,b); return R
            if st=='panic' and not ob.allow_panic and kind.startswith(('panic','ub','unencodable')):
                R.status='violated'; R.env=env; R.replay=(a,b); R.detail='solver path %s; native panic in %s'%(kind,a); return R
    R.status='undecided'; R.detail=(R.detail+' | %s; %d native replays agree'%('; '.join(sorted({k for k,_,_,_,_ in opened})),tried)).strip(' |')
    return R
def confirm(nat,ob,env):
    """derivative obligations: the gap must persist at perturbed inputs and be larger than the differencing noise"""
    hits=0
    for f in (1.0,1.003,0.996,1.011):
        e={k:(v*f if k in ob.syms else v) for k,v in env.items()}
        st,a,b=replay(nat,ob,e)
        hits+= st=='differ'
    return hits>=3
