"""Symbolic executor for LLVM IR: integers and memory concrete (or linear symbolic integers), f64 data symbolic reals."""
import struct, math, re
from fractions import Fraction as F
from expr import *
import expr as X
import llir
from llir import sizeof, layout
import mpmath
class Unsupported(Exception): pass
class PanicPath(Exception):
    def __init__(s,msg): s.msg=msg
class UBPath(Exception):
    def __init__(s,msg): s.msg=msg
class StepLimit(Exception): pass

class SymI:
    """c + sum(coef*sym): a symbolic unsigned integer known (by path) not to wrap in its width."""
    __slots__=('lin','c','bits')
    def __init__(s,lin,c,bits): s.lin={k:v for k,v in lin.items() if v}; s.c=c; s.bits=bits
    def simp(s): return s.c if not s.lin else s
    def toE(s):
        e=C(s.c)
        for k,v in sorted(s.lin.items()): e=add(mul(C(v),S(k)),e) if s.c else (mul(C(v),S(k)) if e is ZERO else add(e,mul(C(v),S(k))))
        return e
    def __repr__(s): return 'SymI(%r+%d)'%(s.lin,s.c)
class Cond:
    """A symbolic boolean: op in < <= == with E operands; neg flips it."""
    __slots__=('op','a','b','neg')
    def __init__(s,op,a,b,neg=False): s.op,s.a,s.b,s.neg=op,a,b,neg
    def flip(s): return Cond(s.op,s.a,s.b,not s.neg)
    def key(s): return (s.op,s.a,s.b,s.neg)
    def __repr__(s): return '%s(%s %s %s)'%('not ' if s.neg else '',show(s.a),s.op,show(s.b))
class Outcome:
    __slots__=('kind','value','conds','msg','extra')
    def __init__(s,kind,value,conds,msg=None,extra=None): s.kind,s.value,s.conds,s.msg,s.extra=kind,value,conds,msg,extra
    def __repr__(s): return 'Outcome(%s,%s,%s)'%(s.kind,s.value if s.kind=='ret' else s.msg,s.conds)

# ---------------- interval evaluation (to prune infeasible branches) ----------------
def ival(e,ranges,memo=None):
    """(lo,hi) floats, conservatively widened; None when unknown."""
    iv=mpmath.iv
    memo={} if memo is None else memo
    for x in topo([e]):
        if x.id in memo: continue
        o=x.op; r=None
        try:
            if o=='c': r=iv.mpf(x.args[0].numerator)/x.args[0].denominator
            elif o=='s':
                if x.args[0]=='$pi': r=iv.pi
                elif x.args[0] in ranges: 
                    lo,hi=ranges[x.args[0]]; q=lambda z:iv.mpf(F(z).numerator)/F(z).denominator
                    r=iv.mpf([q(lo).a,q(hi).b])
            else:
                a=[memo.get(b.id) for b in x.args if isinstance(b,E)]
                if all(v is not None for v in a):
                    if o=='add': r=a[0]+a[1]
                    elif o=='sub': r=a[0]-a[1]
                    elif o=='mul': r=a[0]**2 if x.args[0] is x.args[1] else a[0]*a[1]
                    elif o=='div': r=None if (a[1].a<=0<=a[1].b) else a[0]/a[1]
                    elif o=='neg': r=-a[0]
                    elif o=='powi':
                        n=x.args[1]
                        if n>0: r=a[0]**n
                        elif not(a[0].a<=0<=a[0].b): r=1/(a[0]**(-n))
                    elif o=='fn':
                        nm=x.args[0]; u=a[0]
                        if nm=='exp' and u.b<5000: r=iv.exp(u)
                        elif nm=='ln' and u.a>0: r=iv.log(u)
                        elif nm=='log10' and u.a>0: r=iv.log(u)/iv.log(10)
                        elif nm=='sqrt' and u.a>=0: r=iv.sqrt(u)
                        elif nm=='abs': r=abs(u)
                        elif nm=='ceil': r=iv.mpf([mpmath.ceil(u.a),mpmath.ceil(u.b)])
                        elif nm=='floor': r=iv.mpf([mpmath.floor(u.a),mpmath.floor(u.b)])
                        elif nm in('sin','cos'): r=iv.mpf([-1,1])
                        elif nm=='tanh' : r=iv.mpf([-1,1]) if not(u.a>0) else iv.mpf([0,1])
                        elif nm=='sinh' and u.a>0 and u.b<5000: r=iv.mpf([0,iv.exp(u).b])
                        elif nm=='cosh' and abs(u).b<5000: r=iv.mpf([1,iv.exp(abs(u)).b])
                        elif nm=='powf' and u.a>0 and len(a)>1: r=iv.exp(a[1]*iv.log(u))
        except Exception: r=None
        memo[x.id]=r
    r=memo[e.id]
    return None if r is None else (r.a,r.b)

class Mem:
    __slots__=('d','size','ro','fi')
    def __init__(s,size): s.d={}; s.size=size; s.ro=False; s.fi=None
FUNCBASE=1<<60
UNINIT=object()

def b2v(bs,t):
    if t[0]=='d':
        return lit(struct.unpack('<d',bs)[0])
    return int.from_bytes(bs,'little')

class Frame: __slots__=('regs','fn')

class Exec:
    def __init__(self,mod,hooks=None,ranges=None,intranges=None,max_steps=4000000,max_paths=4000):
        self.mod=mod; self.hooks=dict(BASE_HOOKS); 
        if hooks: self.hooks.update(hooks)
        self.ranges=dict(ranges or {}); self.intranges0=dict(intranges or {})
        self.max_steps=max_steps; self.max_paths=max_paths
        self.encoded=set(); self.hooked=set(); self.steps=0
        self.funcaddr={}; self.funcrev={}
        self._hookcache={}
        self.total_steps=0
        self.record=None
    # ---- path exploration -----------------------------------------------------------------
    def reset(self):
        self.mem={}; self.nobj=1; self.globaddr={}; self.conds=[]; self.intr=dict(self.intranges0); self.dec=[]; self.deci=0; self.steps=0; self.fresh=0; self.depth=0; self.f2ic={}
        self.extra={}
    oracle=None
    defs=False
    def need(self,kind,e):
        """record what this operation needs to be defined, with the path that reaches it"""
        self.extra.setdefault('defs',[]).append((kind,e,tuple(self.conds)))
    def explore(self,thunk,guard=()):
        """thunk(self) runs one path; returns the outcomes of every path. guard: conditions assumed from the start."""
        outs=[]; todo=[[]]
        while todo:
            pre=todo.pop()
            self.reset(); self.dec=list(pre); self.pending=[]; self.conds=list(guard)
            try:
                v=thunk(self); outs.append(Outcome('ret',v,list(self.conds),extra=self.extra))
            except PanicPath as p: outs.append(Outcome('panic',None,list(self.conds),p.msg,extra=self.extra))
            except UBPath as p: outs.append(Outcome('ub',None,list(self.conds),p.msg,extra=self.extra))
            except NonFinite as p: outs.append(Outcome('nonfinite',None,list(self.conds),str(p),extra=self.extra))
            todo.extend(self.pending)
            self.total_steps+=self.steps
            if len(outs)+len(todo)>self.max_paths: raise Unsupported('more than %d paths'%self.max_paths)
        return outs
    def run(self,sym,args,setup=None):
        f=self.mod.find(len(self.mod.files),sym) or self.mod.funcs.get(sym)
        if f is None: raise Unsupported('no function '+sym)
        def th(ex):
            return ex.call(f,[a(ex) if callable(a) else a for a in args])
        return self.explore(th)
    def choose(self,options):
        """options: list of (label, cond or None). Returns index; records siblings."""
        if self.deci<len(self.dec):
            k=self.dec[self.deci]
        else:
            k=0
            for j in range(1,len(options)): self.pending.append(self.dec[:self.deci]+[j])
            self.dec.append(0)
        self.deci+=1
        return k
    def sub_explore(self,thunk):
        """Explore thunk's paths locally (branches on a bound variable); memory effects of a path are discarded."""
        saved=(self.dec,self.deci,self.pending,self.conds); sf=dict(self.f2ic)
        snap={k:(dict(m.d)) for k,m in self.mem.items()}; sn=self.nobj; si=dict(self.intr)
        outs=[]; todo=[[]]
        while todo:
            pre=todo.pop(); self.dec=list(pre); self.deci=0; self.pending=[]; self.conds=list(saved[3]); k0=len(saved[3]); self.f2ic=dict(sf)
            try:
                v=thunk(); outs.append((self.conds[k0:],v))
            except PanicPath as p: outs.append((self.conds[k0:],p))
            except NonFinite as p: outs.append((self.conds[k0:],p))
            todo.extend(self.pending)
            if todo or len(outs)>1:
                for k in list(self.mem):
                    if k in snap: self.mem[k].d=dict(snap[k])
                    else: del self.mem[k]
                for kk in [g for g,a in self.globaddr.items() if (a>>32) not in self.mem]: del self.globaddr[kk]
                self.nobj=sn; self.intr=dict(si)
            if len(outs)>600: raise Unsupported('too many local paths')
        self.dec,self.deci,self.pending,self.conds=saved; self.f2ic=sf
        return outs
    def branch(self,c):
        """Decide a Cond: returns True/False on this path."""
        if isinstance(c,int): return bool(c)
        assert isinstance(c,Cond),c
        v=self.known(c)
        if v is not None: return v
        if self.oracle is not None:
            v=self.oracle(self.conds,c)
            if v is not None: return v
        k=self.choose([True,False])
        self.conds.append(c if k==0 else c.flip())
        return k==0
    def ckey(self,a,b):
        """canonical form of a-b up to a positive factor (None when it has no cheap one)"""
        k=(a.id,b.id); r=_ckeys.get(k,0)
        if r==0:
            r=None
            try:
                e=X.sub(a,b)
                if X.size(e)<600:
                    import norm
                    global _ckN
                    if _ckN is None or len(_ckN.atoms)>3000: _ckN=norm.Norm(); _ckeys.clear()
                    f=_ckN.norm(e)
                    if f.num and len(f.num)<200:
                        # divide by the common (positive) monomial and by the size of the leading coefficient
                        c,m,p=_ckN.content(f.num)
                        r=(c>0,tuple(sorted(p.items())),f.den)
                    elif not f.num: r='zero'
            except Exception: r=None
            _ckeys[k]=r
        return r
    def known(self,c):
        for d in self.conds:
            if d.op==c.op and d.a is c.a and d.b is c.b: return d.neg==c.neg
        if c.a is c.b: return (c.op in('<=','=='))!=c.neg
        if self.conds and c.a.op!='c' or c.b.op!='c':
            k=self.ckey(c.a,c.b)
            if k=='zero': return (c.op in('<=','=='))!=c.neg
            if k is not None:
                for d in self.conds:
                    q=self.ckey(d.a,d.b)
                    if q is None or q=='zero': continue
                    if q==k and d.op==c.op: return d.neg==c.neg
                    if q[1:]==k[1:] and q[0]!=k[0]:
                        # d: x op 0, c: -x op 0
                        if d.op=='<' and c.op=='<=': return d.neg!=c.neg
                        if d.op=='<=' and c.op=='<': return d.neg!=c.neg
                        if d.op=='<' and c.op=='<' and not d.neg: return c.neg
                    if q==k and d.op=='<' and c.op=='<=' and not d.neg: return not c.neg
                    if q==k and d.op=='<=' and c.op=='<' and d.neg: return c.neg
        r=ival(X.sub(c.a,c.b),self.ranges)
        v=None
        if r is not None:
            lo,hi=r
            if c.op=='<': v=True if hi<0 else False if lo>=0 else None
            elif c.op=='<=': v=True if hi<=0 else False if lo>0 else None
            else: v=False if (lo>0 or hi<0) else None
        if v is None: return None
        return v!=c.neg
    # ---- memory ---------------------------------------------------------------------------
    def alloc(self,size):
        i=self.nobj; self.nobj+=1; self.mem[i]=Mem(size); return i<<32
    def obj(self,p,n=1):
        if not isinstance(p,int): raise Unsupported('symbolic pointer %r'%(p,))
        m=self.mem.get(p>>32)
        if m is None: raise UBPath('access through dangling pointer %#x'%p)
        off=p&0xffffffff
        if off+n>m.size: raise UBPath('out-of-bounds access of %d bytes at offset %d of a %d-byte object'%(n,off,m.size))
        return m,off
    def _bytes_of(self,val,sz):
        if isinstance(val,int): return val.to_bytes(sz,'little')
        if isinstance(val,E) and val.op=='c': return struct.pack('<d',float(val.args[0]))
        return None
    def _split(self,m,off,sz):
        """make sure no entry straddles the boundaries of [off,off+sz)"""
        for o in [o for o in m.d if o<off+sz and o+m.d[o][0]>off]:
            s,v=m.d[o]
            if o>=off and o+s<=off+sz: continue
            b=self._bytes_of(v,s)
            if b is None: raise Unsupported('partial overwrite of symbolic value')
            del m.d[o]
            for i in range(s): m.d[o+i]=(1,b[i])
    def store(self,p,v,sz):
        if sz==0: return
        m,off=self.obj(p,sz)
        e=m.d.get(off)
        if e is not None and e[0]==sz: m.d[off]=(sz,v); return
        if m.d:
            self._clear(m,off,sz)
        m.d[off]=(sz,v)
    def _clear(self,m,off,sz):
        if len(m.d)>64 and sz<=16:
            cand=[o for o in range(off-16,off+sz) if o in m.d and o+m.d[o][0]>off]
        else: cand=[o for o in m.d if o<off+sz and o+m.d[o][0]>off]
        if not cand: return
        self._split(m,off,sz)
        for o in [o for o in m.d if off<=o<off+sz] if len(m.d)<=64 or sz>64 else [o for o in range(off,off+sz) if o in m.d]: del m.d[o]
    def load(self,p,t):
        k=t[0]
        if k=='s':
            offs,_=layout(t); return tuple(self.load(p+o,x) for o,x in zip(offs,t[1]))
        if k=='a':
            s=sizeof(t[2]); return tuple(self.load(p+i*s,t[2]) for i in range(t[1]))
        sz=sizeof(t)
        if sz==0: return 0
        m,off=self.obj(p,sz)
        e=m.d.get(off)
        if e is not None and e[0]==sz: return self.conv(e[1],t)
        bs=bytearray(); i=off
        # assemble from pieces
        def bytes_at(i):
            for o in range(i,i-17,-1):
                e=m.d.get(o)
                if e is not None:
                    if o+e[0]>i: return o,e
                    return None
            return None
        while i<off+sz:
            r=bytes_at(i)
            if r is None:
                # padding: unset bytes of a partly initialised integer read as 0
                if t[0]=='i' and any(bytes_at(j) for j in range(off,off+sz)): bs.append(0); i+=1; continue
                return UNINIT
            o,(s,v)=r
            b=self._bytes_of(v,s)
            if b is None: raise Unsupported('partial load of symbolic value')
            bs.append(b[i-o]); i+=1
        return b2v(bytes(bs),t)
    def conv(self,v,t):
        if t[0]=='d' and isinstance(v,int): return lit(bits2f(v))
        if t[0] in('i','p') and isinstance(v,E):
            if v.op=='c' and t[0]=='i': return f2bits(float(v.args[0]))
            return v
        return v
    def storet(self,p,v,t):
        if t[0]=='s' and isinstance(v,tuple):
            offs,_=layout(t)
            for o,x,w in zip(offs,t[1],v): self.storet(p+o,w,x)
            return
        if t[0]=='a' and isinstance(v,tuple):
            s=sizeof(t[2])
            for i,w in enumerate(v): self.storet(p+i*s,w,t[2])
            return
        if v is UNINIT:
            sz=sizeof(t); m,off=self.obj(p,sz); self._clear(m,off,sz); 
            for o in [o for o in m.d if off<=o<off+sz]: del m.d[o]
            return
        self.store(p,v,sizeof(t))
    def memcpy(self,d,s,n):
        if n==0: return
        ms,so=self.obj(s,n); md,do=self.obj(d,n)
        self._split(ms,so,n)
        if len(ms.d)>256 and n<=64: items=[(o,ms.d[o]) for o in range(so,so+n) if o in ms.d]
        else: items=[(o,e) for o,e in ms.d.items() if so<=o<so+n]
        if md.d:
            self._clear(md,do,n)
            for o in ([o for o in md.d if do<=o<do+n] if n>64 or len(md.d)<=64 else [o for o in range(do,do+n) if o in md.d]): del md.d[o]
        for o,e in items: md.d[o-so+do]=e
    # ---- globals ---------------------------------------------------------------------------
    def gaddr(self,fi,name):
        f=self.mod.find(fi,name)
        if f is not None: return self.faddr(f)
        key=(fi,name) if (fi,name) in self.mod.glob else name
        a=self.globaddr.get(key)
        if a is not None: return a
        init=self.mod.findglob(fi,name)
        if init is None:
            # a declared function (external)
            return self.faddr(name)
        p=llir.P(llir.tokenize(re.split(r', !(?!\()',init)[0]))
        while True:
            k,v=p.peek()
            if k==7 and v in('constant','global'): p.next(); break
            if k==0: raise Unsupported('global '+init[:80])
            p.next()
        t=p.type(); v=p.value(t) if p.peek()[0] not in(0,) and p.peek()[1]!=',' else ('z',)
        a=self.alloc(max(sizeof(t),1)); self.globaddr[key]=a
        self.ginit(a,t,v,fi)
        return a
    def faddr(self,f):
        key=f.name+'@%d'%f.module if isinstance(f,llir.Func) else f
        a=self.funcaddr.get(key)
        if a is None:
            a=FUNCBASE+16*len(self.funcaddr); self.funcaddr[key]=a; self.funcrev[a]=f
        return a
    def ginit(self,a,t,v,fi):
        if v[0]=='bytes':
            m,off=self.obj(a,len(v[1])) if v[1] else (None,0)
            bs=v[1]; i=0
            # store as 8-byte words where aligned, for speed
            while i+8<=len(bs): m.d[off+i]=(8,int.from_bytes(bs[i:i+8],'little')); i+=8
            while i<len(bs): m.d[off+i]=(1,bs[i]); i+=1
        elif v[0]=='agg':
            if t[0]=='s':
                offs,_=layout(t)
                for o,x,w in zip(offs,t[1],v[1]): self.ginit(a+o,x,w,fi)
            else:
                s=sizeof(t[2])
                for i,w in enumerate(v[1]): self.ginit(a+i*s,t[2],w,fi)
        elif v[0]=='z':
            n=sizeof(t)
            if n:
                m,off=self.obj(a,n); i=0
                while i+8<=n: m.d[off+i]=(8,0); i+=8
                while i<n: m.d[off+i]=(1,0); i+=1
        elif v[0]=='u': pass
        else: self.storet(a,self.const(v,t,fi),t)
    def const(self,v,t,fi):
        k=v[0]
        if k=='c': return v[1]&((1<<t[1])-1) if t[0]=='i' else v[1]
        if k=='f': return lit(v[1])
        if k=='g': return self.gaddr(fi,v[1])
        if k=='u': return UNINIT if t[0] not in('s','a') else tuple(self.const(v,x,fi) for x in (t[1] if t[0]=='s' else [t[2]]*t[1]))
        if k=='z':
            if t[0]=='d': return ZERO
            if t[0]=='s': return tuple(self.const(v,x,fi) for x in t[1])
            if t[0]=='a': return tuple(self.const(v,t[2],fi) for _ in range(t[1]))
            return 0
        if k=='agg':
            ts=t[1] if t[0]=='s' else [t[2]]*t[1]
            return tuple(self.const(w,x,fi) for w,x in zip(v[1],ts))
        if k=='bytes': return tuple(v[1])
        if k=='gep':
            b=self.const(v[2],('p',),fi); off=0; bt=v[1]
            off+=v[3][0][1]*sizeof(bt); cur=bt
            for ix in v[3][1:]:
                if cur[0]=='s': off+=layout(cur)[0][ix[1]]; cur=cur[1][ix[1]]
                else: off+=ix[1]*sizeof(cur[2]); cur=cur[2]
            return b+off
        raise Unsupported('const %r'%(v,))
    # ---- calls -----------------------------------------------------------------------------
    def call_closure(self,data,vtable,args,slot=40):
        fp=self.load(vtable+slot,('p',))
        f=self.funcrev[fp]
        return self.call(f,[data]+args)
    def hook_for(self,name):
        h=self._hookcache.get(name,0)
        if h!=0: return h
        dem=self.mod.dem.get(name,name)
        h=self.hooks.get(name) or self.hooks.get(dem)
        if h is None:
            for pat,hh in self.hooks.items():
                if pat.startswith('re:') and re.search(pat[3:],dem): h=hh; break
        self._hookcache[name]=h
        return h
    def call(self,f,args):
        name=f.name if isinstance(f,llir.Func) else f
        h=self.hook_for(name)
        if h is not None:
            r=h(self,args,name)
            if r is not NotImplemented:
                if name.startswith('_R'): self.hooked.add(self.mod.dem.get(name,name))
                return r
        if not isinstance(f,llir.Func): raise Unsupported('external function '+self.mod.dem.get(name,name))
        return self.interp(f,args)
    def interp(self,f,args):
        if not f.parsed: f.parse()
        self.encoded.add(f.name)
        self.depth+=1
        if self.depth>400: raise Unsupported('call depth')
        regs={}
        if len(args)!=len(f.params): raise Unsupported('arity of %s: %d vs %d'%(f.name,len(args),len(f.params)))
        for (t,nm,a),v in zip(f.params,args):
            if 'byval' in a:
                sz=sizeof(a['byval']); q=self.alloc(sz); self.memcpy(q,v,sz); v=q
            regs[nm]=v
        fi=f.module; blocks=f.blocks; lab=f.entry; prev=None
        def val(v,t):
            k=v[0]
            if k=='l': return regs[v[1]]
            if k=='c': return v[1]&((1<<t[1])-1) if t[0]=='i' else v[1]
            return self.const(v,t,fi)
        while True:
            insts=blocks[lab]
            # phis first
            i=0
            if insts and insts[0][0]=='phi':
                upd={}
                while insts[i][0]=='phi':
                    _,dst,t,inc=insts[i]
                    for v,l in inc:
                        if l==prev: upd[dst]=val(v,t); break
                    i+=1
                regs.update(upd)
            nxt=None
            for ins in (insts[i:] if i else insts):
                self.steps+=1
                op=ins[0]
                if op=='load': regs[ins[1]]=self.load(val(ins[3],('p',)),ins[2])
                elif op=='store': self.storet(val(ins[4],('p',)),val(ins[3],ins[2]),ins[2])
                elif op=='alloca': 
                    n=val(ins[3],('i',64)); regs[ins[1]]=self.alloc(ins[2]*n)
                elif op=='call':
                    _,dst,rt,callee,cargs,nl=ins
                    av=[val(v,t) for t,v,a in cargs]
                    if callee[0]=='g':
                        g=self.mod.find(fi,callee[1])
                        r=self.call(g if g is not None else callee[1],av)
                    else:
                        fp=regs[callee[1]]; g=self.funcrev.get(fp)
                        if g is None: raise Unsupported('indirect call')
                        r=self.call(g,av)
                    if dst is not None: regs[dst]=r
                    if nl is not None: nxt=nl
                elif op=='gep':
                    _,dst,bt,b,idx=ins
                    p=val(b,('p',)); it,iv=idx[0]; off=self.sgn(val(iv,it),it)*sizeof(bt); cur=bt
                    for it,iv in idx[1:]:
                        k=val(iv,it)
                        if cur[0]=='s': off+=layout(cur)[0][k]; cur=cur[1][k]
                        else: off+=self.sgn(k,it)*sizeof(cur[2]); cur=cur[2]
                    if not isinstance(p,int): raise Unsupported('gep on %r'%(p,))
                    regs[dst]=p+off
                elif op in FBIN:
                    a=val(ins[3],ins[2]); b=val(ins[4],ins[2])
                    if not isinstance(a,E) or not isinstance(b,E): raise Unsupported('float op on %r %r'%(a,b))
                    regs[ins[1]]=self.fop(op,a,b)
                elif op=='fneg': regs[ins[1]]=X.neg(val(ins[3],ins[2]))
                elif op=='br': nxt=ins[2]
                elif op=='cbr':
                    nxt=ins[3] if self.branch(self.tobool(val(ins[2],('i',1)))) else ins[4]
                elif op=='icmp': regs[ins[1]]=self.icmp(ins[2],val(ins[4],ins[3]),val(ins[5],ins[3]),ins[3])
                elif op=='fcmp': regs[ins[1]]=self.fcmp(ins[2],val(ins[4],ins[3]),val(ins[5],ins[3]))
                elif op in llir.BIN: regs[ins[1]]=self.ibin(op,val(ins[3],ins[2]),val(ins[4],ins[2]),ins[2])
                elif op=='cast': regs[ins[1]]=self.cast(ins[2],val(ins[4],ins[3]),ins[3],ins[5])
                elif op=='select':
                    c=self.tobool(val(ins[3],('i',1)))
                    regs[ins[1]]=val(ins[4],ins[2]) if self.branch(c) else val(ins[5],ins[2])
                elif op=='extractvalue':
                    v=regs[ins[2][1]] if ins[2][0]=='l' else None
                    for k in ins[3]: v=v[k]
                    regs[ins[1]]=v
                elif op=='insertvalue':
                    v=val(ins[3],ins[2]); w=val(ins[4],('i',128)) if ins[4][0]=='c' else val(ins[4],('p',))
                    def put(x,idx,w):
                        l=list(x); l[idx[0]]=w if len(idx)==1 else put(l[idx[0]],idx[1:],w); return tuple(l)
                    regs[ins[1]]=put(v,ins[5],w)
                elif op=='switch':
                    _,_,t,v,d,cs=ins
                    x=val(v,t); nxt=self.switch(x,t,d,cs)
                elif op=='ret':
                    self.depth-=1
                    return None if ins[3] is None else val(ins[3],ins[2])
                elif op=='copy': regs[ins[1]]=val(ins[3],ins[2])
                elif op=='unreachable': raise UBPath('unreachable executed in '+self.mod.dem.get(f.name,f.name))
                elif op=='phi': raise Unsupported('phi order')
                else: raise Unsupported('%s in %s'%(ins,f.name))
                if nxt is not None and op!='call': break
            if self.steps>self.max_steps: raise StepLimit('more than %d IR instructions'%self.max_steps)
            if nxt is None: raise Unsupported('block without terminator %s'%lab)
            prev=lab; lab=nxt
    def sgn(self,v,t):
        if not isinstance(v,int): raise Unsupported('symbolic index')
        b=t[1]
        return v-(1<<b) if v>>(b-1) else v
    def tobool(self,v):
        if isinstance(v,(int,Cond)): return v
        raise Unsupported('bool %r'%(v,))
    def fop(self,op,a,b):
        if a.op=='nf' or b.op=='nf': raise NonFinite('arithmetic on non-finite constant')
        if self.defs and op=='fdiv' and b.op!='c': self.need('nonzero',b)
        return {'fadd':X.add,'fsub':X.sub,'fmul':X.mul,'fdiv':X.div}[op](a,b)
    def fcmp(self,pred,a,b):
        if a.op=='nf' or b.op=='nf':
            raise NonFinite('compare with non-finite')
        p=pred[1:] if pred[0] in'ou' and pred not in('ord','uno') else pred
        if pred=='ord': return 1
        if pred=='uno': return 0
        if pred=='true': return 1
        if pred=='false': return 0
        if a.op=='c' and b.op=='c':
            x,y=a.args[0],b.args[0]
            return int({'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y,'eq':x==y,'ne':x!=y}[p])
        c={'lt':lambda:Cond('<',a,b),'le':lambda:Cond('<=',a,b),'gt':lambda:Cond('<',b,a),'ge':lambda:Cond('<=',b,a),'eq':lambda:Cond('==',a,b),'ne':lambda:Cond('==',a,b,True)}[p]()
        k=self.known(c)
        return c if k is None else int(k)
    def irange(self,v):
        if isinstance(v,int): return v,v
        lo=hi=v.c
        for k,c in v.lin.items():
            l,h=self.intr[k]
            lo+=c*(l if c>0 else h); hi+=c*(h if c>0 else l)
        return lo,hi
    def icmp(self,pred,a,b,t):
        if isinstance(a,Cond) or isinstance(b,Cond):
            if isinstance(b,int) and pred in('eq','ne'):
                return a if (b==1)==(pred=='eq') else a.flip()
            a=int(self.branch(a)) if isinstance(a,Cond) else a; b=int(self.branch(b)) if isinstance(b,Cond) else b
        if isinstance(a,SymI) or isinstance(b,SymI): return self.sicmp(pred,a,b,t)
        if not isinstance(a,int) or not isinstance(b,int):
            raise Unsupported('icmp %r %r'%(a,b))
        if pred[0]=='s': a=self.sgn(a,t) ; b=self.sgn(b,t)
        p=pred[1:] if pred not in('eq','ne') else pred
        return int({'eq':a==b,'ne':a!=b,'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b}[p])
    def isub(self,a,b):
        la=a.lin if isinstance(a,SymI) else {}; ca=a.c if isinstance(a,SymI) else a
        lb=b.lin if isinstance(b,SymI) else {}; cb=b.c if isinstance(b,SymI) else b
        l=dict(la)
        for k,v in lb.items(): l[k]=l.get(k,0)-v
        return SymI(l,ca-cb,128).simp()
    def signed(self,v,t):
        """the signed reading of an integer of type t (forks on the sign bit of a symbolic one)"""
        if isinstance(v,int): return v if v<0 else self.sgn(v,t)
        half=1<<(t[1]-1); lo,hi=self.irange(v)
        if hi<half: return v
        if lo>=half or self.icmp('uge',v,half,('i',256)): return SymI(v.lin,v.c-2*half,t[1])
        return v
    def sicmp(self,pred,a,b,t):
        if pred[0]=='s' and pred not in('eq','ne'):
            a=self.signed(a,t); b=self.signed(b,t)
            if isinstance(a,int) and isinstance(b,int): return int({'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b}[pred[1:]])
        p=pred[1:] if pred not in('eq','ne') else pred
        d=self.isub(a,b)
        if isinstance(d,int): return int({'eq':d==0,'ne':d!=0,'lt':d<0,'le':d<=0,'gt':d>0,'ge':d>=0}[p])
        lo,hi=self.irange(d)
        def dec(p):
            if p=='lt': return True if hi<0 else False if lo>=0 else None
            if p=='le': return True if hi<=0 else False if lo>0 else None
            if p=='gt': return True if lo>0 else False if hi<=0 else None
            if p=='ge': return True if lo>=0 else False if hi<0 else None
            if p=='eq': return False if lo>0 or hi<0 else None
            if p=='ne': return True if lo>0 or hi<0 else None
        r=dec(p)
        if r is not None: return int(r)
        # fork now, refining the interval of a single symbol
        k=self.choose([True,False])==0
        E0=d.toE()
        op={'lt':'<','le':'<=','eq':'=='}
        if p in op: c=Cond(op[p],E0,ZERO)
        elif p=='gt': c=Cond('<',ZERO,E0)
        elif p=='ge': c=Cond('<=',ZERO,E0)
        else: c=Cond('==',E0,ZERO,True)
        self.conds.append(c if k else c.flip())
        if len(d.lin)==1:
            (s,co),=d.lin.items(); l,h=self.intr[s]
            keep=[n for n in range(l,h+1) if {'eq':co*n+d.c==0,'ne':co*n+d.c!=0,'lt':co*n+d.c<0,'le':co*n+d.c<=0,'gt':co*n+d.c>0,'ge':co*n+d.c>=0}[p]==k]
            if not keep: raise UBPath('infeasible')
            self.intr[s]=(min(keep),max(keep))
        return int(k)
    def switch(self,x,t,d,cs):
        if isinstance(x,Cond): x=int(self.branch(x))
        if isinstance(x,SymI):
            for c,l in cs:
                if self.icmp('eq',x,c&((1<<t[1])-1),t): return l
            return d
        if isinstance(x,IntOf): 
            raise Unsupported('switch on symbolic float cast')
        m=(1<<t[1])-1
        for c,l in cs:
            if x==(c&m): return l
        return d
    def ibin(self,op,a,b,t):
        bits=t[1]; m=(1<<bits)-1
        if isinstance(a,Cond) or isinstance(b,Cond):
            if op=='xor' and isinstance(a,Cond) and b==m and bits==1: return a.flip()
            if op=='and' and isinstance(b,int) and isinstance(a,Cond): return a if b&1 else 0
            if isinstance(a,Cond): a=int(self.branch(a))
            if op=='and' and a==0: return 0
            if op=='or' and a==1 and bits==1: return 1
            if isinstance(b,Cond):
                if bits==1 and ((op=='and' and a==1) or (op=='or' and a==0)): return b
                b=int(self.branch(b))
        if isinstance(a,SymI) or isinstance(b,SymI):
            r=None
            if op=='sub': r=self.isub(a,b)
            elif op=='add':
                if isinstance(b,int) and bits>0 and b>>(bits-1) : r=self.isub(a,(1<<bits)-b)
                else: r=self.isub(a,self.isub(0,b))
            elif op=='mul' and isinstance(b,int): r=SymI({k:v*b for k,v in a.lin.items()},a.c*b,bits).simp()
            elif op=='mul' and isinstance(a,int): r=SymI({k:v*a for k,v in b.lin.items()},b.c*a,bits).simp()
            if r is None:
                return self.ibin(op,self.conc(a),self.conc(b),t)
            lo,hi=self.irange(r)
            if lo<0 or hi>m: return self.ibin(op,self.conc(a),self.conc(b),t)
            if isinstance(r,SymI): r.bits=bits
            return r
        if not isinstance(a,int) or not isinstance(b,int): raise Unsupported('int op %s %r %r'%(op,a,b))
        if op=='add': return (a+b)&m
        if op=='sub': return (a-b)&m
        if op=='mul': return (a*b)&m
        if op=='and': return a&b
        if op=='or': return a|b
        if op=='xor': return a^b
        if op=='shl': return (a<<b)&m
        if op=='lshr': return a>>b
        if op=='ashr': return (self.sgn(a,t)>>b)&m
        if op in('udiv','urem'):
            if b==0: raise UBPath('division by zero')
            return a//b if op=='udiv' else a%b
        x,y=self.sgn(a,t),self.sgn(b,t)
        if y==0: raise UBPath('division by zero')
        q=abs(x)//abs(y)*(1 if (x<0)==(y<0) else -1)
        return (q if op=='sdiv' else x-q*y)&m
    def conc(self,v):
        """Enumerate the values of a symbolic integer (forks)."""
        if isinstance(v,int): return v
        lo,hi=self.irange(v)
        if hi-lo>300: raise Unsupported('concretising a wide integer')
        if len(v.lin)!=1: raise Unsupported('concretise')
        (s,co),=v.lin.items(); l,h=self.intr[s]
        k=self.choose(list(range(l,h+1))); n=l+k
        self.intr[s]=(n,n); self.conds.append(Cond('==',S(s),C(n)))
        return co*n+v.c
    def cast(self,op,v,t,t2):
        if v is UNINIT: return UNINIT
        if op in('zext','trunc','sext'):
            if isinstance(v,Cond):
                return v
            if isinstance(v,SymI):
                if op=='trunc':
                    lo,hi=self.irange(v)
                    if hi>=(1<<t2[1]): v=self.conc(v); return v&((1<<t2[1])-1)
                if op=='sext':
                    lo,hi=self.irange(v)
                    if hi>=(1<<(t[1]-1)): v=self.conc(v); return self.sgn(v,t)&((1<<t2[1])-1)
                return SymI(v.lin,v.c,t2[1])
            if isinstance(v,E): return v
            if op=='zext': return v
            if op=='trunc': return v&((1<<t2[1])-1)
            return self.sgn(v,t)&((1<<t2[1])-1)
        if op in('uitofp','sitofp'):
            if isinstance(v,Cond): return fn('ind',v.op,v.a,v.b) if not v.neg else X.sub(ONE,fn('ind',v.op,v.a,v.b))
            if isinstance(v,SymI) and op=='sitofp': v=self.signed(v,t); return v.toE() if isinstance(v,SymI) else C(v)
            if isinstance(v,SymI): return v.toE()
            if op=='sitofp': v=self.sgn(v,t)
            return C(v)
        if op in('fptoui','fptosi'): return self.f2i(v,t2,op=='fptosi')
        if op in('ptrtoint','inttoptr','bitcast'):
            if op=='bitcast' and t[0]!=t2[0]:
                if t2[0]=='d': return lit(bits2f(v)) if isinstance(v,int) else v
                if t[0]=='d' and v.op=='c': return f2bits(float(v.args[0]))
            return v
        raise Unsupported('cast '+op)
    def f2i(self,e,t,signed=False):
        bits=t[1]; mx=(1<<bits)-1
        if e.op=='nf': return mx if e.args[0]=='inf' else 0
        if e.op=='c':
            q=math.trunc(e.args[0])
            if signed: return max(-(1<<(bits-1)),min((1<<(bits-1))-1,q))&mx
            return max(0,min(mx,q))
        r=ival(e,self.ranges)
        if r is None: raise Unsupported('float to int of unbounded %s'%show(e))
        lo,hi=int(mpmath.floor(r[0])),int(mpmath.floor(r[1]))
        lo=max(lo,0); hi=max(hi,0); hi=min(hi,mx)
        if signed: raise Unsupported('signed f2i')
        if hi-lo>400: raise Unsupported('float to int over a range of %d values'%(hi-lo))
        opts=list(range(lo,hi+1))
        ck=self.ckey(e.args[1] if e.op=='fn' and e.args[0] in('ceil','floor','trunc') else e,ZERO)
        if ck is not None:
            # scale matters here: key on the exact normal form
            u0=e.args[1] if e.op=='fn' and e.args[0] in('ceil','floor','trunc') else e
            f=_ckN.norm(u0); ck=(e.args[0] if e.op=='fn' else '',_ckN.key(f))
            if ck in self.f2ic: return self.f2ic[ck]
        k=self.choose(opts) if len(opts)>1 else 0
        n=opts[k]
        if ck is not None: self.f2ic[ck]=n
        inner=e
        if len(opts)>1 or True:
            if e.op=='fn' and e.args[0]=='ceil':
                u=e.args[1]
                if n>0 : self.conds.append(Cond('<',C(n-1),u))
                if n<mx: self.conds.append(Cond('<=',u,C(n)))
            else:
                u=e.args[1] if e.op=='fn' and e.args[0] in('floor','trunc') else e
                if n>0: self.conds.append(Cond('<=',C(n),u))
                if n<mx: self.conds.append(Cond('<',u,C(n+1)))
        return n
class IntOf: pass
_ckeys={}
_ckN=None
FBIN={'fadd','fsub','fmul','fdiv','frem'}

# ---------------- base hooks: intrinsics, libm, allocator, panics ----------------
BASE_HOOKS={}
NEEDS=dict(ln='positive',log10='positive',sqrt='nonnegative',log1p='above -1',acos='within 1',asin='within 1')
def hook(*names):
    def d(f):
        for n in names: BASE_HOOKS[n]=f
        return f
    return d
def _u(name):
    def h(ex,a,n):
        if a[0].op=='nf': raise NonFinite(name)
        if ex.defs and name in NEEDS and a[0].op!='c': ex.need(NEEDS[name],a[0])
        return fn(name,a[0])
    return h
for nm,names in dict(exp=['llvm.exp.f64','exp'],ln=['llvm.log.f64','log'],log10=['llvm.log10.f64','log10'],sqrt=['llvm.sqrt.f64','sqrt'],sinh=['sinh'],cosh=['cosh'],tanh=['tanh'],sin=['llvm.sin.f64','sin'],cos=['llvm.cos.f64','cos'],
  tan=['tan','llvm.tan.f64'],acos=['acos','llvm.acos.f64'],asin=['asin','llvm.asin.f64'],atan=['atan','llvm.atan.f64'],abs=['llvm.fabs.f64'],ceil=['llvm.ceil.f64'],floor=['llvm.floor.f64'],round=['llvm.round.f64'],log1p=['log1p'],expm1=['expm1'],cbrt=['cbrt'],trunc=['llvm.trunc.f64']).items():
    for n in names: BASE_HOOKS[n]=_u(nm)
@hook('sincos')
def _(ex,a,n): raise Unsupported('sincos')
@hook('llvm.exp2.f64','exp2')
def _(ex,a,n): return fn('exp',mul(a[0],fn('ln',C(2))))
@hook('llvm.log2.f64','log2')
def _(ex,a,n): return div(fn('ln',a[0]),fn('ln',C(2)))
@hook('hypot')
def _(ex,a,n): return fn('sqrt',add(powi(a[0],2),powi(a[1],2)))
@hook('llvm.sinh.f64')
def _(ex,a,n): return fn('sinh',a[0])
@hook('llvm.cosh.f64')
def _(ex,a,n): return fn('cosh',a[0])
@hook('llvm.tanh.f64')
def _(ex,a,n): return fn('tanh',a[0])
@hook('llvm.powi.f64.i32')
def _(ex,a,n):
    k=a[1]
    if not isinstance(k,int):
        if isinstance(k,SymI): return fn('powf',a[0],k.toE())
        else: raise Unsupported('symbolic powi')
    k=k-(1<<32) if k>>31 else k
    if ex.defs and k<0 and a[0].op!='c': ex.need('nonzero',a[0])
    return powi(a[0],k)
@hook('llvm.pow.f64','pow')
def _(ex,a,n):
    if ex.defs and a[0].op!='c': ex.need('positive',a[0])
    return fn('powf',a[0],a[1])
@hook('llvm.fma.f64','llvm.fmuladd.f64','fma')
def _(ex,a,n): return add(mul(a[0],a[1]),a[2])
@hook('llvm.maxnum.f64','llvm.maximum.f64','fmax','llvm.maximumnum.f64')
def _(ex,a,n): return a[1] if ex.branch(ex.fcmp('olt',a[0],a[1])) else a[0]
@hook('llvm.minnum.f64','llvm.minimum.f64','fmin','llvm.minimumnum.f64')
def _(ex,a,n): return a[0] if ex.branch(ex.fcmp('olt',a[0],a[1])) else a[1]
@hook('llvm.copysign.f64')
def _(ex,a,n):
    neg_=ex.branch(ex.fcmp('olt',a[1],ZERO)); v=fn('abs',a[0]); return X.neg(v) if neg_ else v
def _reg(prefix,f):
    for b in (8,16,32,64,128):
        BASE_HOOKS['%s.i%d'%(prefix,b)]=(lambda b:lambda ex,a,n:f(ex,a,b))(b)
def _ovf(op,signed):
    def f(ex,a,b):
        x,y=a[0],a[1]; m=(1<<b)-1
        if isinstance(x,SymI) or isinstance(y,SymI):
            r=ex.isub(x,y) if op=='sub' else ex.isub(x,ex.isub(0,y)) if op=='add' else None
            if op=='mul':
                if isinstance(y,int): r=SymI({k:v*y for k,v in x.lin.items()},x.c*y,b).simp()
                elif isinstance(x,int): r=SymI({k:v*x for k,v in y.lin.items()},y.c*x,b).simp()
            if r is not None:
                hi=m if not signed else (1<<(b-1))-1; lo=0 if not signed else -(1<<(b-1))
                # fork on overflow
                if isinstance(r,SymI):
                    if signed:
                        l,h=ex.irange(r)
                        if l<0: x=ex.conc(x); y=ex.conc(y); return f(ex,[x,y],b)
                    under=ex.icmp('slt',r,lo,('i',256)) if not isinstance(r,int) else int(r<lo)
                    if under: return (0,1)
                    over=ex.icmp('sgt',r,hi,('i',256))
                    if over: return (0,1)
                    if isinstance(r,SymI): r.bits=b
                    l,h=ex.irange(r)
                    return (r if l!=h else l,0)
                return (r&m,int(not lo<=r<=hi))
            x=ex.conc(x); y=ex.conc(y)
        if signed:
            sx=x-(1<<b) if x>>(b-1) else x; sy=y-(1<<b) if y>>(b-1) else y
            r={'add':sx+sy,'sub':sx-sy,'mul':sx*sy}[op]
            return (r&m,int(not -(1<<(b-1))<=r<(1<<(b-1))))
        r={'add':x+y,'sub':x-y,'mul':x*y}[op]
        return (r&m,int(not 0<=r<=m))
    return f
for op in('add','sub','mul'):
    _reg('llvm.u%s.with.overflow'%op,_ovf(op,False)); _reg('llvm.s%s.with.overflow'%op,_ovf(op,True))
_reg('llvm.uadd.sat',lambda ex,a,b:min((1<<b)-1,ex.conc(a[0])+ex.conc(a[1])))
_reg('llvm.usub.sat',lambda ex,a,b:max(0,ex.conc(a[0])-ex.conc(a[1])))
_reg('llvm.ctpop',lambda ex,a,b:bin(ex.conc(a[0])).count('1'))
_reg('llvm.ctlz',lambda ex,a,b:b-ex.conc(a[0]).bit_length())
_reg('llvm.cttz',lambda ex,a,b:(lambda v:(v&-v).bit_length()-1 if v else b)(ex.conc(a[0])))
_reg('llvm.is.constant',lambda ex,a,b:0)
def _mm(f,signed):
    def g(ex,a,b):
        x,y=a
        if isinstance(x,SymI) or isinstance(y,SymI):
            lt=ex.icmp('slt' if signed else 'ult',x,y,('i',b)); return (x if lt else y) if f=='min' else (y if lt else x)
        s=(lambda v:v-(1<<b) if v>>(b-1) else v) if signed else (lambda v:v)
        return min(x,y,key=s) if f=='min' else max(x,y,key=s)
    return g
for f_ in('min','max'):
    _reg('llvm.u'+f_,_mm(f_,False)); _reg('llvm.s'+f_,_mm(f_,True))
_reg('llvm.abs',lambda ex,a,b:a[0] if not a[0]>>(b-1) else (1<<b)-a[0])
_reg('llvm.expect',lambda ex,a,b:a[0])
BASE_HOOKS['llvm.expect.i1']=lambda ex,a,n:a[0]
for b in (8,16,32,64,128):
    BASE_HOOKS['llvm.fptoui.sat.i%d.f64'%b]=(lambda b:lambda ex,a,n:ex.f2i(a[0],('i',b)))(b)
    BASE_HOOKS['llvm.fptosi.sat.i%d.f64'%b]=(lambda b:lambda ex,a,n:ex.f2i(a[0],('i',b),True))(b)
@hook('llvm.memcpy.p0.p0.i64','llvm.memmove.p0.p0.i64','memcpy','memmove')
def _(ex,a,n): ex.memcpy(a[0],a[1],a[2]); return a[0]
@hook('llvm.memset.p0.i64','memset')
def _(ex,a,n):
    p,v,k=a[:3]
    if k==0: return p
    m,off=ex.obj(p,k); ex._clear(m,off,k)
    for o in [o for o in m.d if off<=o<off+k]: del m.d[o]
    if v is UNINIT: return p
    i=0; w=int.from_bytes(bytes([v])*8,'little')
    while i+8<=k: m.d[off+i]=(8,w); i+=8
    while i<k: m.d[off+i]=(1,v); i+=1
    return p
@hook('llvm.lifetime.start.p0','llvm.lifetime.end.p0','llvm.assume','llvm.experimental.noalias.scope.decl','llvm.donothing','llvm.dbg.declare','llvm.dbg.value','__rustc::__rust_no_alloc_shim_is_unstable_v2','__rustc::__rust_dealloc','__rustc::__rust_no_alloc_shim_is_unstable')
def _(ex,a,n): return None
@hook('__rustc::__rust_alloc')
def _(ex,a,n): return ex.alloc(ex.conc(a[0]))
@hook('__rustc::__rust_alloc_zeroed')
def _(ex,a,n):
    p=ex.alloc(ex.conc(a[0])); BASE_HOOKS['memset'](ex,[p,0,a[0]],'memset') if a[0] else None; return p
@hook('__rustc::__rust_realloc')
def _(ex,a,n):
    p=ex.alloc(a[3]); ex.memcpy(p,a[0],min(a[1],a[3])); return p
@hook('llvm.trap','abort')
def _(ex,a,n): raise PanicPath('trap')
def _panic(ex,a,n): raise PanicPath(ex.mod.dem.get(n,n).split('::')[-1])
BASE_HOOKS['re:^core::panicking::']=_panic
BASE_HOOKS['re:^core::(result|option)::.*(unwrap|expect)_failed']=_panic
BASE_HOOKS['re:^core::num::imp::overflow_panic|panic_for_nonpositive']=_panic
BASE_HOOKS['re:^core::slice::index::slice_.*fail|^core::str::slice_error']=_panic
BASE_HOOKS['re:^alloc::(raw_vec::handle_error|alloc::handle_alloc_error|raw_vec::capacity_overflow)']=_panic
BASE_HOOKS['re:^std::(panicking|rt)::(begin_panic|panic_fmt)']=_panic
BASE_HOOKS['re:^core::panicking::panic_in_cleanup']=_panic
def _fresh(kind):
    """a scripted draw if the harness has scripted one, else a fresh symbol"""
    def h(ex,a,n):
        q=ex.extra.get('script',{}).get(kind)
        if q: return q.pop(0)
        ex.fresh+=1; s='%s%d'%(kind,ex.fresh); ex.extra.setdefault('draws',[]).append(s); return S('$'+s)
    return h
BASE_HOOKS['__vt_uniform']=_fresh('u'); BASE_HOOKS['__vt_normal']=_fresh('z')
def _put(kind):
    def h(ex,a,n): ex.extra['script'][kind].append(a[0])
    return h
def _begin(ex,a,n): ex.extra['script']=dict(u=[],z=[])
BASE_HOOKS['__vt_begin']=_begin; BASE_HOOKS['__vt_putu']=_put('u'); BASE_HOOKS['__vt_putn']=_put('z')
