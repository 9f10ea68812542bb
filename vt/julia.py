"""Reads the Julia wrappers (src/**/mod.jl): parses the subset of Julia they are written in, executes them symbolically, and lets every
ccall run the exported C function it names (LLVM IR symbolically, the compiled library in the replay)."""
import os,re,sys,json
from fractions import Fraction as F
from expr import *
import stage,oblig
from oblig import CALL,QUAD
HERE=os.path.dirname(os.path.abspath(__file__))
class JlError(Exception):
    """what Julia would raise (or the call would corrupt): the wrapper is broken"""
class JlUnsupported(Exception): pass
TOK=re.compile(r'''(?P<doc>"""(?:\\.|[^\\])*?""")|(?P<str>"(?:\\.|[^"\\])*")|(?P<com>\#=.*?=\#|\#[^\n]*)|(?P<num>0x[0-9a-fA-F]+|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)|(?P<sym>:(?=[A-Za-z_])[A-Za-z_]\w*)|(?P<op>->|::|\.\+|\.-|\.\*|\./|\.\^|==|<=|>=|!=|&&|\|\||\.{1,}|[-+*/^=<>(){}\[\],;@?:!])|(?P<id>[^\W\d]\w*!?)|(?P<nl>\n)|(?P<ws>[ \t\r]+)''',re.S)
def lex(t):
    out=[]; depth=0; i=0
    while i<len(t):
        m=TOK.match(t,i)
        if not m: raise JlUnsupported('character %r'%t[i:i+20])
        k=m.lastgroup; v=m.group(); i=m.end()
        if k in('ws','com','doc'): continue
        # ":name" after an expression is not a symbol here (no ternaries, ranges or typed names in the wrappers)
        if k=='op':
            if v in '([{': depth+=1
            elif v in ')]}': depth-=1
        if k=='nl':
            if depth==0 and out and out[-1][0]!='nl': out.append(('nl','\n'))
            continue
        out.append((k,v))
    out.append(('nl','\n')); out.append(('end',''))
    return out
class Parser:
    def __init__(s,t): s.t=lex(t); s.i=0
    def pk(s,k=0): return s.t[min(s.i+k,len(s.t)-1)]
    def nx(s): x=s.t[s.i]; s.i+=1; return x
    def is_(s,v): return s.pk()[1]==v and s.pk()[0] in('op','id')
    def eat(s,v):
        if not s.is_(v): raise JlUnsupported('expected %r, got %r'%(v,[x[1] for x in s.t[s.i:s.i+6]]))
        s.nx()
    def opt(s,v):
        if s.is_(v): s.nx(); return True
    def nls(s):
        while s.pk()[0]=='nl' or s.is_(';'): s.nx()
    def block(s,ends=('end',)):
        out=[]
        while 1:
            s.nls(); k,v=s.pk()
            if k=='end': 
                if '' in ends: return out
                raise JlError('syntax: the file ends too early')
            if k=='id' and v in ends: return out
            out.append(s.stmt())
    def params(s):
        p=[]
        s.eat('(')
        while not s.is_(')'):
            n=s.nx()[1]; ty=None; dv=None
            if s.opt('::'): ty=s.type_()
            if s.opt('='): dv=s.expr()
            p.append((n,ty,dv))
            if not s.opt(',') and not s.opt(';'): break
        s.eat(')')
        return p
    def type_(s):
        n=s.nx()[1]; a=[]
        while s.is_('.'): s.nx(); n=s.nx()[1]
        if s.opt('{'):
            while not s.is_('}'):
                a.append(s.type_())
                if not s.opt(','): break
            s.eat('}')
        return (n,tuple(a))
    def stmt(s):
        k,v=s.pk()
        if k=='id':
            if v in('module','baremodule'):
                s.nx(); n=s.nx()[1]; b=s.block(); s.eat('end'); return ('module',n,b)
            if v in('using','import'):
                s.nx(); r=[]
                while s.pk()[0]!='nl': r.append(s.nx())
                # a list of names may go on after a comma
                while r and r[-1][1]==',':
                    s.nls()
                    while s.pk()[0]!='nl': r.append(s.nx())
                return ('using',r)
            if v=='export':
                while s.pk()[0]!='nl': s.nx()
                return ('pass',)
            if v=='const': s.nx(); return s.stmt()
            if v=='mutable': s.nx(); return s.stmt()
            if v=='struct':
                s.nx(); n=s.nx()[1]; f=[]
                while 1:
                    s.nls()
                    if s.opt('end'): break
                    nm=s.nx()[1]; ty=None
                    if s.opt('::'): ty=s.type_()
                    f.append((nm,ty))
                return ('struct',n,f)
            if v=='function':
                s.nx(); n=s.nx()[1]; p=s.params()
                if s.opt('::'): s.type_()
                b=s.block(); s.eat('end'); return ('function',n,p,b)
            if v=='return':
                s.nx(); return ('return',s.expr() if s.pk()[0]!='nl' else None)
            if v=='include':
                s.nx(); s.eat('('); f=s.nx(); s.eat(')'); return ('include',f[1].strip('"'))
            if v=='if':
                s.nx(); br=[]; c=s.expr(); b=s.block(('else','elseif','end')); br.append((c,b)); el=None
                while 1:
                    if s.opt('elseif'): c=s.expr(); br.append((c,s.block(('else','elseif','end'))))
                    elif s.opt('else'): el=s.block()
                    else: s.eat('end'); break
                return ('if',br,el)
            # name(params) = body
            if s.pk(1)==('op','('):
                j=s.i
                try:
                    n=s.nx()[1]; p=s.params()
                    if s.opt('::'): s.type_()
                    if s.opt('='): s.nls(); return ('function',n,p,[('return',s.expr())])
                except JlUnsupported: pass
                s.i=j
        e=s.expr()
        if e[0]=='name':
            if s.opt('::'): s.type_()
            if s.opt('='): s.nls(); return ('assign',e[1],s.expr())
        return ('expr',e)
    # expressions
    def expr(s):
        s.skipn(); j=s.i
        l=s.lambda_()
        if l is not None: return l
        s.i=j
        return s.cmp()
    def skipn(s):
        while s.pk()[0]=='nl': s.nx()
    def lambda_(s):
        try:
            if s.is_('('):
                p=s.params()
            elif s.pk()[0]=='id': p=[(s.nx()[1],None,None)]
            else: return None
        except JlUnsupported: return None
        if not s.is_('->'): return None
        s.nx(); return ('lambda',p,s.expr())
    def cmp(s):
        a=s.sum_()
        while s.pk()[1] in('==','<','>','<=','>=','!=') and s.pk()[0]=='op':
            o=s.nx()[1]; s.skipn(); a=('bin',o,a,s.sum_())
        return a
    def sum_(s):
        a=s.prod()
        while s.pk()[0]=='op' and s.pk()[1] in('+','-','.+','.-'):
            o=s.nx()[1]; s.skipn(); a=('bin',o,a,s.prod())
        return a
    def prod(s):
        a=s.unary()
        while s.pk()[0]=='op' and s.pk()[1] in('*','/','.*','./'):
            o=s.nx()[1]; s.skipn(); a=('bin',o,a,s.unary())
        return a
    def unary(s):
        if s.is_('-'): s.nx(); return ('neg',s.unary())
        if s.is_('+'): s.nx(); return s.unary()
        return s.pow_()
    def pow_(s):
        a=s.post()
        if s.pk()[0]=='op' and s.pk()[1] in('^','.^'):
            o=s.nx()[1]; s.skipn(); return ('bin',o,a,s.unary())
        return a
    def post(s):
        a=s.atom()
        while 1:
            if s.is_('('): a=('call',a,*s.args())
            elif s.is_('.') and s.pk(1)[0]=='id': s.nx(); a=('dot',a,s.nx()[1])
            elif s.is_('.') and s.pk(1)==('op','('): s.nx(); a=('bcall',a,s.args()[0])
            elif s.is_('['):
                s.nx(); i=s.expr(); s.eat(']'); a=('index',a,i)
            else: return a
    def args(s):
        s.eat('('); a=[]; kw=[]
        while not s.is_(')'):
            if s.opt(';'): continue
            if s.pk()[0]=='id' and s.pk(1)==('op','='):
                n=s.nx()[1]; s.nx(); kw.append((n,s.expr()))
            else: a.append(s.expr())
            if not s.opt(',') and not s.is_(';'): break
        s.eat(')')
        return a,kw
    def atom(s):
        k,v=s.pk()
        if k=='num': s.nx(); return ('num',v)
        if k=='str': s.nx(); return ('str',v[1:-1])
        if k=='sym': s.nx(); return ('sym',v[1:])
        if k=='id':
            if v in('begin','let','for','while','do','try','quote','macro'): raise JlUnsupported(v)
            s.nx(); return ('name',v)
        if s.is_('@'):
            s.nx(); return ('str','@'+s.nx()[1])
        if s.is_('('):
            s.nx(); a=[]; tup=False
            while not s.is_(')'):
                a.append(s.expr())
                if s.opt(','): tup=True
                else: break
            s.eat(')')
            return ('tuple',a) if tup or not a else a[0]
        raise JlUnsupported('at %r'%[x[1] for x in s.t[s.i:s.i+6]])
# ---- evaluation ----
class U8:
    def __init__(s,e): s.e=e
class Arr:
    def __init__(s,v): s.v=list(v)
class Clo:
    def __init__(s,name,methods): s.name=name; s.methods=methods
class Obj:
    def __init__(s,ty,f): s.ty=ty; s.f=f
class Ty:
    def __init__(s,name,fields): s.name=name; s.fields=fields; s.ctors=[]
class Mod:
    def __init__(s,name,parent,path): s.name=name; s.parent=parent; s.v={}; s.imp={}; s.path=path
    def get(s,n,seen=()):
        if n in s.v: return s.v[n]
        if n in s.imp and s.imp[n]!='external':
            m,k=s.imp[n]
            if (m,k) in seen: raise JlError('UndefVarError: %s'%n)
            return m.get(k,seen+((m,k),))
        raise JlError('UndefVarError: %s'%n)
class Ret(Exception):
    def __init__(s,v): s.v=v
def isnum(v): return isinstance(v,(int,E,U8)) and not isinstance(v,bool)
def num(v):
    if isinstance(v,U8): return v.e
    if isinstance(v,int): return C(v)
    if isinstance(v,E): return v
    raise JlError('a number is needed, got %s'%type(v).__name__)
class Julia:
    POINTS=64
    def __init__(s,root,sigs):
        """sigs: exported C function -> argument types"""
        s.root=root; s.sigs=sigs; s.files=[]
        s.fuel=10**6; s.nq=0
        main=Mod('Main',None,root); s.file(os.path.join(root,'Polymers.jl'),main); s.top=main.v['Polymers']
    def file(s,p,mod):
        if not os.path.exists(p): raise JlError('include: no file %s'%os.path.relpath(p,s.root))
        s.files.append(os.path.relpath(p,s.root)); r=None
        for st in Parser(open(p,newline='').read()).block(('',)): r=s.top_stmt(st,mod,os.path.dirname(p)) or r
        return r
    def top_stmt(s,st,mod,d):
        k=st[0]
        if k=='module':
            m=Mod(st[1],mod,d)
            mod.v[st[1]]=m; m.v[st[1]]=m
            for x in st[2]: s.top_stmt(x,m,d)
            return m
        if k=='include': s.file(os.path.join(d,st[1]),mod)
        elif k=='using': s.using(st[1],mod)
        elif k=='struct': mod.v[st[1]]=Ty(st[1],st[2])
        elif k=='function':
            f=(st[2],st[3],mod); o=mod.v.get(st[1])
            if isinstance(o,Ty): o.ctors=[g for g in o.ctors if sig(g)!=sig(f)]+[f]
            elif isinstance(o,Clo): o.methods=[g for g in o.methods if sig(g)!=sig(f)]+[f]
            else: mod.v[st[1]]=Clo(st[1],[f])
        elif k=='assign':
            try: mod.v[st[1]]=s.ev(st[2],{},mod)
            except (JlUnsupported,JlError): mod.v[st[1]]=None
        elif k in('pass','expr'): pass
        else: raise JlUnsupported('statement %s'%k)
    def using(s,r,mod):
        w=[v for _,v in r]; names=None
        if ':' in w or any(k=='sym' for k,_ in r):
            # "using ..A: x, y" lexes as  .. A :  x , y
            i=next(i for i,(k,v) in enumerate(r) if v==':' or k=='sym'); names=[v.lstrip(':') for k,v in r[i:] if v not in(':',',')]; r=r[:i]
        dots=sum(len(v) for k,v in r if k=='op' and set(v)=={'.'} ) if r and r[0][0]=='op' else 0
        if not dots:
            for k,v in r:
                if k=='id': mod.imp[v]='external'
            for n in names or []: mod.imp[n]='external'
            return
        m=mod
        for _ in range(dots-1):
            m=m.parent
            if m is None: raise JlError('using: too many dots in module %s'%mod.name)
        p=[v for k,v in r if k=='id']
        # the leading dots only
        for n in p[:-1] if names is None else p:
            # a module being loaded is visible under its own name from inside its parent
            x=m.v.get(n)
            if x is None: raise JlError('UndefVarError: %s in module %s'%(n,mod.name))
            m=x
        for n in (names if names is not None else p[-1:]): mod.imp[n]=(m,n)
    # calls
    def call(s,f,args,kw=None):
        if isinstance(f,Clo) and f.name=='integrate' and not kw and len(args)==4 and args[3]==s.POINTS and f.methods[0][2].name=='SingleChain':
            # the quadrature rule is judged on its own, for any function
            s.nq+=1; x=S('$j%d'%s.nq)
            return QUAD(x.args[0],num(args[1]),num(args[2]),num(s.call(args[0],[x])))
        s.fuel-=1
        if s.fuel<0: raise JlUnsupported('too long')
        if callable(f): return f(*args,**(kw or {}))
        if kw: raise JlUnsupported('keyword arguments')
        if isinstance(f,Ty):
            for g in f.ctors:
                if s.match(g[0],args): return s.run(g,args)
            if len(args)!=len(f.fields): raise JlError('MethodError: %s takes %d fields, got %d'%(f.name,len(f.fields),len(args)))
            return Obj(f,{n:conv(v,t) for (n,t),v in zip(f.fields,args)})
        if isinstance(f,Clo):
            for g in f.methods:
                if s.match(g[0],args): return s.run(g,args)
            raise JlError('MethodError: no method %s for %d arguments of these types'%(f.name,len(args)))
        raise JlError('not callable: %r'%(f,))
    def match(s,p,args):
        n=sum(1 for x in p if x[2] is None)
        return n<=len(args)<=len(p) and all(fits(v,t) for v,(_,t,_) in zip(args,p))
    def run(s,g,args):
        p,body,scope=g[:3]; env=dict(g[3]) if len(g)>3 else {}
        for i,(n,t,dv) in enumerate(p): env[n]=args[i] if i<len(args) else s.ev(dv,env,scope)
        if isinstance(body,tuple): return s.ev(body,env,scope)
        try: return s.block(body,env,scope)
        except Ret as r: return r.v
    def block(s,b,env,mod):
        r=None
        for st in b:
            if st[0]=='return': raise Ret(s.ev(st[1],env,mod))
            elif st[0]=='assign': r=env[st[1]]=s.ev(st[2],env,mod)
            elif st[0]=='expr': r=s.ev(st[1],env,mod)
            elif st[0]=='function': env[st[1]]=Clo(st[1],[(st[2],st[3],mod,env)])
            else: raise JlUnsupported('statement %s'%st[0])
        return r
    def ev(s,e,env,mod):
        k=e[0]
        if k=='num':
            t=e[1]
            if t.startswith('0x'): return int(t,16)
            return int(t) if t.isdigit() else C(F(t))
        if k=='name':
            n=e[1]
            if n in env: return env[n]
            m=mod
            try: return m.get(n)
            except JlError:
                if n in BUILTIN: return getattr(s,'b_'+n)
                if n=='pi': return S('$pi')
                raise
        if k=='lambda': return Clo('lambda',[(e[1],e[2],mod,env)])
        if k=='neg': return s.arith('-',0,s.ev(e[1],env,mod))
        if k=='bin': return s.arith(e[1],s.ev(e[2],env,mod),s.ev(e[3],env,mod))
        if k=='tuple': return tuple(s.ev(x,env,mod) for x in e[1])
        if k=='sym': return ('sym',e[1])
        if k=='str': return e[1]
        if k=='index':
            a=s.ev(e[1],env,mod); i=s.ev(e[2],env,mod)
            if isinstance(a,Arr) and isinstance(i,int) and 1<=i<=len(a.v): return a.v[i-1]
            raise JlUnsupported('index')
        if k=='dot':
            if e[1]==('name','Polymers_jll'): return ('lib',e[2])
            o=s.ev(e[1],env,mod)
            if isinstance(o,Mod): return o.get(e[2])
            if isinstance(o,Obj):
                if e[2] not in o.f: raise JlError('type %s has no field %s'%(o.ty.name,e[2]))
                return o.f[e[2]]
            raise JlError('no property %s'%e[2])
        if k=='bcall': return s.b_broadcast(s.ev(e[1],env,mod),*[s.ev(x,env,mod) for x in e[2]])
        if k=='call':
            if e[1]==('name','ccall'): return s.ccall(e[2],env,mod)
            return s.call(s.ev(e[1],env,mod),[s.ev(x,env,mod) for x in e[2]],{n:s.ev(x,env,mod) for n,x in e[3]})
        raise JlUnsupported(k)
    def ccall(s,a,env,mod):
        t=s.ev(a[0],env,mod)
        if isinstance(t,tuple) and t and t[0]=='sym': name=t[1]
        elif isinstance(t,tuple) and len(t)==2 and t[0][0]=='sym' and t[1]==('lib','libpolymers'): name=t[0][1]
        else: raise JlUnsupported('ccall target')
        ty=lambda x:x[1] if x[0]=='name' else '?'
        ret=ty(a[1]); tys=[ty(x) for x in a[2][1]] if a[2][0]=='tuple' else [ty(a[2])]
        args=[s.ev(x,env,mod) for x in a[3:]]
        if len(args)!=len(tys): raise JlError('ccall %s: %d argument types for %d arguments'%(name,len(tys),len(args)))
        if name not in s.sigs: raise JlError('could not load symbol "%s"'%name)
        want=[{'u8':'UInt8','f64':'Float64'}[x] for x in s.sigs[name]]
        if tys!=want or ret!='Float64': raise JlError('ccall %s is declared (%s)::%s, the C function takes (%s) and returns Float64'%(name,','.join(tys),ret,','.join(want)))
        out=[]
        for v,t in zip(args,tys):
            if isinstance(v,Arr) or not isnum(v): raise JlError('ccall %s: cannot convert %s to %s'%(name,type(v).__name__,t))
            if t=='UInt8' and not isinstance(v,(U8,int)): raise JlError('ccall %s: a Float64 is passed where UInt8 is declared'%name)
            out.append(num(v))
        return CALL('x__'+name,*out)
    def arith(s,o,a,b):
        if o[0]=='.' and (isinstance(a,Arr) or isinstance(b,Arr)): return s.b_broadcast(lambda x,y:s.arith(o[1:],x,y),a,b)
        o=o.lstrip('.')
        if isinstance(a,Arr) or isinstance(b,Arr):
            # array times or divided by a scalar
            if o=='*' and not(isinstance(a,Arr) and isinstance(b,Arr)) or o=='/' and not isinstance(b,Arr): return s.b_broadcast(lambda x,y:s.arith(o,x,y),a,b)
            if o in'+-' and isinstance(a,Arr) and isinstance(b,Arr): return s.b_broadcast(lambda x,y:s.arith(o,x,y),a,b)
            raise JlError('MethodError: %s on an array and a number'%o)
        if isinstance(a,int) and isinstance(b,int) and o in'+-*': return {'+':a+b,'-':a-b,'*':a*b}[o]
        if isinstance(a,U8) and isinstance(b,U8) and o in '+-*': raise JlUnsupported('UInt8 arithmetic')
        x,y=num(a),num(b)
        if o=='+': return add(x,y)
        if o=='-': return sub(x,y)
        if o=='*': return mul(x,y)
        if o=='/': return div(x,y)
        if o=='^':
            if isinstance(b,int): return powi(x,b)
            raise JlUnsupported('power')
        raise JlUnsupported('operator '+o)
    # library functions
    def b_broadcast(s,f,*a):
        n={len(x.v) for x in a if isinstance(x,Arr)}-{1}
        if not any(isinstance(x,Arr) for x in a): return s.call(f,list(a))
        if len(n)>1: raise JlError('DimensionMismatch')
        n=n.pop() if n else 1
        return Arr(s.call(f,[(x.v[i] if len(x.v)>1 else x.v[0]) if isinstance(x,Arr) else x for x in a]) for i in range(n))
    def b_map(s,f,*a): return s.b_broadcast(f,*a)
    def b_collect(s,a): return a
    def b_float(s,a): return num(a)
    def b_Float64(s,a): return num(a)
    def b_sqrt(s,a): return fn('sqrt',num(a))
    def b_exp(s,a): return fn('exp',num(a))
    def b_log(s,a): return fn('ln',num(a))
    def b_length(s,a): return len(a.v)
    def b_sum(s,*a):
        if len(a)==2: a=(s.b_broadcast(a[0],a[1]),)
        r=0
        for x in a[0].v: r=s.arith('+',r,x)
        return r
    def b_range(s,lo,hi=None,stop=None,length=None,step=None):
        hi=hi if hi is not None else stop
        if not isinstance(length,int) or length<1: raise JlUnsupported('range')
        d=div(sub(num(hi),num(lo)),C(length-1)) if length>1 else ZERO
        return Arr([add(num(lo),mul(C(i),d)) for i in range(length)])
BUILTIN={k[2:] for k in dir(Julia) if k.startswith('b_')}
def sig(g): return tuple(str(t) for _,t,_ in g[0])
def fits(v,t):
    if t is None or t[0]=='Any': return True
    n=t[0]
    if n=='Union': return any(fits(v,x) for x in t[1])
    if n in('Vector','Matrix','Array','AbstractArray','AbstractVector'): return isinstance(v,Arr)
    if n=='Float64': return isinstance(v,E)
    if n=='UInt8': return isinstance(v,U8)
    if n in('Int','Int64'): return isinstance(v,int)
    if n in('Real','Number'): return isnum(v)
    if n=='Function': return isinstance(v,Clo) or callable(v)
    return True
def conv(v,t):
    """a field converts what it is given to its declared type"""
    if t is None or t[0]=='Any': return v
    if t[0]=='Float64':
        if isnum(v): return num(v)
        raise JlError('cannot convert %s to Float64'%type(v).__name__)
    if t[0]=='UInt8':
        if isinstance(v,U8): return v
        if isinstance(v,int): return U8(C(v))
        raise JlError('InexactError: a Float64 in a UInt8 field')
    if t[0]=='Function' and not(isinstance(v,Clo) or callable(v)): raise JlError('cannot convert %s to Function'%type(v).__name__)
    return v
def modules(m,path=()):
    yield path+(m.name,),m
    for n,x in list(m.v.items()):
        if isinstance(x,Mod) and x.parent is m: yield from modules(x,path+(m.name,))

# ---- obligations ----
API=os.path.join(HERE,'jlapi.json')
def fam_julia(c):
    import families as FA,genharness
    from driver import Task
    out=[]; d=json.load(open(API)); root=os.path.join(stage.REPO,'src')
    sigs={e.name:[t for _,t in e.args] for e in c.ents if e.kind=='extern' and e.name in c.W.mod.funcs and ' internal ' not in c.W.mod.funcs[e.name].header}
    def broken(name,msg,where=''): out.append(Task(name,lambda c,m=msg:dict(status='violated',detail=m,env={},replay=m),where))
    def undecided(name,msg): out.append(Task(name,lambda c,m=msg:dict(status='undecided',detail=m)))
    try: j=Julia(root,sigs)
    except JlError as e: broken('Julia package loads',str(e)); return out
    except JlUnsupported as e: undecided('Julia package loads','not in the subset of Julia read here: %s'%e); return out
    Julia.POINTS=oblig.points(c.W); sym=FA.argsym
    mods={os.path.relpath(m.path,root).replace('/','::'):m for _,m in modules(j.top)}
    def val(x,t,arr):
        if t=='u8': return Arr([U8(C(7)),U8(S('N'))]) if arr else U8(S('N'))
        return Arr([S(x+'_2'),S(x)]) if arr else S(x)
    def second(v):
        if isinstance(v,Arr):
            if len(v.v)!=2: raise JlError('two elements in, %d out'%len(v.v))
            return num(v.v[1])
        return num(v)
    def add_(name,mod,thunk,spec,kw):
        try: l=second(thunk())
        except JlError as e: return broken(name,str(e),mod)
        except JlUnsupported as e: return undecided(name,'not in the subset of Julia read here: %s'%e)
        FA.emit(out,genharness.short(mod),name,l,spec,genharness.short(mod),c.tier,**kw)
    for f in d['functions']:
        g=FA.free().get(genharness.short(f['mod']),{}).get(f['name']); sh=genharness.short(f['mod'])
        name='Julia function %s::%s = the Rust function'%(sh,f['name'])
        if g is None: continue
        m=mods.get(f['mod']); fn_=m and m.v.get(f['name'])
        if not isinstance(fn_,Clo): broken(name,'not defined',f['mod']); continue
        add_(name,f['mod'],lambda:j.call(fn_,[val(*a) for a in f['args']]),FA.callf(g),{})
    objs={o['mod']:o for o in d['objects']}; made={}
    for o in d['objects']:
        parts=o['mod'].split('::'); top=next('::'.join(parts[:i]) for i in range(1,len(parts)+1) if '::'.join(parts[:i]) in objs); rest=parts[len(top.split('::')):]
        sh=genharness.short(o['mod']); has={x for x,_ in o['args']}
        def get(o=o,top=top,rest=rest):
            if top not in made:
                t=objs[top]; m=mods.get(top); ty=m and m.v.get(t['name'])
                if not isinstance(ty,Ty): raise JlError('%s is not defined'%t['name'])
                made[top]=j.call(ty,[val(x,t,False) for x,t in t['args']])
            v=made[top]
            for r in rest:
                if not isinstance(v,Obj) or r not in v.f: raise JlError('no field %s'%r)
                v=v.f[r]
            return v
        for k,ps in o['fields']:
            name='Julia object %s.%s'%(sh,k)
            def field():
                v=get()
                if k not in v.f: raise JlError('type %s has no field %s'%(v.ty.name,k))
                return v.f[k]
            if ps=='object': continue
            if ps=='value':
                if k in has: add_(name+' = the parameter it was initialised with',o['mod'],field,sym(k),{})
                continue
            g=FA.free().get(sh,{}).get(k)
            if g is None: continue
            over,kw=FA.derived(g,o['mod'],has|set(ps))
            add_(name+' = the Rust function',o['mod'],lambda:j.call(field(),[val(x,'f64',i==0) for i,x in enumerate(ps)]),FA.callf(g,over),kw)
    # the quadrature rule
    sc=mods.get('physics::single_chain'); q=sc and sc.v.get('integrate')
    for n in range(1,7 if c.tier=='quick' else 13):
        name='Julia function integrate = the midpoint sum, %d points'%n
        try: l=num(j.call(q,[lambda x:CALL('k_f',num(x)),S('a'),S('b'),n]))
        except JlError as e: broken(name,str(e)); continue
        except JlUnsupported as e: undecided(name,str(e)); continue
        h=div(sub(S('b'),S('a')),C(n)); r=mul(h,sum_([CALL('k_f',add(S('a'),mul(C(F(2*i+1,2)),h))) for i in range(n)]))
        import kernels
        ob=oblig.Ob(name,l,r,{'a':(F(1,1000),F(1000)),'b':(F(1,1000),F(1000))},{},sample=lambda rn:{'a':rn.uniform(.1,1),'b':rn.uniform(1.5,3)},where='SingleChain.integrate',hooks=kernels.KH)
        out.append(ob)
    return out
def sum_(l):
    r=l[0]
    for x in l[1:]: r=add(r,x)
    return r
