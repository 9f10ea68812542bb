"""Parser for the textual LLVM IR rustc emits (lazy: a function body is parsed on first use)."""
import re, subprocess
class ParseError(Exception): pass
TOK=re.compile(r'''\s*(?:(c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|([%@](?:"[^"]*"|[-\w$.]+))|(-?\d+\.\d+(?:e[+-]?\d+)?)|(f?0x[0-9A-Fa-f]+|[+-]inf|[+-]?nan)|(-?\d+)|("[^"]*")|([A-Za-z_][\w.]*)|(<\{|\}>|[\[\]{}()<>,=*:]|\.\.\.)|(![\w.]*(?:\([^)]*\))?)|(\#\d+)|(.))''')
def tokenize(s):
    out=[]; i=0; n=len(s)
    while i<n:
        m=TOK.match(s,i)
        if not m or m.end()==i: break
        i=m.end(); k=m.lastindex
        if k is None: break
        out.append((k,m.group(k)))
    return out
# token kinds: 1 cstr 2 name 3 float 4 hex 5 int 6 str 7 word 8 punct 9 meta 10 attrgroup
# types: ('i',bits) ('d',) ('f',) ('p',) ('v',) ('s',[types],packed) ('a',n,type)
def sizeof(t):
    k=t[0]
    if k=='i': return max(1,(t[1]+7)//8) if t[1]<=8 else 1<<((t[1]-1).bit_length()-3) if t[1]&(t[1]-1) else t[1]//8
    if k=='d' or k=='p': return 8
    if k=='f': return 4
    if k=='v': return 0
    if k=='a': return t[1]*sizeof(t[2])
    if k=='s': return layout(t)[1]
    raise ParseError('sizeof %r'%(t,))
def alignof(t):
    k=t[0]
    if k=='i': return min(16,sizeof(t))
    if k in'dp': return 8
    if k=='f': return 4
    if k=='a': return alignof(t[2])
    if k=='s':
        if t[2]: return 1
        return max([1]+[alignof(x) for x in t[1]])
    return 1
_lay={}
def layout(t):
    key=repr(t)
    r=_lay.get(key)
    if r: return r
    off=0; offs=[]
    for x in t[1]:
        if not t[2]:
            a=alignof(x); off=(off+a-1)//a*a
        offs.append(off); off+=sizeof(x)
    a=alignof(t); off=(off+a-1)//a*a
    _lay[key]=(offs,off)
    return _lay[key]

NAMED={}
class P:
    def __init__(s,toks): s.t=toks; s.i=0
    def peek(s): return s.t[s.i] if s.i<len(s.t) else (0,'')
    def next(s): r=s.peek(); s.i+=1; return r
    def pw(s,w):
        if s.peek()[1]==w and s.peek()[0] in(7,8): s.i+=1; return True
        return False
    def expect(s,w):
        if not s.pw(w): raise ParseError('expected %s at %r'%(w,s.t[max(0,s.i-5):s.i+5]))
    def type(s):
        k,v=s.next()
        if k==7:
            if v[0]=='i' and v[1:].isdigit(): t=('i',int(v[1:]))
            elif v=='double': t=('d',)
            elif v=='float': t=('f',)
            elif v=='ptr': t=('p',)
            elif v=='void': t=('v',)
            elif v in('label','metadata','token'): t=('v',)
            else: raise ParseError('type '+v)
        elif v=='{' or v=='<{':
            close='}' if v=='{' else '}>'
            l=[]
            if not s.pw(close):
                while True:
                    l.append(s.type())
                    if s.pw(close): break
                    s.expect(',')
            t=('s',l,v=='<{')
        elif v=='[':
            n=int(s.next()[1]); s.expect('x'); e=s.type(); s.expect(']'); t=('a',n,e)
        elif v=='<':
            n=int(s.next()[1]); s.expect('x'); e=s.type(); s.expect('>'); t=('a',n,e)
        elif k==2 and v[0]=='%' and v in NAMED:
            if isinstance(NAMED[v],str): NAMED[v]=P(tokenize(NAMED[v])).type()
            t=NAMED[v]
        else: raise ParseError('type tok %r'%((k,v),))
        return t
    # operand: ('l',name) ('g',name) ('k',const) where const int or python float ('fl',v) or ('agg',[..]) 'undef' 'zero' ; ('ce',...)
    def value(s,t):
        k,v=s.next()
        if k==2:
            return ('l',v[1:].strip('"')) if v[0]=='%' else ('g',v[1:].strip('"'))
        if k==5:
            return ('c',int(v)) if t[0]=='i' or t[0]=='p' else ('f',float(v))
        if k==3: return ('f',float(v))
        if k==4:
            import struct
            if 'i' in v or 'n' in v: return ('f',float(v))
            b=int(v.lstrip('f'),16)
            return ('f',struct.unpack('<d',struct.pack('<Q',b))[0])
        if k==1: return ('bytes',cbytes(v))
        if k==7:
            if v=='true': return ('c',1)
            if v=='false': return ('c',0)
            if v=='null': return ('c',0)
            if v in('undef','poison'): return ('u',)
            if v=='zeroinitializer': return ('z',)
            if v in('getelementptr',):
                while s.peek()[0]==7 and s.peek()[1] in('inbounds','nuw','nusw'): s.next()
                if s.peek()[1]=='inrange': 
                    while s.next()[1]!=')': pass
                s.expect('('); bt=s.type(); s.expect(','); pt=s.type(); base=s.value(pt); idx=[]
                while s.pw(','):
                    it=s.type(); idx.append(s.value(it))
                s.expect(')')
                return ('gep',bt,base,idx)
            if v in('ptrtoint','inttoptr','bitcast'):
                s.expect('('); ft=s.type(); x=s.value(ft); s.expect('to'); s.type(); s.expect(')')
                return x
            if v=='splat':
                s.expect('('); et=s.type(); x=s.value(et); s.expect(')'); return ('agg',[x]*t[1])
        if v in('{','[','<{','<'):
            close={'{':'}','[':']','<{':'}>','<':'>'}[v]; l=[]; 
            if not s.pw(close):
                while True:
                    et=s.type(); l.append(s.value(et))
                    if s.pw(close): break
                    s.expect(',')
            return ('agg',l)
        raise ParseError('value %r'%((k,v),))
    ATTRW={'noundef','nonnull','noalias','nocapture','readonly','writeonly','readnone','immarg','zeroext','signext','returned','inreg','noinline','allocptr','allocalign','writable','dead_on_unwind','dead_on_return','nofree','nest','swiftself','noext','nofpclass','nofpclass'}
    def attrs(s):
        a={}
        while True:
            k,v=s.peek()
            if k==7 and v in s.ATTRW:
                s.next(); a[v]=1
                if s.pw('('):
                    d=1
                    while d:
                        w=s.next()[1]; d+=(w=='(')-(w==')')
            elif k==7 and v=='align':
                s.next()
                if s.pw('('): s.next(); s.expect(')')
                else: s.next()
            elif k==7 and v in('sret','byval','dereferenceable','dereferenceable_or_null','range','captures','initializes','elementtype','nofpclass','alignstack','inalloca','preallocated'):
                s.next()
                if s.pw('('):
                    d=1
                    start=s.i
                    while d:
                        w=s.next()[1]
                        if w=='': raise ParseError('attr')
                        d+=(w=='(')-(w==')')
                    if v in('byval','sret'):
                        a[v]=P(s.t[start:s.i-1]).type()
            elif k==6: s.next()
            else: return a
def cbytes(v):
    v=v[2:-1]; out=bytearray(); i=0
    while i<len(v):
        if v[i]=='\\':
            if v[i+1]=='\\': out.append(92); i+=2
            else: out.append(int(v[i+1:i+3],16)); i+=3
        else: out.append(ord(v[i])); i+=1
    return bytes(out)

BIN={'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
FLAGS={'nuw','nsw','exact','disjoint','nneg','samesign','inbounds','nusw','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','volatile','tail','musttail','notail','inrange'}
class Func:
    __slots__=('name','module','header','lines','params','blocks','parsed','rett','entry')
    def __init__(s,name,module,header,lines): s.name,s.module,s.header,s.lines,s.parsed=name,module,header,lines,False
    def parse(s):
        if s.parsed: return
        h=s.header
        p=P(tokenize(h))
        # skip up to function name
        while True:
            k,v=p.next()
            if k==2 and v[0]=='@': break
            if k==0: raise ParseError('define '+h)
        j=p.i-1
        # return type: parse backwards is awkward; re-parse from the front skipping linkage words and attrs
        q=P(p.t[1:j])
        rt=None
        while q.i<len(q.t):
            save=q.i
            try:
                q.attrs(); save=q.i
                rt=q.type(); 
                if q.i==len(q.t): break
            except ParseError: q.i=save+1
        s.rett=rt
        p.expect('('); s.params=[]
        if not p.pw(')'):
            while True:
                if p.peek()[1]=='...': p.next(); p.expect(')'); break
                t=p.type(); a=p.attrs(); nm=p.next()[1][1:].strip('"'); s.params.append((t,nm,a))
                if p.pw(')'): break
                p.expect(',')
        s.blocks={}; cur=None; lab=None
        L=s.lines; i=0
        for ln in L:
            st=ln.strip()
            if not st or st[0]==';': continue
            m=re.match(r'^("[^"]*"|[-\w$.]+):',ln)
            if m:
                lab=m.group(1).strip('"'); cur=[]; s.blocks[lab]=cur
                if len(s.blocks)==1: s.entry=lab
                continue
            if cur is None:
                lab='__entry'; cur=[]; s.blocks[lab]=cur; s.entry=lab
            cur.append(st)
        # join continuation lines and parse
        for lab,ls in s.blocks.items():
            joined=[]
            k=0
            while k<len(ls):
                x=ls[k]
                if ' invoke ' in ' '+x and ' unwind label' not in x:
                    x+=' '+ls[k+1]; k+=1
                if x.startswith('switch') and ']' not in x:
                    while True:
                        k+=1; x+=' '+ls[k]
                        if ls[k].startswith(']'): break
                joined.append(x); k+=1
            s.blocks[lab]=[parse_inst(x) for x in joined if not re.match(r'^(cleanup|filter|catch)\b',x)]
        s.lines=None; s.parsed=True

def parse_inst(x):
    try: return _parse_inst(x)
    except (ParseError,IndexError,ValueError) as ex: return ('unsupported',None,x,str(ex))
def _parse_inst(x):
    x=re.split(r', !(?!\()',x)[0]
    p=P(tokenize(x)); dst=None
    if p.t[0][0]==2 and len(p.t)>1 and p.t[1][1]=='=':
        dst=p.t[0][1][1:].strip('"'); p.i=2
    k,op=p.next()
    def skipflags():
        while p.peek()[0]==7 and p.peek()[1] in FLAGS: p.next()
    if op in('tail','musttail','notail'): k,op=p.next()
    if op=='alloca':
        t=p.type(); n=('c',1)
        if p.pw(','):
            if p.peek()[1]!='align': 
                tt=p.type(); n=p.value(tt)
        return ('alloca',dst,sizeof(t),n)
    if op=='load':
        skipflags(); t=p.type(); p.expect(','); pt=p.type(); return ('load',dst,t,p.value(pt))
    if op=='store':
        skipflags(); t=p.type(); v=p.value(t); p.expect(','); pt=p.type(); return ('store',None,t,v,p.value(pt))
    if op=='getelementptr':
        skipflags(); bt=p.type(); p.expect(','); pt=p.type(); b=p.value(pt); idx=[]
        while p.pw(','):
            it=p.type(); idx.append((it,p.value(it)))
        return ('gep',dst,bt,b,idx)
    if op in BIN:
        skipflags(); t=p.type(); a=p.value(t); p.expect(','); b=p.value(t); return (op,dst,t,a,b)
    if op=='fneg': skipflags(); t=p.type(); return ('fneg',dst,t,p.value(t))
    if op in('icmp','fcmp'):
        skipflags(); pred=p.next()[1]; t=p.type(); a=p.value(t); p.expect(','); b=p.value(t); return (op,dst,pred,t,a,b)
    if op in('zext','sext','trunc','uitofp','sitofp','fptoui','fptosi','bitcast','ptrtoint','inttoptr','fpext','fptrunc'):
        skipflags(); t=p.type(); a=p.value(t); p.expect('to'); t2=p.type(); return ('cast',dst,op,t,a,t2)
    if op=='freeze': t=p.type(); return ('copy',dst,t,p.value(t))
    if op=='select':
        skipflags(); t0=p.type(); c=p.value(t0); p.expect(','); t=p.type(); a=p.value(t); p.expect(','); t2=p.type(); b=p.value(t2); return ('select',dst,t,c,a,b)
    if op=='phi':
        skipflags(); t=p.type(); inc=[]
        while True:
            p.expect('['); v=p.value(t); p.expect(','); l=p.next()[1][1:].strip('"'); p.expect(']'); inc.append((v,l))
            if not p.pw(','): break
        return ('phi',dst,t,inc)
    if op=='br':
        t=p.type()
        if t==('v',): return ('br',None,p.next()[1][1:].strip('"'))
        c=p.value(t); p.expect(','); p.type(); a=p.next()[1][1:].strip('"'); p.expect(','); p.type(); b=p.next()[1][1:].strip('"'); return ('cbr',None,c,a,b)
    if op=='switch':
        t=p.type(); v=p.value(t); p.expect(','); p.type(); d=p.next()[1][1:].strip('"'); p.expect('['); cs=[]
        while not p.pw(']'):
            tt=p.type(); c=p.value(tt); p.expect(','); p.type(); cs.append((c[1],p.next()[1][1:].strip('"')))
        return ('switch',None,t,v,d,cs)
    if op=='ret':
        t=p.type(); return ('ret',None,t,None if t==('v',) else p.value(t))
    if op=='unreachable': return ('unreachable',None)
    if op=='extractvalue':
        t=p.type(); v=p.value(t); idx=[]
        while p.pw(','): idx.append(int(p.next()[1]))
        return ('extractvalue',dst,v,idx)
    if op=='insertvalue':
        t=p.type(); v=p.value(t); p.expect(','); t2=p.type(); w=p.value(t2); idx=[]
        while p.pw(','): idx.append(int(p.next()[1]))
        return ('insertvalue',dst,t,v,w,idx)
    if op in('call','invoke'):
        skipflags()
        while p.peek()[0]==7 and p.peek()[1] in('fastcc','coldcc','ccc','cc','preserve_mostcc','preserve_nonecc'): p.next()
        p.attrs(); rt=p.type()
        k,v=p.next()
        if k!=2: 
            raise ParseError('callee %r'%v)
        callee=('l',v[1:].strip('"')) if v[0]=='%' else ('g',v[1:].strip('"'))
        p.expect('('); args=[]
        if not p.pw(')'):
            while True:
                t=p.type()
                a=p.attrs()
                if t==('v',): 
                    # metadata
                    d=0
                    while not (d==0 and p.peek()[1] in(',',')')): 
                        w=p.next()[1]; d+=(w=='(')-(w==')')
                else: args.append((t,p.value(t),a))
                if p.pw(')'): break
                p.expect(',')
        if op=='invoke':
            while p.peek()[1]!='to': p.next()
            p.next(); p.type(); nl=p.next()[1][1:].strip('"')
            return ('call',dst,rt,callee,args,nl)
        return ('call',dst,rt,callee,args,None)
    if op in('resume','landingpad','fence'): return (op,None)
    raise ParseError('op '+op)

class Module:
    """One or more .ll files; functions resolved by symbol, preferring the caller's own file."""
    def __init__(self,paths):
        self.files=[]; self.glob={}; self.decl=set()
        self.funcs={}   # symbol -> Func (external) ; (file,symbol) for internal ones
        for fi,p in enumerate(paths): self._load(fi,p)
        self.dem={}
        self._demangle()
    def _load(self,fi,path):
        lines=open(path).read().split('\n')
        i=0; n=len(lines)
        while i<n:
            ln=lines[i]
            if ln.startswith('define '):
                m=re.search(r'@("[^"]*"|[-\w$.]+)\(',ln); name=m.group(1).strip('"')
                j=i+1
                while lines[j]!='}': j+=1
                f=Func(name,fi,ln,lines[i+1:j])
                self.funcs[(fi,name)]=f
                if name not in self.funcs or ' internal ' not in ln: self.funcs[name]=f
                i=j+1; continue
            if ln.startswith('@'):
                m=re.match(r'^@("[^"]*"|[-\w$.]+) = (.*)$',ln)
                if m: self.glob[(fi,m.group(1).strip('"'))]=m.group(2); self.glob.setdefault(m.group(1).strip('"'),m.group(2))
            elif ln.startswith('%'):
                m=re.match(r'^(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$',ln)
                if m: NAMED[m.group(1)]=m.group(2)
            elif ln.startswith('declare '):
                m=re.search(r'@("[^"]*"|[-\w$.]+)\(',ln); self.decl.add(m.group(1).strip('"'))
            i+=1
    def _demangle(self):
        names=sorted({k if isinstance(k,str) else k[1] for k in self.funcs}|self.decl)
        r=subprocess.run(['c++filt'],input='\n'.join(names)+'\n',stdout=subprocess.PIPE,text=True).stdout.split('\n')
        for a,b in zip(names,r): self.dem[a]=re.sub(r'\[[0-9a-f]{10,}\]','',b)
    def find(self,fi,name): return self.funcs.get((fi,name)) or self.funcs.get(name)
    def findglob(self,fi,name): return self.glob.get((fi,name)) or self.glob.get(name)
