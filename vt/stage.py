"""Stages /repo's working tree in a scratch directory and compiles it: LLVM IR (unoptimised, overflow checks on)
for the symbolic executor, and a release cdylib for native replay."""
import os,re,sys,shutil,subprocess,tempfile,atexit,glob
HERE=os.path.dirname(os.path.abspath(__file__))
VERIF=os.path.dirname(HERE)
sys.path.insert(0,HERE)
REPO=os.environ.get('VT_REPO','/repo')
TOOLCHAIN='stable-x86_64-unknown-linux-gnu'
class BuildError(Exception): pass

def _env(target,extra_flags=''):
    e=dict(os.environ)
    e.update(HOME=os.environ.get('HOME','/root'),RUSTUP_TOOLCHAIN=TOOLCHAIN,CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',RUSTC_WRAPPER='',
             CARGO_TARGET_DIR=target,CARGO_INCREMENTAL='0',RUSTFLAGS='-Awarnings '+extra_flags,RUSTC_BOOTSTRAP='1')
    e['PATH']='/root/.cargo/bin:/usr/local/cargo/bin:'+e.get('PATH','')
    for k in list(e):
        if k.startswith('CARGO_PROFILE_') or k in('CARGO_BUILD_TARGET','CARGO_ENCODED_RUSTFLAGS'): del e[k]
    return e

class Stage:
    def __init__(self,grid=None,features=('extern',),overflow=False):
        self.overflow=overflow
        base=os.environ.get('VT_SCRATCH') or tempfile.gettempdir()
        self.dir=tempfile.mkdtemp(prefix='vt-',dir=base)
        atexit.register(self.close)
        self.grid=grid; self.features=features
        self.tree=os.path.join(self.dir,'tree')
        self._stage()
        self._pid=os.getpid()
    def close(self):
        if getattr(self,'_pid',None)==os.getpid() and self.dir and os.path.isdir(self.dir):
            shutil.rmtree(self.dir,ignore_errors=True)
    def _stage(self):
        os.makedirs(self.tree)
        shutil.copytree(os.path.join(REPO,'src'),os.path.join(self.tree,'src'))
        for f in ('Cargo.toml','README.md'):
            shutil.copy(os.path.join(REPO,f),self.tree)
        # docs pulled in by include_str! in doc attributes
        for root,_,files in os.walk(os.path.join(self.tree,'src')):
            for f in files:
                if f.endswith('.rs'):
                    for m in re.finditer(r'include_str!\("([^"]+)"\)',open(os.path.join(root,f)).read()):
                        p=os.path.normpath(os.path.join(root,m.group(1)))
                        if not os.path.exists(p):
                            q=os.path.join(REPO,os.path.relpath(p,self.tree))
                            if os.path.exists(q):
                                os.makedirs(os.path.dirname(p),exist_ok=True); shutil.copy(q,p)
        c=open(os.path.join(self.tree,'Cargo.toml')).read()
        st=os.path.join(VERIF,'stubs')
        c=re.sub(r'(?m)^rand\s*=.*$','rand = {path = "%s/rand"}'%st,c)
        c=re.sub(r'(?m)^rand_distr\s*=.*$','rand_distr = {path = "%s/rand_distr"}'%st,c)
        if 'python' not in self.features:
            c=re.sub(r'(?m)^(numpy|pyo3)\s*=.*$','',c); c=re.sub(r'(?m)^python\s*=.*$','python = []',c)
        else:
            for x in('numpy','pyo3'): c=re.sub(r'(?m)^%s\s*=.*$'%x,'%s = {path = "%s/%s", optional = true}'%(x,st,x),c)
        c=re.sub(r'(?m)^crate-type\s*=.*$','crate-type = ["rlib"]',c)
        c+='\n[workspace]\n'
        open(os.path.join(self.tree,'Cargo.toml'),'w').write(c)
        if self.grid:
            # bound: the constitutive grid constant is reduced in the staged copy
            seen=0
            for root,_,files in os.walk(os.path.join(self.tree,'src/constitutive')):
                for f in files:
                    if f.endswith('.rs'):
                        p=os.path.join(root,f); s=open(p,newline='').read()
                        # the number of grid points: the constant used as an array length
                        s2,n=re.subn(r'(const \w+\s*:\s*usize\s*=\s*)(\d\w*)\s*;',lambda m:m.group(1)+'%d;'%self.grid if int(re.match(r'\d+',m.group(2).replace('_','')).group())>=64 else m.group(),s); n=s2!=s; seen+=n
                        # the harness names the Python classes of private modules
                        if 'python' in self.features: s2,k=re.subn(r'(?m)^mod (?=\w+;)','pub mod ',s2); n+=k
                        if n: open(p,'w',newline='').write(s2)
            if not seen: raise BuildError('grid constant not found')
    def _harness(self,name,native,only=None):
        import genharness
        d=os.path.join(self.dir,name); os.makedirs(d+'/src')
        feats=', '.join('"%s"'%f for f in self.features)
        py='numpy = {path = "%s/stubs/numpy"}\npyo3 = {path = "%s/stubs/pyo3"}'%(VERIF,VERIF) if 'python' in self.features else ''
        open(d+'/Cargo.toml','w').write('''[package]
name = "vth"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["%s"]
[workspace]
[dependencies]
polymers = {path = "%s", features = [%s]}
rand = {path = "%s/stubs/rand"}
rand_distr = {path = "%s/stubs/rand_distr"}
%s
[profile.release]
opt-level = 1
codegen-units = 16
incremental = false
overflow-checks = %s
debug = false
[profile.dev]
opt-level = 0
debug = false
overflow-checks = true
debug-assertions = false
'''%('cdylib' if native else 'rlib',self.tree,feats,VERIF,VERIF,py,str(self.overflow).lower()))
        open(d+'/src/lib.rs','w').write(genharness.lib_rs(native,only))
        return d
    def _run(self,cmd,cwd,env):
        r=subprocess.run(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode: raise BuildError('$ %s\n%s'%(' '.join(cmd),r.stdout[-6000:]))
    def build_ir(self,only=None):
        d=self._harness('hir',False,only); t=os.path.join(self.dir,'tir')
        env=_env(t,'-Ccodegen-units=1 -Zshare-generics=no -Ztrap-unreachable=yes --emit=llvm-ir,link')
        self._run(['cargo','build','--offline','--lib'],d,env)
        lls=glob.glob(t+'/debug/deps/*.ll')
        return sorted(lls)
    def build_native(self,only=None):
        d=self._harness('hnat',True,only); t=os.path.join(self.dir,'tnat')
        self._run(['cargo','build','--offline','--lib','--release'],d,_env(t))
        return glob.glob(t+'/release/libvth.so')[0]
    def build_native_debug(self): 
        raise NotImplementedError

if __name__=='__main__':
    import time
    t=time.time(); s=Stage(); ll=s.build_ir(); print(ll,time.time()-t); t=time.time(); so=s.build_native(); print(so,time.time()-t)
    os.system('ls -la '+' '.join(ll)+' '+so)
    if len(sys.argv)>1: shutil.copytree(s.dir,sys.argv[1],dirs_exist_ok=True)
