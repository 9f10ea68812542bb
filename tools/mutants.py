#!/usr/bin/env python3
"""Random mutants of the sources, each judged by the checks of its file; survivors are printed for inspection. usage: mutants.py SEED COUNT [path filter]"""
import sys,os,re,random,shutil,subprocess,tempfile
R='/repo'; rn=random.Random(int(sys.argv[1])); count=int(sys.argv[2]); flt=sys.argv[3] if len(sys.argv)>3 else ''
files=[]
for root,_,fs in os.walk(R+'/src'):
    for f in fs:
        p=os.path.relpath(os.path.join(root,f),R)
        if f in('mod.rs','ex.rs','py.rs','mod.jl') and 'test' not in p and flt in p: files.append(p)
files.sort()
OPS=[(r' \+ ',' - '),(r' - ',' + '),(r'\*','/'),(r'/','*'),(r'\.sinh\(\)','.cosh()'),(r'\.cosh\(\)','.sinh()'),(r'\.tanh\(\)','.sinh()'),(r'powi\(2\)','powi(3)'),(r'powi\(3\)','powi(2)'),(r'powi\(4\)','powi(3)'),
 (r'(?<![\w.])1\.0(?!\d)','1.1'),(r'(?<![\w.])2\.0(?!\d)','2.5'),(r'(?<![\w.])3\.0(?!\d)','3.01'),(r'(?<![\w.])0\.5(?!\d)','0.6'),(r'(?<![\w.])4\.0(?!\d)','4.5'),(r'\.exp\(\)','.exp_m1()'),(r'\.ln\(\)','.ln_1p()'),
 (r'\b(self\.)?hinge_mass\b','link_length'),(r'&ZERO','&1e-3'),(r'nondimensional_force\(','nondimensional_end_to_end_length_per_link('),(r'_per_link\(','('),(r'relative_','') ,(r'gibbs','helmholtz'),(r'helmholtz','gibbs'),(r'\bnumber_of_links as f64\)','number_of_links as f64 - 1.0)'),(r'<','<='),(r'>(?![=])','>='),(r'(\d\.\d{3,})',None),(r'\bwell_width\b','link_length'),(r'\btemperature\b(?!:)','link_length'),(r'\bforce\b(?!:)','temperature')]
def mutant():
    while 1:
        f=rn.choice(files); t=open(os.path.join(R,f),newline='').read(); L=t.split('\n')
        i=rn.randrange(len(L)); l=L[i]; s=l.strip()
        if f.endswith('.jl') and sum(x.count('"""') for x in L[:i])%2: continue
        if not s or s.startswith(('//','#','pub fn','fn ','use ','pub mod','mod ','pub struct','"""','where','-','`')) or 'doc' in s or 'pub extern' in s or s.startswith(('pub ','impl','const POINTS','export','import')): continue
        cand=[(m,b) for a,b in OPS for m in re.finditer(a,l)]
        if not cand: continue
        m,b=rn.choice(cand)
        if b is None: b=m.group()[:-1]+str((int(m.group()[-1])+3)%10) if len(m.group())<7 else m.group()[:3]+str((int(m.group()[3])+1)%10)+m.group()[4:]
        n=l[:m.start()]+b+l[m.end():]
        if n==l: continue
        return f,i,l,n,'\n'.join(L[:i]+[n]+L[i+1:])
def checks(f):
    b=os.path.basename(f)
    if b=='py.rs': return ['C19']
    if b=='mod.jl': return ['C20']
    if 'constitutive/hyperelastic_damage' in f: return ['C18']
    if 'constitutive' in f: return ['C17']
    if b=='ex.rs': return ['C12']
    if 'src/math' in f: return ['C15','C14']
    if 'monte_carlo' in f: return ['C16']
    return ['C13','C04','C01','C02','C03','C11','C05','C06','C07','C08','C09','C10','C15']
for k in range(count):
    f,i,l,n,t=mutant(); d=tempfile.mkdtemp(prefix='mu',dir='/tmp/w/mu'); log=[]
    try:
        os.makedirs(d+'/r'); shutil.copytree(R+'/src',d+'/r/src')
        for x in('Cargo.toml','README.md'): shutil.copy(R+'/'+x,d+'/r')
        open(d+'/r/'+f,'w',newline='').write(t); res='SURVIVED'
        mod=os.path.dirname(f)[len('src/physics/single_chain/'):].replace('/','::') if 'single_chain' in f else ''
        for c in checks(f):
            r=subprocess.run(['python3-vt','/verif/check.py',c]+(['-k'+mod+'::'] if mod and c in('C13','C04','C01','C02','C03','C11','C05','C07','C08','C09','C10','C12','C19') else []),env=dict(os.environ,VT_REPO=d+'/r'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            if 'could not compile' in r.stdout or 'error[' in r.stdout: res='nocompile'; break
            if r.returncode==1: res='caught '+c; break
            if 'undecided: ' in r.stdout: log.append(c+' und '+next(x for x in r.stdout.splitlines() if 'undecided: ' in x)[:200])
            if r.returncode: log.append(c+' rc %d'%r.returncode)
    finally: shutil.rmtree(d)
    print(res,'|',f+':%d'%(i+1),'|',l.strip()[:110] if res!='SURVIVED' else l.strip(),'->',n.strip()[:110] if res!='SURVIVED' else n.strip(),'|',log,flush=True)
