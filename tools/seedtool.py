#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seedspec.py and confirms each: builds, stable tests pass, demo passes clean and fails patched.
usage: seedtool.py [--notest] [--check] id...      (patches are applied to /repo and undone)"""
import os,sys,json,subprocess,shutil,tempfile
V='/verif'; R='/repo'
sys.path.insert(0,V+'/tools')
from seedspec import SEEDS
DEMO_SH='''#!/bin/bash
# compiles the crate in the current directory together with demo.rs (scripted stand-ins for the random number crates) and runs it
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
rustc -Awarnings --edition 2021 --crate-type rlib --crate-name rand -O "$D/rand.rs" -o "$T/librand.rlib" || exit 9
rustc -Awarnings --edition 2021 --crate-type rlib --crate-name rand_distr -O --extern rand="$T/librand.rlib" "$D/rand_distr.rs" -o "$T/librand_distr.rlib" || exit 9
rustc -Awarnings --edition 2021 --crate-type rlib --crate-name polymers -C opt-level=1 -C debug-assertions=on %s --extern rand="$T/librand.rlib" --extern rand_distr="$T/librand_distr.rlib" -L "$T" src/lib.rs -o "$T/libpolymers.rlib" || exit 9
rustc -Awarnings --edition 2021 -C opt-level=1 --extern rand="$T/librand.rlib" --extern rand_distr="$T/librand_distr.rlib" --extern polymers="$T/libpolymers.rlib" -L "$T" "$D/demo.rs" -o "$T/demo" || exit 9
timeout 250 "$T/demo"
'''
PRELUDE='''use std::process::exit;
static mut DRAWS: Vec<f64> = Vec::new();
static mut AT: usize = 0;
#[no_mangle] pub extern "C" fn __vt_uniform() -> f64 { unsafe { let v = DRAWS[AT % DRAWS.len()]; AT += 1; v } }
#[no_mangle] pub extern "C" fn __vt_normal() -> f64 { __vt_uniform() }
#[allow(dead_code)] fn script(v: Vec<f64>) { unsafe { DRAWS = v; AT = 0; } }
#[allow(dead_code)] fn close(a: f64, b: f64, tol: f64) { println!("{:e} {:e}", a, b); if !((a - b).abs() <= tol*(a.abs().max(b.abs()) + 1e-300)) { println!("DIFFERENT"); exit(1); } }
'''
def sh(*a,**k): return subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def edit(root,edits):
    for f,old,new,*many in edits:
        p=os.path.join(root,f); t=open(p,newline='').read(); crlf='\r\n' in t
        if crlf: old=old.replace('\n','\r\n'); new=new.replace('\n','\r\n')
        assert t.count(old)==1 or (many and t.count(old)>1),(f,t.count(old),old[:80])
        open(p,'w',newline='').write(t.replace(old,new))
def main():
    args=[a for a in sys.argv[1:] if not a.startswith('-')]; notest='--notest' in sys.argv; chk='--check' in sys.argv
    for id,s in SEEDS.items():
        if args and id not in args: continue
        d=os.path.join(V,'seeded',id); tmp=tempfile.mkdtemp(dir='/tmp')
        try:
            assert not sh('git','-C',R,'status','--porcelain').stdout.strip(),'repo dirty'
            w=tmp+'/r'; subprocess.check_call(['git','clone','-q',R,w]); sh('git','-C',w,'config','core.autocrlf','false')
            edit(w,s['edits'])
            diff=subprocess.run(['git','-C',w,'diff','--binary'],stdout=subprocess.PIPE).stdout
            if os.path.isdir(d): shutil.rmtree(d)
            os.makedirs(d); open(d+'/patch.diff','wb').write(diff)
            for k in('rand','rand_distr'): shutil.copy(V+'/stubs/%s/src/lib.rs'%k,d+'/%s.rs'%k)
            open(d+'/demo.rs','w').write(PRELUDE+s['demo']); sh_=DEMO_SH
            if s.get('python'):
                for k in('pyo3','pyo3_macros','numpy'): shutil.copy(V+'/stubs/%s/src/lib.rs'%k,d+'/%s.rs'%k)
                pre='rustc -Awarnings --edition 2021 --crate-type proc-macro --crate-name pyo3_macros -O "$D/pyo3_macros.rs" -o "$T/libpyo3_macros.so" || exit 9\n'
                for k in('pyo3','numpy'): pre+='rustc -Awarnings --edition 2021 --crate-type rlib --crate-name %s -O -L "$T" --extern pyo3_macros="$T/libpyo3_macros.so" --extern pyo3="$T/libpyo3.rlib" "$D/%s.rs" -o "$T/lib%s.rlib" || exit 9\n'.replace('--extern pyo3="$T/libpyo3.rlib" ' if k=='pyo3' else '@@','')%(k,k,k)
                sh_=sh_.replace('rustc -Awarnings --edition 2021 --crate-type rlib --crate-name polymers',pre.replace('%','%%')+'rustc -Awarnings --edition 2021 --crate-type rlib --crate-name polymers').replace('opt-level=1 -C debug-assertions=on','opt-level=1 -C debug-assertions=on --cfg \'feature="python"\' --extern pyo3="$T/libpyo3.rlib" --extern numpy="$T/libnumpy.rlib"').replace('--extern polymers=','--extern numpy="$T/libnumpy.rlib" --extern polymers=')
            open(d+'/demo.sh','w').write(sh_%s.get('flags','')); os.chmod(d+'/demo.sh',0o755)
            json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
            a=sh('bash',d+'/demo.sh',cwd=R); b=sh('bash',d+'/demo.sh',cwd=w)
            print(id,'demo clean',a.returncode,'patched',b.returncode,flush=True)
            if a.returncode!=0 or b.returncode==0 or b.returncode==9: print(a.stdout[-1500:],b.stdout[-1500:]); print(id,'BAD DEMO')
            r=sh('git','-C',R,'apply','--check',d+'/patch.diff'); assert r.returncode==0,r.stdout
            if not notest or chk:
                sh('git','-C',R,'apply',d+'/patch.diff')
                try:
                    if not notest:
                        bl=sh('bash','/opt/vp/build.sh'); o=tmp+'/res.json'; sh('bash','/opt/vp/test.sh',o)
                        base=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); got=set(json.load(open(o))['passed'])
                        print(id,'build',bl.returncode,'stable tests lost:',sorted(base-got)[:5],flush=True)
                    if chk:
                        for p in [s['property']]+s.get('also',[]):
                            r=sh('python3-vt',V+'/check.py',p,cwd=V); print(id,p,'rc',r.returncode,'|'.join(l for l in r.stdout.splitlines() if 'broken' in l or l.startswith(('VIOL','C')) or 'undecided:' in l or 'Error' in l)[:700],flush=True)
                finally: subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
        finally: shutil.rmtree(tmp)
main()
