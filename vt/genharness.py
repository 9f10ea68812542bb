"""Generates the harness crate (by-value `extern "C"` entry points for every public function) from the API snapshot."""
import json,os
HERE=os.path.dirname(os.path.abspath(__file__))
API=json.load(open(os.path.join(HERE,'api.json')))

class Fn:
    __slots__=('sym','mod','kind','name','args','expr')
    def __init__(s,sym,mod,kind,name,args,expr): s.sym,s.mod,s.kind,s.name,s.args,s.expr=sym,mod,kind,name,args,expr

def short(mod): return mod.replace('physics::single_chain::','')

def entries():
    """All scalar entry points: list of Fn(sym, mod, kind, name, [(arg,type)], rust expr)."""
    out=[]
    structs={}
    inits={}
    for o in API:
        if o['kind']=='struct' and o['mod'].startswith('physics'): structs[o['mod']]=o
        if o['kind']=='method' and o['name']=='init': inits[o['mod']]=o
    for o in API:
        if o['kind'] not in('free','extern','method') or o['ret']!='f64': continue
        if not o['mod'].startswith('physics'): continue
        if o['generics']: continue
        if 'monte_carlo' in o['mod']: continue
        tag={'free':'f','extern':'x','method':'m'}[o['kind']]
        sym=tag+'__'+short(o['mod']).replace('::','__')+'__'+o['name']
        if o['kind']=='free':
            args=[(k,t.lstrip('&')) for k,t in o['args']]
            assert all(t in('u8','f64') for _,t in args),o
            expr='polymers::%s::%s(%s)'%(o['mod'],o['name'],', '.join('&'+k for k,_ in args))
        elif o['kind']=='extern':
            args=[(k,t) for k,t in o['args']]
            base=o['mod']
            assert all(t in('u8','f64') for _,t in args),o
            expr='polymers::%s::ex::%s(%s)'%(base,o['name'],', '.join(k for k,_ in args))
            sym='x__'+o['name']
        else:
            parts=o['mod'].split('::')
            # outermost module holding a struct
            for i in range(1,len(parts)+1):
                top='::'.join(parts[:i])
                if top in structs and top in inits: break
            rest=parts[i:]
            ia=inits[top]['args']
            ma=[(k,t.lstrip('&')) for k,t in o['args'] if k!='&self']
            args=[(k,t) for k,t in ia]+[(k,t) for k,t in ma]
            assert len(set(k for k,_ in args))==len(args),(o,args)
            expr='polymers::%s::%s::init(%s)%s.%s(%s)'%(top,structs[top]['name'],', '.join(k for k,_ in ia),''.join('.'+r for r in rest),o['name'],', '.join('&'+k for k,_ in ma))
        out.append(Fn(sym,o['mod'],o['kind'],o['name'],args,expr))
    return out

PYAPI=json.load(open(os.path.join(HERE,'pyapi.json')))
def obj_entries(tags):
    """Python methods on every object of the class tree (arrays of two equal elements, the second result), and every public field of
    the Python and of the Rust objects."""
    out=[]
    for tag,api,pfx in(('p',PYAPI,'::py'),('r',API,'')):
        if tag not in tags: continue
        structs={o['mod']:o for o in api if o['kind']=='struct' and o['mod'].startswith('physics')}
        inits={o['mod']:o for o in api if o['kind']=='method' and o['name']=='init'}
        def path(mod):
            parts=mod.split('::')
            for i in range(1,len(parts)+1):
                top='::'.join(parts[:i])
                if top in structs and top in inits: return top,parts[i:],inits[top]['args']
        for mod,st in structs.items():
            top,rest,ia=path(mod)
            if any('<' in t or '[' in t for _,t in ia): continue
            obj='polymers::%s%s::%s::init(%s)%s'%(top,pfx,structs[top]['name'],', '.join(k for k,_ in ia),''.join('.'+r for r in rest))
            args=[(k,t) for k,t in ia]
            for k,ty in st['fields']:
                if ty not in('f64','u8') or k.startswith('normalization'): continue
                if tag=='r' and not public(mod,k): continue
                out.append(Fn('%sf__%s__%s'%(tag,short(mod).replace('::','__'),k),mod,'field' if tag=='r' else 'pyfield',k,args,'%s.%s as f64'%(obj,k)))
            if tag=='r': continue
            for o in api:
                if o['kind']!='method' or o['mod']!=mod or o['name']=='init': continue
                ma=[(k,ty) for k,ty in o['args']]
                al=args+[(k,'f64') for k,_ in ma]
                assert len({k for k,_ in al})==len(al),o
                out.append(Fn('p__'+short(mod).replace('::','__')+'__'+o['name'],mod,'py',o['name'],al,
                    '__second(%s.%s(__PY, %s))'%(obj,o['name'],', '.join('__twice(%s)'%k if 'Array' in ty else k for k,ty in ma))))
    return out
def all_entries(): return entries()+obj_entries('rp' if PYTHON else 'r')
def public(mod,k): return k in('hinge_mass','link_length','number_of_links','link_stiffness','link_energy','well_width','persistance_length')
PYH='''
const __PY: pyo3::Python<'static> = pyo3::Python(std::marker::PhantomData);
fn __twice(x: f64) -> numpy::PyReadonlyArrayDyn<'static, f64> { numpy::PyReadonlyArrayDyn::of(vec![x, x]) }
fn __second(r: &numpy::PyArrayDyn<f64>) -> f64 { assert!(r.0.len() == 2); r.0[1] }
'''
PYTHON=False

EXTRA=''
def load_extra(name,grid=None):
    global EXTRA
    EXTRA=''.join(open(os.path.join(HERE,'harness_%s.rs'%x)).read() for x in (name or '').split(',') if x)
    if grid:
        e=['e%d%d'%(i,j) for i in range(grid) for j in range(grid)]; z=['z%d'%i for i in range(grid)]
        for k,v in dict(GRID=str(grid),E=', '.join(x+': f64' for x in e),Z=', '.join(x+': f64' for x in z),EN=', '.join(e),ZN=', '.join(z)).items(): EXTRA=EXTRA.replace('@%s@'%k,v)

import re
def extra_types():
    """argument types of the extra entry points"""
    return {m.group(1):[(a.split(':')[0].strip(),a.split(':')[1].strip()) for a in m.group(2).split(',') if a.strip()] for m in re.finditer(r'entry!\s*\{\s*(\w+)\s*\(([^)]*)\)',EXTRA)}
PRE='''#![allow(warnings)]
'''
def lib_rs(native,only=None):
    o=[PRE]+([PYH] if PYTHON else [])
    for f in all_entries():
        if only and not only(f): continue
        al=', '.join('%s: %s'%(k,t) for k,t in f.args)
        if native:
            o.append('#[no_mangle] pub extern "C" fn %s(%s%s__ok: *mut u8) -> f64 { __g(__ok, std::panic::AssertUnwindSafe(|| %s)) }'%(f.sym,al,', ' if al else '',f.expr))
        else:
            o.append('#[no_mangle] pub extern "C-unwind" fn %s(%s) -> f64 { %s }'%(f.sym,al,f.expr))
    if native:
        # functions the kernel entries integrate and invert in the native replay (symbolically: any function)
        o.append('''mod __defs {
#[no_mangle] pub extern "C" fn __vt_f(x: f64) -> f64 { 0.4*x + x*x*x/7.0 }
#[no_mangle] pub extern "C" fn __vt_fp(x: f64) -> f64 { 0.4 + 3.0*x*x/7.0 }
#[no_mangle] pub extern "C" fn __vt_f2(x: f64, y: f64) -> f64 { (0.3*x - 0.1*y).exp() + x*x*y/7.0 + x }
}''')
        o.append('''
static INIT: std::sync::Once = std::sync::Once::new();
fn __g<F: FnOnce() -> f64 + std::panic::UnwindSafe>(ok: *mut u8, f: F) -> f64 {
    INIT.call_once(|| std::panic::set_hook(Box::new(|_| {})));
    match std::panic::catch_unwind(f) { Ok(v) => { unsafe { *ok = 1; } v } Err(_) => { unsafe { *ok = 0; } f64::NAN } }
}
macro_rules! entry { ($name:ident ( $($a:ident : $t:ty),* ) $body:block) => {
    #[no_mangle] pub unsafe extern "C" fn $name($($a: $t,)* __ok: *mut u8) -> f64 { __g(__ok, std::panic::AssertUnwindSafe(move || $body)) } } }
static mut UNI: (Vec<f64>, usize) = (Vec::new(), 0);
static mut NOR: (Vec<f64>, usize) = (Vec::new(), 0);
mod __mc {
#[no_mangle] pub unsafe extern "C" fn __vt_begin() { super::UNI = (Vec::new(), 0); super::NOR = (Vec::new(), 0); }
#[no_mangle] pub unsafe extern "C" fn __vt_putu(v: f64) { super::UNI.0.push(v); }
#[no_mangle] pub unsafe extern "C" fn __vt_putn(v: f64) { super::NOR.0.push(v); }
}
#[no_mangle] pub unsafe extern "C" fn __vt_uniform() -> f64 { let v = if UNI.0.is_empty() { 0.5 } else { UNI.0[UNI.1 % UNI.0.len()] }; UNI.1 += 1; v }
#[no_mangle] pub unsafe extern "C" fn __vt_normal() -> f64 { let v = if NOR.0.is_empty() { 0.0 } else { NOR.0[NOR.1 % NOR.0.len()] }; NOR.1 += 1; v }
''')
    else:
        o.append('''
macro_rules! entry { ($name:ident ( $($a:ident : $t:ty),* ) $body:block) => {
    #[no_mangle] pub unsafe extern "C-unwind" fn $name($($a: $t),*) -> f64 { $body } } }
''')
    o.append(EXTRA)
    return '\n'.join(o)+'\n'

if __name__=='__main__':
    e=entries(); print(len(e)); print(e[0].sym,e[0].expr); print([x.expr for x in e if x.kind=='method'][:3])
