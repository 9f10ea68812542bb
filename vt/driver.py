"""check.py <property>: regenerate the encoding from /repo, discharge the property's obligations, replay counterexamples, write evidence."""
import sys,os,time,json,glob,threading,traceback,multiprocessing as mp,collections
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE); sys.path.insert(0,HERE)
import stage,llir,genharness,oblig,native as nativemod
from expr import *

class Ctx: pass
CTX=None
class Task:
    """custom task: fn(ctx)->dict(status,detail,queries,solver_s,paths,[env,replay,key])"""
    def __init__(s,name,fn,where=''): s.name,s.fn,s.where=name,fn,where
def wait_native(c):
    if c.nat is None:
        while not os.path.exists(c.flag): time.sleep(0.05)
        t=open(c.flag).read()
        if not t.startswith('ok'): raise stage.BuildError('native build: '+t)
        c.nat=nativemod.Native(t.split('\n')[1],c.ents,c.extra)
    return c.nat
def run_ob(c,ob):
    obs=[ob]; R,opened=oblig.solve(c.W,ob,c.timeout)
    d=dict(name=ob.name,status=R.status,detail=R.detail,queries=R.queries,time=R.time,paths=R.paths,kind='')
    if R.status=='proved':
        return d
    if ob.fallback and R.status in('unencodable',) or (ob.fallback and all(o[0]!='sat' for o in opened)):
        # symbolic link count not reached: decide for concrete link counts
        sub=[run_ob(c,f) for f in ob.fallback]
        st={x['status'] for x in sub}
        d['queries']+=sum(x['queries'] for x in sub); d['paths']+=sum(x['paths'] for x in sub); d['time']+=sum(x['time'] for x in sub)
        bad=[x for x in sub if x['status']=='violated']
        if bad: return dict(d,**{k:bad[0][k] for k in('status','detail','env','replay')},ob=bad[0]['name'])
        if st=={'proved'}: d['status']='proved'; d['detail']='for N in '+','.join(f.name.rsplit('[N=')[-1].rstrip(']') for f in ob.fallback); return d
    nat=wait_native(c)
    R=oblig.settle(nat,ob,R,opened,c.seed)
    d.update(status=R.status,detail=R.detail,env=R.env,replay=R.replay)
    return d
def _worker(i):
    t=c=CTX; c=CTX; task=c.tasks[i]; t0=time.time()
    c.W.encoded=set(); c.W.hooked=set(); c.W.steps=0
    try:
        if isinstance(task,oblig.Ob): d=run_ob(c,task)
        else:
            d=dict(name=task.name,status='proved',detail='',queries=0,time=0.0,paths=0); d.update(task.fn(c))
    except MemoryError: d=dict(name=task.name,status='undecided',detail='memory',queries=0,time=0,paths=0)
    except Exception as e:
        d=dict(name=task.name,status='undecided',detail='internal: '+traceback.format_exc()[-900:],queries=0,time=0,paths=0)
    d['wall']=time.time()-t0; d['encoded']=c.W.encoded; d['hooked']=c.W.hooked; d['steps']=c.W.steps
    d['witness']=None
    d['i']=i
    return d

def _witness(i):
    import random
    c=CTX; task=c.tasks[i]
    try:
        env=task.sample(random.Random('w%s/%s'%(c.seed,task.name)))
        return i,oblig.replay(c.nat,task,env,max(task.tol,1e-4))[0]
    except Exception: return i,None
def load_known():
    p=os.path.join(VERIF,'known-findings.json')
    return json.load(open(p)) if os.path.exists(p) else []
def short_fn(f):
    return f if isinstance(f,str) else getattr(f,'name',str(f))
def main(pid):
    import checks
    t0=time.time(); tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    if '--thorough' in sys.argv: tier='thorough'
    spec=checks.CHECKS[pid]
    global CTX
    c=CTX=Ctx(); c.tier=tier; c.seed=seed; c.nat=None; c.timeout=20 if tier=='quick' else 60; c.witness=True
    only=spec.get('only'); c.only=only
    grid=spec.get('grid')
    if isinstance(grid,dict): grid=grid[tier]
    c.grid=grid; genharness.load_extra(spec.get('extra'),grid); genharness.PYTHON='python' in spec.get('features',())
    st=stage.Stage(grid=grid,features=spec.get('features',('extern',)),overflow=spec.get('overflow',False))
    c.stage=st
    c.flag=os.path.join(st.dir,'native.flag')
    def nb():
        try: so=st.build_native(only); txt='ok\n'+so
        except Exception as e: txt='fail '+str(e)[-3000:]
        open(c.flag+'.t','w').write(txt); os.rename(c.flag+'.t',c.flag)
    th=threading.Thread(target=nb,daemon=True); th.start()
    try: lls=st.build_ir(only)
    except stage.BuildError as e:
        print('BUILD ERROR\n'+str(e)[-3000:]); th.join(); return 2
    tb=time.time()-t0
    c.ents=genharness.all_entries(); c.extra=genharness.extra_types()
    c.mod=llir.Module(lls); c.W=oblig.World(c.mod,[e for e in c.ents if not only or only(e)])
    c.W.extra=c.extra
    c.tasks=spec['tasks'](c)
    filt=[a[2:] for a in sys.argv if a.startswith('-k')]
    if filt: c.tasks=[t for t in c.tasks if filt[0] in t.name]
    # after a violation the rest of the obligations get a short while only
    first=None; grace=float(os.environ.get('VT_GRACE','60' if tier=='quick' else '300'))
    known=[k for k in load_known() if k.get('property')==pid and k.get('status')!='fixed']
    limit=float(os.environ.get('VT_LIMIT','780' if tier=='quick' else '3400')); res=[]
    prio=spec.get('priority',lambda t:0)
    order=sorted(range(len(c.tasks)),key=lambda i:-prio(c.tasks[i]))
    nproc=int(os.environ.get('VT_PROCS','8'))
    done=set()
    pool=mp.get_context('fork').Pool(nproc,maxtasksperchild=400)
    try:
        it=pool.imap_unordered(_worker,order)
        while len(done)<len(order):
            left=limit-(time.time()-t0)
            if first: left=min(left,grace-(time.time()-first))
            if left<=0: break
            try: d=it.next(timeout=left)
            except mp.TimeoutError: break
            except StopIteration: break
            done.add(d['i']); res.append(d)
            if d['status']=='violated' and not first and not any(k['obligation']==d['name'] for k in known): first=time.time()
    finally: pool.terminate(); pool.join()
    for i in order:
        if i not in done: res.append(dict(i=i,name=c.tasks[i].name,status='undecided',detail='not reached: '+('stopped after a violation' if first else 'time budget of the check'),queries=0,time=0,paths=0,wall=0,encoded=set(),hooked=set(),steps=0,witness=None))
    th.join()
    # witnesses for the obligations that were discharged before the native build was ready
    c.res={d['i']:d for d in res}
    todo=[d['i'] for d in res if d['status']=='proved' and d.get('witness') is None and isinstance(c.tasks[d['i']],oblig.Ob) and not c.tasks[d['i']].band]
    if todo and open(c.flag).read().startswith('ok') and time.time()-t0<limit:
        wait_native(c)
        pool=mp.get_context('fork').Pool(nproc)
        try:
            it=pool.imap_unordered(_witness,todo); tw=time.time()
            for _ in todo:
                try: i,w=it.next(timeout=max(1,60-(time.time()-tw)))
                except mp.TimeoutError: break
                c.res[i]['witness']=w
        finally: pool.terminate(); pool.join()
    cnt=collections.Counter(); viol=[]; findings=[]
    for d in sorted(res,key=lambda d:d['i']):
        if d['status']=='violated':
            k=next((k for k in known if k['obligation']==d['name']),None)
            if k: d['status']='known'; findings.append((k,d))
            else: viol.append(d)
        cnt[d['status']]+=1
    for k,d in findings: print('KNOWN-FINDING: property=%s %s'%(pid,k['what']))
    wit=collections.Counter(d['witness'] for d in res if d.get('witness'))
    enc=sorted({short_fn(f) for d in res for f in d['encoded']}); hk=sorted({short_fn(f) for d in res for f in d['hooked']})
    und=[d for d in res if d['status'] in('undecided','unencodable')]
    vdir=os.path.join(VERIF,'evidence','replay'); os.makedirs(vdir,exist_ok=True)
    for f in glob.glob(os.path.join(vdir,pid+'-*')): os.remove(f)
    for n,d in enumerate(viol[:20]):
        p=os.path.join('evidence','replay','%s-%d.json'%(pid,n))
        json.dump(dict(property=pid,obligation=d['name'],inputs=d.get('env'),observed=d.get('replay'),detail=d['detail'],where=getattr(c.tasks[d['i']],'where',''),
            how='the inputs were given to the compiled crate; observed = (left side, right side) of the obligation'),open(os.path.join(VERIF,p),'w'),indent=1,default=str)
        print('  broken: %s\n    %s'%(d['name'],d['detail'][:400]))
        print('VIOLATION property=%s replay=%s'%(pid,p))
    wall=time.time()-t0
    cov=dict(states=sum(d['paths'] for d in res),transitions=sum(d['steps'] for d in res),traces_validated_against_impl=wit.get('same',0)+sum(d.get('validated',0) for d in res),
      samples=[dict(obligation=d['name'],status=d['status'],paths=d['paths'],queries=d['queries'],detail=d['detail'][:200]) for d in sorted(res,key=lambda d:d['i'])[:: max(1,len(res)//12)]][:14],
      obligations=len(res),discharged=cnt['proved'],violated=len(viol),known_findings=len(findings),undecided=len(und),
      undecided_list=[dict(obligation=d['name'],why=d['detail'][:300]) for d in und[:40]],
      queries=sum(d['queries'] for d in res),solver_and_encoding_cpu_s=round(sum(d['time'] for d in res),2),build_s=round(tb,1),
      native_replay=dict(wit),functions_encoded=len(enc),functions=enc if len(enc)<4000 else enc[:4000],functions_read_as_operators=hk,
      bounds=spec['bounds'],explanation=spec['explain'])
    ev=dict(property=pid,tier=tier,seed=seed,level=spec.get('level','model_checking'),coverage=cov,assumptions=spec.get('assume',[])+COMMON,wall_s=round(wall,1),violations=len(viol))
    os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
    json.dump(ev,open(os.path.join(VERIF,'evidence',pid+'.json'),'w'),indent=1,default=str)
    print('%s [%s]: %d obligations, %d discharged, %d violated, %d known, %d undecided; %d paths, %d queries, witness %s; %.0f s'%(pid,tier,len(res),cnt['proved'],len(viol),len(findings),len(und),cov['states'],cov['queries'],dict(wit),wall))
    if os.environ.get('VT_SLOW'):
        for d in sorted(res,key=lambda d:-d['wall'])[:int(os.environ['VT_SLOW'])]: print('  slow %.1f s: %s (%d queries) %s'%(d['wall'],d['name'],d['queries'],d['detail'][:80]))
    for d in und[:30]: print('  undecided: %s: %s'%(d['name'],d['detail'][:300]))
    mism=[d for d in res if d.get('witness') in('differ','panic','nonfinite')]
    for d in mism[:10]: print('  witness %s: %s'%(d['witness'],d['name']))
    if not res or cnt['proved']+len(findings)+len(viol)==0: return 2
    return 1 if viol else 0
COMMON=['f64 arithmetic is read as exact real arithmetic; decimal literals as the reals they stand for; rounding, overflow and cancellation are outside the encoding',
 'trusted: rustc front end (the encoding is its unoptimised LLVM IR), the symbolic executor and normaliser in /verif/vt, z3']
