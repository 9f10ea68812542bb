#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def prop(id,title,statement,over,text,why,files,mech,technique=None,note=None,level='model_checking',na=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    P.append((d,technique,note,level,na))
SC='src/physics/single_chain/'
TQ='symbolic execution of the crate\'s LLVM IR + SMT (z3) over the reals'
NOTE='Every path of every listed function is executed symbolically from the LLVM IR of the current source and the equality is decided by z3 for all values in the stated domain; counterexamples are replayed in the compiled crate. '
REALS='Assumes exact real arithmetic for f64. '
exec(open(os.path.join(V,'vt','props.py')).read())
if __name__=='__main__':
    with open(os.path.join(V,'properties.jsonl'),'w') as f:
        for d,*_ in P: f.write(json.dumps(d)+'\n')
    m=dict(version=1,setup_cmd='python3-vt vt/setup.py',checks=[],not_applicable=[])
    for d,t,n,l,na in P:
        if na: m['not_applicable'].append(dict(property=d['id'],reason=na))
        else: m['checks'].append(dict(property=d['id'],quick_cmd='python3-vt check.py %s'%d['id'],thorough_cmd='python3-vt check.py %s --thorough'%d['id'],technique=t,level=l,level_note=n))
    json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
