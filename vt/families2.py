"""Further obligation families."""
from families import *
import families as FM
PI_=S('$pi')
def fam_distribution(tier):
    out=[]; NC=NL()
    for mod,fs in free().items():
        if 'equilibrium_distribution' not in fs: continue
        p,np,r,nr=(fs[k] for k in ('equilibrium_distribution','nondimensional_equilibrium_distribution','equilibrium_radial_distribution','nondimensional_equilibrium_radial_distribution'))
        nd={k:v() for k,v in NDARG.items()}
        emit(out,mod,'%s::%s = nondimensional one / contour length cubed'%(mod,p.name),callf(p),div(callf(np,nd),powi(NC,3)),mod,tier)
        emit(out,mod,'%s::%s = nondimensional one / contour length'%(mod,r.name),callf(r),div(callf(nr,nd),NC),mod,tier)
        emit(out,mod,'%s::%s = 4 pi length^2 x distribution'%(mod,r.name),callf(r),mul(mul(C(4),PI_),mul(powi(XI,2),callf(p))),mod,tier)
        emit(out,mod,'%s::%s = 4 pi length^2 x distribution'%(mod,nr.name),callf(nr),mul(mul(C(4),PI_),mul(powi(G,2),callf(np))),mod,tier)
        # Boltzmann: ln P differs between two states by -(difference of the free energy)/kT
        gk='nondimensional_end_to_end_length_per_link'; xk='end_to_end_length'
        g2={gk:S(gk+'_2')}; x2={xk:S(xk+'_2')}
        for h,q,o2,sc in (('nondimensional_relative_helmholtz_free_energy',np,g2,ONE),('nondimensional_helmholtz_free_energy',np,g2,ONE),('relative_helmholtz_free_energy',p,x2,KT),('helmholtz_free_energy',p,x2,KT)):
            if h not in fs: continue
            E_=lambda over:div(callf(fs[h],over),sc)
            emit(out,mod,'%s::%s is the Boltzmann factor of %s'%(mod,q.name,h),
                 sub(fn('ln',callf(q)),fn('ln',callf(q,o2))),sub(E_(o2),E_({})),mod,tier)
    return out
def mass_mult(mod,name):
    """how many hinges' momenta the ensemble counts"""
    g='gibbs' in name
    if 'isotensional' in mod or mod.startswith('ideal') : return N_
    if mod.endswith('weak_potential') and g: return N_
    return sub(N_,ONE)
def fam_mass(tier):
    out=[]
    for mod,fs in free().items():
        for nm,f in fs.items():
            if not(nm.startswith('nondimensional_') and 'energy' in nm and 'relative' not in nm): continue
            ks=[k for k,_ in f.args]
            if 'hinge_mass' not in ks: out.append(('nomass',mod,nm)); continue
            o2={'hinge_mass':S('hinge_mass_2'),'temperature':S('temperature_2')}
            mult=mass_mult(mod,nm)
            if nm.endswith('per_link'): mult=div(mult,N_)
            q=div(mul(M,T),mul(S('hinge_mass_2'),S('temperature_2')))
            emit(out,mod,'%s::%s depends on mass and temperature through the hinge momenta only'%(mod,nm),sub(callf(f),callf(f,o2)),neg(mul(mult,fn('ln',q))),mod,tier,hooks={})
    # the object's hinge mass enters nothing but the absolute energies
    for e in genharness.entries():
        if e.kind!='method': continue
        if 'energy' in e.name and 'relative' not in e.name: continue
        a=CALL(e.sym,*[argsym(k) for k,_ in e.args]); b=CALL(e.sym,*[S('hinge_mass_2') if k=='hinge_mass' else argsym(k) for k,_ in e.args])
        m=genharness.short(e.mod)
        emit(out,m,'object %s::%s does not depend on the hinge mass'%(m,e.name),a,b,m,tier)
    return out

# ---- reference theories: independently written formulae, from the papers
KAP=S('nondimensional_link_stiffness'); EPS=S('nondimensional_link_energy')
def ln(x): return fn('ln',x)
def exp(x): return fn('exp',x)
def q(a,b=1): return C(F(a,b))
def sq(x): return powi(x,2)
def add_(*a):
    r=a[0]
    for x in a[1:]: r=add(r,x)
    return r
def mul_(*a):
    r=a[0]
    for x in a[1:]: r=mul(r,x)
    return r
def coth(x): return div(fn('cosh',x),fn('sinh',x))
MOM=ln(div(mul_(q(8),sq(PI_),M,sq(L),KT),sq(H)))
def lang(x): return sub(coth(x),div(ONE,x))
def gaussC(): return mul(q(1,2),ln(div(mul_(q(2),PI_,sq(L)),KAP)))
POT={'efjc':(lambda s:mul_(q(1,2),KAP,sq(sub(s,ONE))),q(1),None),
 'ufjc::morse':(lambda s:mul(EPS,sq(sub(ONE,exp(neg(mul(fn('sqrt',div(KAP,mul(q(2),EPS))),sub(s,ONE))))))),add(q(1),mul(q(3,2),fn('sqrt',div(KAP,mul(q(2),EPS))))),
     lambda:add(ONE,div(ln(q(2)),fn('sqrt',div(KAP,mul(q(2),EPS)))))),
 'ufjc::lennard_jones':(lambda s:mul(div(KAP,q(72)),sub(powi(s,-12),mul(q(2),powi(s,-6)))),q(23,2),lambda:fn('powf',q(13,7),q(1,6))),
 'ufjc::log_squared':(lambda s:mul_(q(1,2),KAP,sq(ln(s))),q(5,2),lambda:exp(ONE))}
def fam_oracle(tier):
    out=[]; F0=free(); g='nondimensional_gibbs_free_energy_per_link'; h='nondimensional_helmholtz_free_energy_per_link'; ph=neg(ln(div(fn('sinh',ETA),ETA)))
    def ob(mod,nm,spec,txt,**k): emit(out,mod,'%s::%s is %s'%(mod,nm,txt),callf(F0[mod][nm]),spec,mod,tier,**k)
    ob('ideal::thermodynamics::isotensional',g,sub(neg(div(sq(ETA),q(6))),MOM),'the Gaussian chain')
    ob('ideal::thermodynamics::isometric','nondimensional_equilibrium_distribution',mul(fn('powf',div(mul(q(3),N_),mul(q(2),PI_)),q(3,2)),exp(neg(mul_(q(3,2),N_,sq(G))))),'the Gaussian chain')
    m='fjc::thermodynamics::isotensional'; ob(m,g,sub(ph,MOM),'the freely jointed chain')
    m='swfjc::thermodynamics::isotensional'; s_=add(ONE,div(W,L)); x=mul(s_,ETA)
    Ksw=sub(sub(mul(x,fn('cosh',x)),fn('sinh',x)),sub(mul(ETA,fn('cosh',ETA)),fn('sinh',ETA)))
    ob(m,g,sub(sub(mul(q(3),ln(ETA)),ln(Ksw)),MOM),'the square-well chain (links of length between l and l+w)')
    # extensible chains
    for p,(u,c,smax) in POT.items():
        a=p+'::thermodynamics::isotensional::asymptotic'; r=a+'::reduced'
        x=callf(F0[r]['nondimensional_end_to_end_length_per_link']); dl=sub(x,lang(ETA)); lam=add(ONE,dl)
        kw={}
        if p=='ufjc::morse': kw=dict(xguard=[Cond('<',sq(mul(q(8),sq(ETA)) if 0 else ETA),div(mul(EPS,KAP),q(8)))])
        # link stretch: du/dl = force
        uu=DIFF('$s',u(S('$s')))
        if p=='efjc': spec=mul(KAP,dl)
        elif p=='ufjc::morse':
            al=fn('sqrt',div(KAP,mul(q(2),EPS))); spec=mul_(q(2),EPS,al,exp(neg(mul(al,dl))),sub(ONE,exp(neg(mul(al,dl)))))
        elif p=='ufjc::lennard_jones': spec=mul(div(KAP,q(6)),sub(powi(lam,-7),powi(lam,-13)))
        else: spec=div(mul(KAP,ln(lam)),lam)
        emit(out,r,'%s::nondimensional_end_to_end_length_per_link: the link stretches to where its tension is the force'%r,spec,ETA,r,tier,**dict(kw))
        base=add(ph,sub(u(lam),mul(ETA,dl)))
        ob(r,g,sub(sub(base,gaussC()),MOM),'freely jointed plus link energy',**dict(kw))
        ob(a,g,sub(sub(sub(base,ln(add(ONE,div(mul_(c,ETA,coth(ETA)),KAP)))),gaussC()),MOM),'the asymptotic theory',**dict(kw))
        if smax:
            m=p+'::thermodynamics::isotensional'; s=S('$s')
            z=QUAD('$s',q(1,10**6),smax(),mul(exp(neg(u(s))),mul(div(s,ETA),sub(exp(mul(ETA,s)),exp(neg(mul(ETA,s)))))))
            ob(m,g,sub(neg(ln(z)),MOM),'the single-link partition integral')
    m='efjc::thermodynamics::isotensional::asymptotic::alternative'
    ob(m,g,sub(sub(sub(ph,div(add(mul(q(1,2),sq(ETA)),mul(ETA,coth(ETA))),KAP)),gaussC()),MOM),'the alternative asymptotic theory')
    m='efjc::thermodynamics::isotensional'; rt=fn('sqrt',mul(q(2),KAP))
    half=lambda e:mul_(exp(e),add(ONE,div(e,KAP)),add(ONE,fn('erf',div(add(KAP,e),rt))))
    z=mul_(div(ONE,mul(q(2),ETA)),fn('sqrt',div(PI_,mul(q(2),KAP))),exp(div(sq(ETA),mul(q(2),KAP))),sub(half(ETA),half(neg(ETA))),L)
    ob(m,g,sub(neg(ln(z)),MOM),'the single-link partition integral in closed form')
    # worm-like chain
    m='wlc::thermodynamics::isometric'; t=S('nondimensional_persistance_length'); a=q(14054,1000); b=q(473,1000); g2=sq(G)
    c0=sub(ONE,fn('powf',add(ONE,powi(div(q(38,100),fn('powf',t,q(95,100))),-5)),q(-1,5)))
    CC=((-1,1,q(-3,4)),(-1,2,q(23,64)),(-1,3,q(-7,64)),(0,1,q(-1,2)),(0,2,q(17,16)),(0,3,q(-9,16)))
    sm=add_(*[mul_(c,powi(t,i),powi(g2,j)) for i,j,c in CC])
    def Q(small):
        if small: d=ONE; e=mul(fn('powf',div(q(3),mul_(q(4),PI_,t)),q(3,2)),sub(ONE,mul(q(5,4),t)))
        else:
            y=sub(t,q(111,1000)); d=sub(ONE,div(ONE,add(div(q(177,1000),y),mul(q(64,10),fn('powf',y,q(783,1000))))))
            e=mul_(q(11204,100),sq(t),exp(sub(div(q(246,1000),t),mul(a,t))))
        den=sub(ONE,mul(sq(b),g2)); arg=neg(div(mul_(d,t,a,add(ONE,b),G),den))
        return mul_(e,fn('powf',div(sub(ONE,mul(c0,g2)),sub(ONE,g2)),q(5,2)),exp(div(sm,sub(ONE,g2))),exp(neg(div(mul_(d,t,a,b,add(ONE,b),g2),den))),fn('bessel_i0',arg))
    mw=ln(div(mul_(q(4),fn('sin',fn('acos',exp(neg(div(ONE,t))))),sq(PI_),M,sq(L),KT),sq(H)))
    for small in(1,0):
        dom={'nondimensional_persistance_length':(F(1,10**9),F(1249999999,10**10)) if small else (F(1,8),F(10**9)),'nondimensional_end_to_end_length_per_link':(F(1,10**9),F(999999999,10**9))}
        ov={'nondimensional_persistance_length':(0.03,0.12) if small else (0.13,0.6)}; w=' (%s chains)'%('flexible' if small else 'stiff')
        f=F0[m]['nondimensional_equilibrium_distribution']
        emit(out,m,'%s::nondimensional_equilibrium_distribution is the Becker-Rosa-Everaers density%s'%(m,w),ln(callf(f)),sub(ln(Q(small)),ln(S('normalization_nondimensional_equilibrium_distribution'))),m,tier,dom=dom,over=ov)
        emit(out,m,'%s::nondimensional_helmholtz_free_energy is that of the Becker-Rosa-Everaers density%s'%(m,w),callf(F0[m]['nondimensional_helmholtz_free_energy']),sub(neg(ln(Q(small))),mul(sub(N_,ONE),mw)),m,tier,dom=dom,over=ov)
    mi='wlc::thermodynamics::isotensional'; s=S('$s'); psi=callf(F0[m]['nondimensional_helmholtz_free_energy'],{'nondimensional_end_to_end_length_per_link':s})
    ne=mul_(N_,ETA,s)
    z=QUAD('$s',q(1,10**6),ONE,mul_(q(2),PI_,exp(neg(psi)),sub(exp(ne),exp(neg(ne))),div(mul(N_,s),ETA)))
    emit(out,mi,'%s::nondimensional_gibbs_free_energy is the Laplace transform of the isometric ensemble (inverse)'%mi,callf(F0[mi]['nondimensional_gibbs_free_energy']),sub(neg(ln(z)),mw),mi,tier)
    # harmonic potential on the freely jointed chain
    m='fjc::thermodynamics::modified_canonical'; d=S('nondimensional_potential_distance'); k=S('nondimensional_potential_stiffness'); nk=mul(sq(N_),k)
    P=callf(F0['fjc::thermodynamics::isometric']['nondimensional_equilibrium_distribution'],{'nondimensional_end_to_end_length_per_link':s})
    ker=div(sub(exp(neg(mul_(q(1,2),nk,sq(sub(d,s))))),exp(neg(mul_(q(1,2),nk,sq(add(d,s)))))),mul_(q(2),nk,d,s))
    z=QUAD('$s',q(1,10**6),ONE,mul_(q(4),PI_,sq(s),P,ker))
    ob(m,'nondimensional_helmholtz_free_energy',sub(neg(ln(z)),mul(sub(N_,ONE),MOM)),'the isometric distribution convolved with the potential')
    m2=m+'::asymptotic::weak_potential'; e=mul_(N_,k,d)
    ob(m2,g,sub(add(neg(ln(div(fn('sinh',e),e))),mul_(q(1,2),k,N_,sq(lang(e)))),MOM),'the weak-potential expansion')
    m3=m+'::asymptotic::strong_potential'; hh=lambda:neg(ln(callf(F0['fjc::thermodynamics::isometric']['nondimensional_equilibrium_distribution'],{'nondimensional_end_to_end_length_per_link':d})))
    D1=DIFF('nondimensional_potential_distance',hh()); D2=DIFF('nondimensional_potential_distance',D1)
    ob(m3,'nondimensional_helmholtz_free_energy',sub(sub(add(hh(),div(sub(D2,sq(D1)),mul(q(2),nk))),mul(sub(N_,ONE),MOM)),mul(q(3,2),ln(div(mul(q(2),PI_),nk)))),'the strong-potential expansion')
    return out
def fam_treloar(tier):
    out=[]; m='fjc::thermodynamics::isometric'; f=free()[m]['nondimensional_equilibrium_distribution']
    import math
    for N in ([2,3,4,5,6,8,12,18,25,27,36] if tier=='quick' else list(range(2,41))+[50,64]):
        for k in range((N+1)//2):
            lo=max(F(1,10**9),F(N-2*k-2,N)+(F(1,10**9) if N==2 else 0)); hi=min(F(999999999,10**9),F(N-2*k,N))
            if lo>=hi: continue
            mm=div(sub(ONE,G),q(2)); e=ZERO
            for s in range(k+1):
                b=sub(mm,C(F(s,N))); t=powi(b,N-2) if N>2 else ONE
                e=add(e,mul(C((-1)**s*math.comb(N,s)),t))
            P=mul(div(C(F(N**N,math.factorial(N-2)*8)),mul(PI_,G)),e)
            ob=mkob('%s::nondimensional_equilibrium_distribution is the exact random-flight density, piece %d'%(m,k),callf(f),P,m,Nconc=N,dom={'nondimensional_end_to_end_length_per_link':(lo,hi)},over={'nondimensional_end_to_end_length_per_link':(float(lo),float(hi))},tol=1e-8 if N<10 else 1e-6 if N<16 else 1e-4 if N<45 else 1e-2)
            out.append(ob)
    return out
