"""The registered checks: property id -> tasks, bounds, explanation."""
import families2 as FM
import special as SP,kernels as KN,lambert as LB,montecarlo as MC
def fam(*names):
    def t(c):
        out=[]
        for n in names: out+=[o for o in getattr(FM,'fam_'+n)(c.tier) if not isinstance(o,tuple)]
        return out
    return t
def free_only(e): return e.kind=='free'
def kinds(*k): return lambda e:e.kind in k
SYMB='real arguments: every value in the stated positive domain (1e-9..1e9; lengths below full extension); number of links: symbolic over 1..255 (2..255 for the exact FJC sums)'
def prio(o): return ('wlc' in o.name)+('morse' in o.name)+('legendre' in o.name)
CHECKS={}
def reg(pid,**k): CHECKS[pid]=k
reg('C01',tasks=fam('scaling'),only=free_only,priority=prio,bounds=SYMB,explain='dimensional = scale x nondimensional, one obligation per function')
reg('C02',tasks=fam('perlink'),only=free_only,priority=prio,bounds=SYMB,explain='total = N x per link, one obligation per function pair')
reg('C03',tasks=fam('relative'),only=free_only,priority=prio,bounds=SYMB,explain='relative energies')
reg('C04',tasks=fam('conjugate'),only=free_only,priority=prio,bounds=SYMB,explain='conjugate variables are derivatives of the free energies')
reg('C05',tasks=fam('legendre'),only=free_only,priority=prio,bounds=SYMB,explain='Legendre transforms between the ensembles')
reg('C06',tasks=lambda c:fam('inverse')(c)+KN.fam_newton(c.tier)+KN.fam_calls(c)+KN.fam_invlang(c.tier),only=free_only,extra='math',priority=prio,bounds=SYMB,explain='isotensional extension at the isometric Legendre force')
reg('C07',tasks=lambda c:fam('distribution')(c)+KN.fam_quadrature(c.tier),only=free_only,extra='math',priority=prio,bounds=SYMB,explain='equilibrium distributions against each other and against the free energies')
reg('C08',tasks=fam('zero'),only=free_only,priority=prio,bounds=SYMB,explain='relative energies at the zero state, to 1e-9 of kT (times N for totals)')
reg('C09',tasks=fam('modcan'),only=free_only,priority=prio,bounds=SYMB,explain='Gibbs and Helmholtz energies of the modified canonical ensemble')
reg('C10',tasks=fam('mass'),only=kinds('free','method'),priority=prio,bounds=SYMB,explain='mass and temperature dependence of absolute energies; mass independence of everything else')
reg('C11',tasks=lambda c:fam('methods')(c)+KN.fam_quadrature(c.tier),only=kinds('free','method','field'),extra='math',priority=prio,bounds=SYMB+'; object normalisations compared with the crate quadrature of the free radial distribution',explain='model objects against the functions')
reg('C12',tasks=fam('externs'),only=kinds('free','extern'),priority=prio,bounds=SYMB,explain='C functions against the functions')
reg('C13',tasks=fam('oracle','treloar'),only=free_only,priority=prio,bounds=SYMB+'; exact random-flight density: every piece for N = 2..6,8,12,18,25,27,36 (thorough 2..40,50,64)',explain='the code against independently written theories')
nothing=lambda e:False
def t14(c): return SP.fam_erf(c.tier)+SP.fam_bessel(c.tier)+KN.fam_invlang(c.tier)+LB.fam_lambert(c.tier)
def t15(c): return KN.fam_quadrature(c.tier)+KN.fam_newton(c.tier)+KN.fam_calls(c)
reg('C14',tasks=t14,only=nothing,extra='math',
 bounds='erfcx, erfc, erf: -26 <= x <= 1e9 (erfcx), |x| <= 26; Bessel I0, I1: 0 < x <= 700; Lambert W: -0.75 <= W <= 12 (thorough 16), that is -0.354 < x < 1.9e6; inverse Langevin: 0 < y < 1 (the equation handed to the root finder)',
 explain='the special functions executed polynomial piece by polynomial piece against the equations that define them')
reg('C15',tasks=t15,only=lambda e:e.kind=='free' and e.name in('nondimensional_force','nondimensional_end_to_end_length_per_link'),extra='math',
 bounds='quadrature rules on an arbitrary function, 1..10 points (thorough 1..40, 64); root finders on an arbitrary function, up to 3 steps (thorough 6) exactly, and 100 steps (thorough 255) over any sequence of function values and slopes, powers 0..3; every analytic root-finding call of the chain models, all parameters',
 explain='numerical kernels on uninterpreted functions; equations handed to the root finder')
reg('C16',tasks=lambda c:MC.fam_geometry(c.tier)+MC.fam_uniform(c.tier)+MC.fam_hist(c.tier),only=nothing,extra='mc',priority=lambda o:('hist' in o.name or 'frc' in o.name),
 bounds='draws: every value in (1e-6,1-1e-6), link lengths 0.001..1000; angles 0.001..1.57; chains of 1..3 links (FRC, EFRC geometry 1..2; FRC maximum 2..5); histograms of 3 bins, 1..3 samples of 1..3 links',explain='sampled chains and histograms with symbolic random draws')
import constitutive as CE
reg('C17',tasks=CE.fam_hyper,only=CE.only,extra='ce',grid=dict(quick=3,thorough=4),bounds='stiffness 0.1..1e6, stretch 0.05..20 (equibiaxial against uniaxial 0.25..4), 1..255 links: every value; the grid constant is reduced to 3 x 3 (thorough 4 x 4) in the staged copy; chain force and energy are any functions',explain='stress as the documented integral over the grid')
reg('C18',tasks=CE.fam_damage,only=CE.only,extra='ce',grid=dict(quick=3,thorough=3),bounds='stiffness 0.1..1e6, critical extension 0.1..10, swelling 0.05..20, stretches 1..20, 1..255 links: every value; histories of up to 3 stretches, and of 4 with the third holding the second (thorough: any 4); the grid constant is reduced to 3 x 3; chain force and energy are any functions',explain='stress and total probability as the documented integrals over the intact chains')

reg('C19',tasks=lambda c:CE.fam_python(c)+fam('python')(c),only=lambda e:e.kind in('free','py','pyfield'),features=('extern','python'),extra='ce,cepy',grid=dict(quick=2,thorough=3),
 priority=lambda o:100 if 'damage' in o.name else prio(o),bounds=SYMB+'; arrays of two elements; constitutive models on a 2 x 2 grid (thorough 3 x 3), histories of up to 3 stretches',explain='Python classes against the functions')
import julia as JL
reg('C20',tasks=JL.fam_julia,only=kinds('free','extern'),extra='math',priority=prio,bounds=SYMB+'; arrays of two elements; the quadrature rule on any function, 1..6 points (thorough 1..12)',explain='Julia wrappers, executed symbolically from their source, against the functions')
import defined as DF
reg('C21',tasks=lambda c:DF.fam_defined(c.tier),only=free_only,overflow=True,priority=prio,bounds=SYMB+'; below the largest force of the Morse, Lennard-Jones and log-squared links',explain='no division by zero, no logarithm, root or power outside its domain, no panic, no overflow')
import signs as SG
reg('C22',tasks=lambda c:SG.fam_signs(c.tier),only=free_only,priority=prio,bounds=SYMB+'; below the largest force of the Morse and log-squared links; exact freely jointed densities for 2..6 links (thorough 2..12)',explain='densities are positive; the extension rises with the force')
