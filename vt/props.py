ENS=[SC+m for m in ('ideal/thermodynamics','fjc/thermodynamics','efjc/thermodynamics','swfjc/thermodynamics','ufjc/lennard_jones/thermodynamics','ufjc/log_squared/thermodynamics','ufjc/morse/thermodynamics','wlc/thermodynamics')]
prop('C01','Dimensional results are the nondimensional results in physical units',
 'For every single-chain model, ensemble and approximation, a dimensional energy equals kT times its nondimensional counterpart, a dimensional length equals the link length times it, and a dimensional force equals kT over the link length times it, when the arguments are nondimensionalised the same way. The numbers that enter depend only on the nondimensional groups (force x length/kT, stiffness x length^2/kT, energy/kT, length/contour length).',
 ['inputs','configurations'],'all positive parameters and states, all link counts 1..255, every model/ensemble/approximation that offers both forms',
 'the tests compare the two forms at 8-88 random parameter sets per function with a tolerance, and share the reference parameter ranges; a wrong factor in a rarely taken branch or a swapped argument that cancels at the sampled values stays unseen',
 ENS,[('thin dimensional wrappers around nondimensional functions','every pub fn X and pub fn nondimensional_X in the same module')],
 TQ,NOTE+REALS+'Newton inverses are read as "the solution of F(u)=y" (one branch).')
prop('C02','Totals are the number of links times the per-link results',
 'For every single-chain model, ensemble and approximation, every extensive quantity (end-to-end length, Gibbs and Helmholtz free energy, relative or absolute, dimensional or not) equals the number of links times the quantity reported per link at the same state.',
 ['inputs','configurations'],'all positive parameters and states, all link counts 1..255',
 'tests sample a handful of random link counts and states; the identity has to hold for every link count and on every branch of both functions',
 ENS,[('per-link variants','every pub fn X and pub fn X_per_link in the same module')],TQ,NOTE+REALS)
prop('C03','Relative free energies are the absolute ones up to a state-independent constant',
 'For every model and ensemble, the difference of a relative free energy between any two states equals the difference of the corresponding absolute free energy between the same two states.',
 ['inputs','configurations'],'all pairs of states (force, end-to-end length or potential distance), all positive parameters, all link counts',
 'tests compare one reference state against a random state; a term that depends on the state but vanishes near the sampled states, or a branch, is not reached',
 ENS,[('relative_* functions','every pub fn relative_* / nondimensional_relative_*')],TQ,NOTE+REALS)
prop('C04','Conjugate responses are exact derivatives of the free energies',
 'In the isotensional ensemble the end-to-end length is minus the derivative of the Gibbs free energy with respect to the force; in the isometric ensemble the force is the derivative of the Helmholtz free energy with respect to the end-to-end length; with a harmonic potential the same holds with the potential distance and stiffness. This holds per link and in total, dimensionally and nondimensionally, for absolute and relative energies.',
 ['inputs','configurations'],'all positive parameters and states, all link counts; square-well isometric Legendre states above 0.00102 of full extension, worm-like chain isotensional forces up to 100 (nondimensional)',
 'tests difference the energy numerically with a loose tolerance at random states; terms that are small at those states (error-function corrections, exponentially small terms) are below the tolerance, and a defect of that kind was found by this check',
 ENS,[('analytic responses next to the energies','end_to_end_length*/force* vs gibbs_/helmholtz_free_energy* in the same module')],TQ,NOTE+REALS+'The derivative is taken symbolically of the energy the code computes.')
prop('C05','Legendre-transformed ensembles carry the transform of their parent',
 'In the isotensional ensemble under the Legendre transformation the Helmholtz free energy equals the Gibbs free energy plus force times end-to-end length at the same force (total, per link, nondimensional). In the isometric ensemble under the Legendre transformation the relative Helmholtz free energy changes between two end-to-end lengths exactly as isotensional Gibbs energy plus force times length does at the forces the transformation assigns. Where the isometric Legendre ensemble offers Gibbs energies they equal the parent Helmholtz energy minus force times length.',
 ['inputs','configurations'],'all positive parameters and states, all link counts, every module named legendre',
 'the tests compare the energies at a few random states against the same formula with tolerance; a dropped or doubled term that is small there, or a branch, is not reached',
 ENS,[('legendre modules','*/thermodynamics/**/legendre/mod.rs')],TQ,NOTE+REALS)
prop('C06','The isometric Legendre force inverts the isotensional extension',
 'For every model whose isometric ensemble is obtained by the Legendre transformation, evaluating the isotensional end-to-end length of the same model and approximation at the returned force gives back the applied end-to-end length, dimensionally and nondimensionally, up to the relative tolerance of the root finder.',
 ['inputs','configurations'],'all positive parameters, all extensions in the domain of the model (extensible links: up to four times the contour length), all link counts; square-well extensions above 0.00102',
 'the tests round-trip a few random states with loose tolerance; the inversion has to hold on the whole domain including near zero and near full extension',
 ENS,[('Newton inversions and closed-form inverses','*/isometric/**/legendre/mod.rs'),('inverse Langevin function','src/math/mod.rs')],TQ,NOTE+REALS+'Newton inverses are read as the solution of F(u)=y; the root finder itself is judged by C15.')
prop('C07','Equilibrium distributions are mutually consistent and Boltzmann weighted',
 'The dimensional distribution is the nondimensional one divided by the cube of the contour length and the dimensional radial distribution the nondimensional one divided by the contour length; each radial distribution is 4 pi times the squared length times the distribution; and the logarithm of the distribution changes between two end-to-end lengths by minus the change of the Helmholtz free energy over kT, for the absolute and the relative energy alike.',
 ['inputs','configurations'],'all positive parameters and end-to-end lengths below the contour length, all link counts',
 'the tests check normalisation numerically and a few sampled ratios; factors and branches away from the samples are not reached',
 [SC+m for m in ('ideal/thermodynamics/isometric','fjc/thermodynamics/isometric','swfjc/thermodynamics/isometric','efjc/thermodynamics/isometric','wlc/thermodynamics/isometric')],[('equilibrium distributions','pub fn (nondimensional_)equilibrium_(radial_)distribution')],TQ,NOTE+REALS)
prop('C08','Relative energies vanish at the zero state',
 'Every relative free energy is zero, to within 1e-9 of its natural scale (kT, times the number of links for totals), at the reference state of zero force, end-to-end length or potential distance (the crate uses 1e-6 in nondimensional terms).',
 ['inputs','configurations'],'all positive parameters, all link counts, all 200-odd relative energies',
 'the tests check a few functions with sampled parameters; the reference has to cancel for every parameter, also in branches selected by the parameters',
 ENS,[('relative_* functions','every pub fn relative_* / nondimensional_relative_*')],TQ,NOTE+REALS+'Constants are evaluated to 60 digits.')
prop('C09','Modified canonical Gibbs and Helmholtz energies differ by the device energy',
 'In the modified canonical ensemble the Gibbs free energy equals the Helmholtz free energy minus half the potential stiffness times the squared potential distance, in total, per link, and nondimensionally.',
 ['inputs'],'all positive potential stiffnesses and distances below the contour length, all link counts',
 'sampled states with a tolerance cannot settle an identity over five parameters',
 [SC+'fjc/thermodynamics/modified_canonical'],[('gibbs_free_energy / helmholtz_free_energy','modified_canonical/mod.rs')],TQ,NOTE+REALS)
prop('C10','Hinge mass and temperature enter absolute energies only through the momenta',
 'A nondimensional absolute free energy depends on hinge mass and temperature only through minus (number of hinges counted) times ln(mass x temperature): one per link in the isotensional and ideal ensembles, one fewer in the isometric and modified canonical ones (as many as links for the weak-potential Gibbs energy). No other quantity of a model object depends on the hinge mass.',
 ['inputs','configurations'],'all positive masses and temperatures (any two), all other parameters, all link counts, every absolute energy and every method of every model object',
 'tests use the same reference mass and temperature on both sides of their comparisons, so a wrong power of either cancels',
 ENS,[('momentum prefactor 8 pi^2 m l^2 kT / h^2','every nondimensional_*free_energy*')],TQ,NOTE+REALS)
prop('C11','Model objects answer exactly as the functions with the stored parameters',
 'Every method of every model object initialised with given parameters returns what the free function of the same name returns for those parameters, the derived nondimensional parameters being those of the stored ones; its public fields are the parameters it was made with; methods that need the normalisation of an equilibrium distribution use the one under which the radial distribution integrates to one.',
 ['inputs','configurations'],'all positive parameters and states, all link counts, every method of every single-chain object',
 'tests build objects from a narrow range of random parameters and rarely compare with the functions; a swapped or stale field that matters for other parameters is not seen',
 ENS,[('struct methods','impl <MODEL> in every module')],TQ,NOTE+REALS+'The normalisation is computed by the crate with 64-point quadrature; it is compared with the same quadrature of the free function.')
prop('C12','The C interface is the Rust interface',
 'Every C function of the interface is exported under its name and returns exactly what the Rust function of the same module and name returns for the same arguments.',
 ['inputs','configurations'],'all positive parameters and states, all link counts, every exported C function of the single-chain models',
 'the Rust tests never call the exported functions and the Julia tests cover a few with sampled arguments',
 [SC+m for m in ('ideal','fjc','efjc','swfjc','ufjc','wlc')],[('extern "C" functions','**/ex.rs')],TQ,NOTE+REALS)
prop('C13','Each model computes its published single-chain theory',
 'The isotensional Gibbs energy per link is: ideal chain -f^2/6; freely jointed -ln(sinh f/f); square well -ln of the link integral between l and l+w; EFJC the Gaussian-link partition integral in closed form; Morse, Lennard-Jones and log-squared links the quadrature of s sinh(fs)/f exp(-u(s)) up to the stretch of maximum tension; their asymptotic forms freely jointed plus link energy, with the coupling term ln(1 + c f coth f/kappa) (c = 1, 1+1.5a, 23/2, 5/2) unless reduced, the link stretch being where the link tension equals the force; each with the hinge momentum constant. The FJC isometric density is the exact random-flight (Treloar) density for every number of links, the WLC one the Becker-Rosa-Everaers density, and its isotensional ensemble the Laplace transform; the modified canonical FJC energy is the convolution with the harmonic potential and its weak and strong limits are the published expansions.',
 ['inputs','configurations'],'all positive parameters and states; Morse forces below the maximum, WLC forces up to 100; exact densities for listed link counts up to 36 (64 thorough), every extension',
 'the tests check self-consistency of the code with itself and leave the formula free to be wrong in ways that are consistent; no test knows the theory, and large link counts are never sampled (the overflow beyond 26 links found here)',
 ENS,[('free energies and densities','every isotensional/isometric/modified_canonical module')],TQ,NOTE+REALS+'Quadratures are compared at the code\'s own resolution.')
prop('C14','The special functions are the functions they are named after',
 'erf, erfc and erfcx agree with the exact error functions, bessel_i with the modified Bessel functions of order 0 and 1, lambert_w with the real solution of W exp(W) = x, and inverse_langevin with the solution of coth x - 1/x = y, within their stated accuracies, on every piece of their piecewise definitions.',
 ['inputs'],'erfcx -26..1e9, erf and erfc |x| up to 26, I0 and I1 on 0..700, Lambert W arguments -0.354..1.9e6 (thorough 1e8), inverse Langevin 0..1',
 'src/math has no tests at all; a wrong coefficient in one of the more than one hundred polynomial pieces, or a wrong breakpoint, affects a narrow interval that sampled model states do not meet',
 ['src/math'],[('piecewise Chebyshev erfcx, Abramowitz-Stegun Bessel polynomials, Halley iteration','src/math/mod.rs')],TQ,
 'The code is executed piece by piece; each piece is compared with the defining equation (Taylor enclosures discharged by z3 cell by cell) to a stated tolerance. '+REALS)
prop('C15','Quadrature and root finding compute what they claim for every function',
 'integrate_1d and integrate_2d return the midpoint sum of whatever function they are given, the symmetric and grid variants the corresponding sums; inverse_newton_raphson returns an iterate of Newton\'s method and stops early only when the relative residual is within tolerance; every model that calls the root finder hands it the exact derivative of the function it inverts, a tolerance of at most 1e-5 and at least 50 iterations.',
 ['inputs','configurations'],'uninterpreted (arbitrary) integrands and inverted functions, up to 10 points (thorough 40 and 64); Newton runs of up to 3 steps (thorough 6), and of 100 steps (thorough 255) for every sequence of function values met on the way; every analytic root-finding call site of the models',
 'the kernels have no tests; the models only exercise them with one smooth function each, for which a wrong weight or stopping rule is hidden by loose tolerances',
 ['src/math']+ENS,[('integrate_*, inverse_newton_raphson*','src/math/mod.rs'),('root-finding call sites','*/legendre/mod.rs, ufjc/**')],TQ,
 'The integrand is an uninterpreted function symbol. The Lennard-Jones call whose inverted function is itself a root (numerical derivative) and the WLC Legendre call (numerical derivative) are left out of the derivative claim. Global convergence from the starting guess is not claimed. '+REALS)
prop('C16','Monte Carlo chains have the model geometry and every sample is counted once',
 'For every outcome of the random draws: each sampled FJC link has unit length and each EFJC link the length drawn for it, in a direction distributed uniformly over the sphere and independent of that length; each FRC and EFRC link has unit or drawn length, encloses the prescribed angle with the previous link and turns uniformly about it; the end-to-end length is the distance between the ends. The radial histograms count every chain inside their range exactly once, in the bin that contains its length, bins are centred at the midpoints of equal intervals of [0, maximum], and the probabilities integrate to one; no FRC chain is longer than the maximum, for even and odd numbers of links.',
 ['inputs','histories'],'every value of every random draw (uniform draws in (0,1), normal draws giving positive link lengths), angles 0.001..1.57, chains of up to 3 links (FRC/EFRC geometry 2, FRC maximum 5), histograms of 3 bins and up to 3 samples',
 'random tests only look at lengths and signs of the result; a wrong direction distribution or a chain that exceeds the range happens for draws the tests do not hit (an odd-link panic was found here)',
 [SC+m+'/thermodynamics/isometric/monte_carlo' for m in('fjc','efjc','frc','efrc')],[('random_configuration, random_nondimensional_end_to_end_length, nondimensional_equilibrium_radial_distribution','*/monte_carlo/mod.rs')],TQ,
 'The draws are symbolic (a stand-in rand crate); uniformity is decided as constant area element of the map from draws to directions. Samples exactly on a bin edge (probability zero) are left out. '+REALS)
CB='src/constitutive/'
prop('C17','The hyperelastic stress is the documented average over chains',
 'For both implemented methods, any number of links, link stiffness and stretch, BucheSilberstein::uniaxial_tension is 2 pi N times the sum over the model grid (z, r spaced as atanh of equal steps) of P(gamma0) eta(gamma)/gamma (2 z^2 - r^2) r with gamma^2 = z^2 + r^2 and gamma0^2 = (z/stretch)^2 + stretch r^2, where eta is the reduced asymptotic EFJC force and P the equilibrium distribution normalised over the same grid: Boltzmann factor of the free energy (method 2) or the Gaussian with the small-force stiffness of the EFJC (method 3). equibiaxial_tension at a stretch is minus the uniaxial stress at its inverse square. The C functions return the same sums for the tables they are given.',
 ['inputs','configurations'],'stiffness 0.1..1e6, stretch 0.05..20, 1..255 links, methods 2 and 3, any chain force and energy; grids of 3 x 3 (thorough 4 x 4)',
 'the constitutive models have no tests; the stress is a sum of 65536 terms in which a wrong exponent, jacobian or normalisation is invisible to spot checks at moderate stretches',
 [CB+'hyperelastic/buche_silberstein'],[('init, uniaxial_tension, equibiaxial_tension','mod.rs'),('C functions','ex.rs')],TQ,
 'The grid constant is reduced in the staged copy of the source; the chain force and energy are uninterpreted functions (their own behaviour is C04, C06, C15). '+REALS)
prop('C18','Damage counts exactly the chains never stretched beyond the critical extension',
 'For both implemented methods, any parameters and any history of stretches (starting from rest), each step of the damage model\'s uniaxial_tension returns the stress and the total probability of intact chains as the sums over its grid of the documented integrals: a chain now at (z, r) counts if and only if its length was within the critical extension at every stretch of the history from rest to now, that is at the largest stretch so far and at rest; its weight is the equilibrium distribution at its length before deformation and swelling, diluted by the swelling ratio. The result at a step depends on the history only through the current and the largest stretch.',
 ['inputs','histories'],'stiffness 0.1..1e6, critical extension 0.1..10, swelling 0.05..20, stretches 1..20, 1..255 links, methods 2 and 3, histories of up to 3 stretches, and of 4 whose third holds the second (thorough: any 4); grids of 3 x 3',
 'the damage model has no tests; damage shows only after loading, unloading and reloading, and only for chains near the critical extension (two defects found here)',
 [CB+'hyperelastic_damage/buche_silberstein'],[('init, uniaxial_tension, BucheSilberstein::uniaxial_tension','mod.rs')],TQ,
 'Which cells are intact is split by the solver over every consistent combination of stretches; for each the sums are compared exactly. The grid constant is reduced in the staged copy; chain force and energy are uninterpreted. '+REALS)
prop('C19','Python objects answer exactly as the Rust functions',
 'Every method of every Python class, reached by attribute access from the class of the model as a Python user does, returns for every element of an array argument what the Rust function of that module and name returns for the parameters the object was made with; its attributes are those parameters; hyperelastic and damage Python models return the Rust stresses and the documented damage integrals.',
 ['inputs','configurations'],'all positive parameters and states, arrays of two elements, all link counts, every method and attribute of every Python class; constitutive models on grids of 2 x 2 (thorough 3 x 3)',
 'the Rust tests do not compile the Python feature; the Python tests are not run here and sample few arguments',
 ['src'],[('Python classes','**/py.rs')],TQ,
 'pyo3 and numpy are replaced by pass-through stand-ins in the staged copy (their real sources need a Python to link against): registration in the Python module and conversion of Python objects are trusted. '+REALS)
prop('C20','Julia functions and objects answer exactly as the Rust functions',
 'Every Julia function hands its own arguments, in the order and with the types of the C declaration, to the C function of its module and name and so returns, elementwise over arrays, what the Rust function returns; every Julia object\'s fields and functions answer for the parameters it was made with; the Julia quadrature is the midpoint rule.',
 ['inputs','configurations'],'all positive parameters and states, arrays of two elements, all link counts, every Julia function and object function; quadrature of any function with 1..6 points (thorough 1..12)',
 'the Julia files are not compiled or run by any test here, and a ccall with a wrong type or argument order is not seen by any compiler (one was found here)',
 ['src'],[('ccall wrappers and structs','**/mod.jl')],TQ,
 'The Julia source is executed by a symbolic interpreter of the subset of the language used; broadcasting and ccall semantics are trusted. A counterexample is replayed through the C functions compiled from the current source. '+REALS)

prop('C21','Every function is defined on the whole domain of its model',
 'For every positive parameter, number of links and state in the domain of the model, the single-chain functions return a real number: no division by zero, no logarithm, root or power of a negative number, no special function outside its range, no panic and no wrap-around of integers. The domain is that of the theory: extensions below full extension where links are rigid, forces below the maximum a Morse, Lennard-Jones or log-squared link can carry, at least two links for the exact freely jointed sums.',
 ['inputs','configurations'],'all positive parameters and states in the domain, link counts 1..255; exact freely jointed sums at 3 and 6 links (thorough 2..7, 9, 12) and their integer arithmetic at 255',
 'a NaN or a panic appears in a narrow interval (next to a threshold, in a branch chosen by the parameters) or at link counts far above the 5..25 the tests draw',
 ENS,[('branches and thresholds of the closed forms, integer arithmetic on the number of links','every module of src/physics/single_chain')],TQ,
 NOTE+REALS+'The executor records a condition for every operation that can be undefined; a prover (signs of sums and products, normal forms, z3 with facts about exp, sinh, tanh, erf and Lambert W) discharges each under the path condition. Left out: the worm-like chain isotensional transform, iterates of Newton\'s method (a root is taken to be a point where the inverted function is defined; see N03), floating-point overflow (N05).')

prop('C22','Chains are stable: they lengthen under force, and their densities are positive',
 'The isotensional end-to-end length strictly increases with the force, for every positive parameter and every force the links can carry, and that of a freely jointed chain stays below its contour length (total, per link, dimensional or not). Equilibrium distributions and radial distributions are positive at every end-to-end length in the domain.',
 ['inputs','configurations'],'all positive parameters and states, all link counts; increase: ideal, freely jointed, and the asymptotic forms of the harmonic, Morse and log-squared links; densities: every model (exact freely jointed: 2..6 links, thorough 2..12)',
 'the tests never compare two forces or look at a sign; a drop between two forces, at a threshold or in a narrow range of stiffness, is not sampled',
 [SC+m for m in('ideal','fjc','efjc','swfjc','ufjc','wlc')],[('closed-form extensions, Boltzmann factors and the random-flight sums','isotensional and isometric modules')],TQ,
 NOTE+REALS+'The derivative of the coded extension is taken symbolically and shown to be positive; between two branches on the force the extension is shown not to drop. The extensions of the square-well model, the full harmonic model, the worm-like chain and those computed by quadrature or root finding are left out (their increase is the positivity of a variance, beyond the prover); C04 and C06 tie them to their energies. Positivity of powers rests on C21.')

NAQ=dict(technique=None,note=None)
prop('N01','Monte Carlo histograms converge to the analytic densities',
 'As the number of samples grows, the radial histogram of random configurations converges to the radial equilibrium distribution of the same model.',
 ['inputs','histories'],'all models with both, all link counts, number of samples to infinity','a finite number of samples cannot settle a limit',[SC],[('monte_carlo modules','*/monte_carlo/mod.rs')],**NAQ,
 na='a limit in probability over an unbounded number of random draws; the geometry and the uniformity of single draws, and the counting, are decided in C16 and the densities in C13, but the law of large numbers that joins them is not an SMT question')
prop('N02','Ensembles become equivalent for long chains',
 'As the number of links grows, isometric and isotensional responses at the same extension agree; as the potential stiffens or weakens, the modified canonical ensemble tends to the isometric or isotensional one.',
 ['inputs'],'all models that offer both ensembles; number of links, or stiffness, to infinity','the tests check that a difference shrinks between two sampled values',[SC],[('thermodynamics','every model')],**NAQ,
 na='an asymptotic statement in an unbounded link count (the exact density has one term per link, at most 255 here) or an unbounded stiffness; within bounds there is no equality to decide, and the rate of the difference is a transcendental inequality over integrals that z3 cannot bound')
prop('N03','Root finding converges from the crate\'s starting guesses',
 'For every parameter and extension the Newton iterations of the crate, started from the guesses in the code, reach the solution within the allowed number of iterations.',
 ['inputs'],'all parameters and extensions of every Newton-based function','tests sample some starting points',['src/math']+ENS,[('inverse_newton_raphson','src/math/mod.rs'),('call sites','*/legendre/mod.rs')],**NAQ,
 na='a global convergence argument over iterates of transcendental functions (coth, erf, exp); what the kernel returns and when it stops is decided in C15, that a returned root is the right one in C06')
prop('N04','Quadratures are close to the integrals they stand for',
 'Distributions normalised on 64 points, partition functions of Morse, Lennard-Jones and log-squared links and the modified canonical integrals differ from the true integrals by less than the accuracy users expect.',
 ['inputs'],'all parameters','tests sample some parameters with loose tolerance',['src/math']+ENS,[('integrate_1d, integrate_2d','src/math/mod.rs')],**NAQ,
 na='needs bounds on second derivatives of transcendental integrands for every parameter; that the rule is the midpoint rule, and that the right integrand and limits are handed to it, is decided in C07, C11, C13 and C15')
prop('N05','Results are accurate in floating point',
 'Computed values agree with the exact value of the coded expression to a small relative error, with no overflow or cancellation, for every parameter.',
 ['inputs'],'all parameters','tests sample benign parameters',['src'],[('all functions','src')],**NAQ,
 na='rounding of sinh, exp, ln, erf and alternating sums: the encodings are over the reals, and bit-level floating-point theories have no transcendental functions; known limits are named in DESIGN.md section 1')
