"""Planted bugs: id -> property, edits [(file, old, new)], demo (Rust main using the crate), needs, breaks."""
SC='src/physics/single_chain/'
SEEDS={}
def seed(id,property,edits,demo,needs,breaks,**k): SEEDS[id]=dict(property=property,edits=edits,demo=demo,needs=needs,breaks=breaks,**k)

seed('s01a','C01',[(SC+'ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre/mod.rs',
 "BOLTZMANN_CONSTANT*temperature/link_length*nondimensional_force(&(link_stiffness*link_length.powi(2)/BOLTZMANN_CONSTANT/temperature), &(end_to_end_length/((*number_of_links as f64)*link_length)))",
 "BOLTZMANN_CONSTANT*temperature/link_length*nondimensional_force(&(link_stiffness*link_length.powi(2)/BOLTZMANN_CONSTANT/temperature), &(end_to_end_length/((*number_of_links as i8 as f64)*link_length)))")],
 '''use polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre as m;
fn main() {
    let (n, l, k, t) = (150u8, 1.0, 5e5, 300.0);
    let kt = polymers::physics::BOLTZMANN_CONSTANT*t;
    close(m::force(&n, &l, &k, &(0.5*150.0), &t), kt/l*m::nondimensional_force(&(k*l*l/kt), &0.5), 1e-9);
}''','more than 127 links','the chain length is narrowed to a signed byte in one dimensional force, so long chains are evaluated at a negative extension')

seed('s02a','C02',[(SC+'swfjc/thermodynamics/isotensional/mod.rs',
 """    let nondimensional_well_parameter = 1.0 + well_width/link_length;
    (*number_of_links as f64)*((nondimensional_well_parameter.powi(2)""",
 """    let nondimensional_well_parameter = 1.0 + well_width/link_length;
    if nondimensional_force > &150.0
    {
        return (*number_of_links as f64)*(nondimensional_well_parameter.powi(2)*nondimensional_force/(nondimensional_well_parameter*nondimensional_force - 1.0) - 2.0/nondimensional_force)
    }
    (*number_of_links as f64)*((nondimensional_well_parameter.powi(2)""")],
 '''use polymers::physics::single_chain::swfjc::thermodynamics::isotensional as m;
fn main() { close(m::nondimensional_end_to_end_length(&9, &1.0, &0.5, &200.0), 9.0*m::nondimensional_end_to_end_length_per_link(&1.0, &0.5, &200.0), 1e-7); }''',
 'a nondimensional force above 150','a large-force shortcut in the total extension (not in the per-link one) subtracts 2 instead of 3 over the force')

seed('s03a','C03',[(SC+'wlc/thermodynamics/isometric/mod.rs',
 "nondimensional_helmholtz_free_energy(&8, &1.0, &1.0, nondimensional_persistance_length, nondimensional_end_to_end_length_per_link, &300.0) - nondimensional_helmholtz_free_energy(&8, &1.0, &1.0, nondimensional_persistance_length, &ZERO, &300.0)",
 "nondimensional_helmholtz_free_energy(&8, &1.0, &1.0, nondimensional_persistance_length, &nondimensional_end_to_end_length_per_link.min(0.9999), &300.0) - nondimensional_helmholtz_free_energy(&8, &1.0, &1.0, nondimensional_persistance_length, &ZERO, &300.0)")],
 '''use polymers::physics::single_chain::wlc::thermodynamics::isometric as m;
fn main() {
    let r = |g: f64| m::nondimensional_relative_helmholtz_free_energy(&0.3, &g);
    let a = |g: f64| m::nondimensional_helmholtz_free_energy(&8, &1.0, &1.0, &0.3, &g, &300.0);
    close(r(0.99995) - r(0.5), a(0.99995) - a(0.5), 1e-6);
}''','an end-to-end length above 99.99% of the contour length','the relative energy is clamped near full extension while the absolute one keeps diverging')

seed('s04a','C04',[(SC+'fjc/thermodynamics/isotensional/mod.rs',
 """pub fn nondimensional_end_to_end_length_per_link(nondimensional_force: &f64) -> f64
{
""","""pub fn nondimensional_end_to_end_length_per_link(nondimensional_force: &f64) -> f64
{
    if nondimensional_force < &0.01
    {
        return nondimensional_force/3.0 - nondimensional_force.powi(3)/15.0
    }
""")],
 '''use polymers::physics::single_chain::fjc::thermodynamics::isotensional as m;
fn main() {
    let g = |e: f64| m::nondimensional_relative_gibbs_free_energy_per_link(&e);
    let (e, h) = (0.009, 1e-3);
    close(m::nondimensional_end_to_end_length_per_link(&e), -(8.0*g(e + h) - 8.0*g(e - h) - g(e + 2.0*h) + g(e - 2.0*h))/(12.0*h), 3e-6);
}''','a nondimensional force below 0.01','the small-force series of the Langevin function has the wrong cubic coefficient')

seed('s05a','C05',[(SC+'ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre/mod.rs',
 """pub fn nondimensional_helmholtz_free_energy_per_link(link_length: &f64, hinge_mass: &f64, nondimensional_link_stiffness: &f64, nondimensional_force: &f64, temperature: &f64) -> f64
{
    -(nondimensional_force.sinh()""","""pub fn nondimensional_helmholtz_free_energy_per_link(link_length: &f64, hinge_mass: &f64, nondimensional_link_stiffness: &f64, nondimensional_force: &f64, temperature: &f64) -> f64
{
    let nondimensional_link_stiffness = &nondimensional_link_stiffness.max(2.7195*nondimensional_force);
    -(nondimensional_force.sinh()""")],
 '''use polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic as m;
fn main() {
    let (l, h, k, e, t) = (1.0, 1.0, 50.0, 18.388, 300.0);
    close(m::legendre::nondimensional_helmholtz_free_energy_per_link(&l, &h, &k, &e, &t),
          m::nondimensional_gibbs_free_energy_per_link(&l, &h, &k, &e, &t) + e*m::nondimensional_end_to_end_length_per_link(&k, &e), 1e-9);
}''','a force within half a percent of the maximum','a guard meant for forces beyond the maximum stiffens the link already slightly below it')

seed('s06a','C06',[(SC+'efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs',
 """pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_end_to_end_length_per_link: &f64) -> f64
{
""","""pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_end_to_end_length_per_link: &f64) -> f64
{
    if nondimensional_end_to_end_length_per_link > &3.7
    {
        return nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
    }
""")],
 '''use polymers::physics::single_chain::efjc::thermodynamics as m;
fn main() {
    let k = 50.0;
    let e = m::isometric::asymptotic::reduced::legendre::nondimensional_force(&k, &3.8);
    close(m::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&k, &e), 3.8, 1e-5);
}''','a chain stretched to more than 3.7 times its contour length','the entropic part is dropped for long extensions')

seed('s06b','C06',[(SC+'swfjc/thermodynamics/isometric/legendre/mod.rs',
 "&guess, &1e-6, &100)","&guess, &1e-6, &(100/(1 + (nondimensional_end_to_end_length_per_link/nondimensional_well_parameter/0.965) as u8*98)))")],
 '''use polymers::physics::single_chain::swfjc::thermodynamics as m;
fn main() {
    let e = m::isometric::legendre::nondimensional_force(&1.0, &0.5, &(0.97*1.5));
    close(m::isotensional::nondimensional_end_to_end_length_per_link(&1.0, &0.5, &e), 0.97*1.5, 1e-5);
}''','an extension within 3.5% of the maximum','the root finder is allowed a single iteration close to full extension')

seed('s07a','C07',[(SC+'ideal/thermodynamics/isometric/mod.rs',
 """    4.0*PI*nondimensional_end_to_end_length_per_link.powi(2)*(1.5/PI*(*number_of_links as f64)).powf(1.5)""",
 """    4.0*PI*nondimensional_end_to_end_length_per_link.powi(2)*((*number_of_links as u16).pow(3) as f64*(1.5/PI).powi(3)).sqrt()""")],
 '''use polymers::physics::single_chain::ideal::thermodynamics::isometric as m;
fn main() {
    let (n, g) = (60u8, 0.1f64);
    close(m::nondimensional_equilibrium_radial_distribution(&n, &g), 4.0*std::f64::consts::PI*g*g*m::nondimensional_equilibrium_distribution(&n, &g), 1e-9);
}''','more than 40 links','the cube of the number of links no longer fits in sixteen bits')

seed('s08a','C08',[(SC+'ufjc/morse/thermodynamics/isotensional/mod.rs',
 "nondimensional_gibbs_free_energy_per_link(&1.0, &1.0, nondimensional_link_stiffness, nondimensional_link_energy, nondimensional_force, &300.0) - nondimensional_gibbs_free_energy_per_link(&1.0, &1.0, nondimensional_link_stiffness, nondimensional_link_energy, &ZERO, &300.0)",
 "nondimensional_gibbs_free_energy_per_link(&1.0, &1.0, nondimensional_link_stiffness, nondimensional_link_energy, nondimensional_force, &300.0) - nondimensional_gibbs_free_energy_per_link(&1.0, &1.0, nondimensional_link_stiffness, &nondimensional_link_energy.max(0.9), &ZERO, &300.0)")],
 '''use polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional as m;
fn main() {
    let a = m::nondimensional_relative_gibbs_free_energy_per_link(&500.0, &0.5, &1e-6);
    println!("{}", a); if a.abs() > 1e-6 { exit(1) }
}''','links weaker than 0.9 kT','the reference state of the relative energy is taken with another link energy')

seed('s09a','C09',[(SC+'fjc/thermodynamics/modified_canonical/mod.rs',
 "temperature) - 0.5*(*number_of_links as f64).powi(2)*nondimensional_potential_stiffness","temperature) - 0.5*((*number_of_links as i16).wrapping_pow(2) as f64)*nondimensional_potential_stiffness")],
 '''use polymers::physics::single_chain::fjc::thermodynamics::modified_canonical as m;
fn main() {
    let (n, d, w, t) = (200u8, 0.1, 1e-3, 300.0);
    let a = m::nondimensional_helmholtz_free_energy(&n, &1.0, &1.0, &d, &w, &t) - m::nondimensional_gibbs_free_energy(&n, &1.0, &1.0, &d, &w, &t);
    close(a, 0.5*200.0*200.0*w*d*d, 1e-6);
}''','more than 181 links','the square of the number of links wraps around in sixteen bits')

seed('s10a','C10',[(SC+'ufjc/morse/thermodynamics/isometric/asymptotic/legendre/mod.rs',
 "hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT","hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature.max(100.0)/PLANCK_CONSTANT")],
 '''use polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre as m;
fn main() {
    let f = |t: f64| m::nondimensional_helmholtz_free_energy_per_link(&8, &1.0, &1.0, &5e4, &100.0, &0.5, &t);
    close(f(20.0) - f(300.0), 0.875*(300.0f64/20.0).ln(), 1e-6);
}''','a temperature below 100 K','the momenta are counted at no less than 100 K')

seed('s11a','C11',[(SC+'ufjc/lennard_jones/thermodynamics/mod.rs',
 "self::isometric::LENNARDJONESFJC::init(number_of_links, link_length","self::isometric::LENNARDJONESFJC::init(number_of_links.max(2), link_length")],
 '''use polymers::physics::single_chain::ufjc::lennard_jones as m;
fn main() {
    let o = m::LENNARDJONESFJC::init(1, 1.0, 1.0, 5e5);
    close(o.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&0.5, &300.0),
          m::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&1, &(5e5/polymers::physics::BOLTZMANN_CONSTANT/300.0), &0.5), 1e-9);
}''','an object for a single link','the isometric part of the object is made for two links')

seed('s12a','C12',[(SC+'ufjc/morse/thermodynamics/isotensional/ex.rs',
 "super::nondimensional_end_to_end_length_per_link(&nondimensional_link_stiffness, &nondimensional_link_energy, &nondimensional_force)",
 "super::nondimensional_end_to_end_length_per_link(&nondimensional_link_energy, &nondimensional_link_stiffness, &nondimensional_force)")],
 '''use polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional as m;
extern "C" { fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(k: f64, u: f64, e: f64) -> f64; }
fn main() {
    close(unsafe { physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(500.0, 30.0, 2.0) }, m::nondimensional_end_to_end_length_per_link(&500.0, &30.0, &2.0), 1e-9);
}''','a call through the C interface','stiffness and energy are handed over in the wrong order',flags='--cfg \'feature="extern"\'')


seed('s13a','C13',[(SC+'wlc/thermodynamics/isometric/mod.rs',"nondimensional_persistance_length < &0.125","nondimensional_persistance_length < &0.152",'all')],
 """use polymers::physics::single_chain::wlc::thermodynamics::isometric as m;
fn main() {
    let k: f64 = 0.14;
    let lp = |g: f64| {
        let (g2, a, b): (f64, f64, f64) = (g*g, 14.054, 0.473);
        let c = [[-0.75, 0.359375, -0.109375], [-0.5, 1.0625, -0.5625]];
        let c0 = 1.0 - (1.0 + (0.38/k.powf(0.95)).powi(-5)).powf(-0.2);
        let d = 1.0 - 1.0/(0.177/(k - 0.111) + 6.40*(k - 0.111).powf(0.783));
        let mut s = 0.0;
        for i in 0..2 { for j in 1..4 { s += c[i][j - 1]*k.powi(i as i32 - 1)*g2.powi(j as i32) } }
        let q = -d*k*a*(1.0 + b)*g/(1.0 - b*b*g2);
        2.5*((1.0 - c0*g2)/(1.0 - g2)).ln() + s/(1.0 - g2) + q*b*g + polymers::math::bessel_i(&0, &q).ln()
    };
    let p = |g: f64| m::nondimensional_equilibrium_distribution(&k, &1.0, &g).ln();
    close(p(0.8) - p(0.2), lp(0.8) - lp(0.2), 1e-6);
}""",'a persistence length between 0.125 and 0.152 of the contour length','the threshold of the short-chain correction is mistyped in the force, the energy and the distribution alike, so they stay consistent')

seed('s14a','C14',[('src/math/mod.rs',"    let mut w = 0.75*(x + 1.0).ln();\n    for _ in","    let mut w = 0.75*(x + 1.0).ln();\n    if x > &1e5\n    {\n        let (l1, l2) = (x.ln(), x.ln().ln());\n        return l1 - l2 + l2/l1 + l2*(l2 - 2.0)/(2.0*l1*l1)\n    }\n    for _ in")],
 """fn main() {
    let w = polymers::math::lambert_w(&3e5);
    close(w*w.exp(), 3e5, 1e-8);
}""",'an argument above 100000','the iteration is replaced by its asymptotic expansion for large arguments')

seed('s15a','C15',[('src/math/mod.rs',"        x += y_minus_f/fp(&x);\n        iters += 1;\n        residual_rel = (y_minus_f/y).abs();","        x += y_minus_f/fp(&x);\n        iters += 1;\n        residual_rel = if iters > 12 { 0.0 } else { (y_minus_f/y).abs() };")],
 """fn main() {
    let x = polymers::math::inverse_newton_raphson(&1e-6, &|x: &f64| x.powi(2), &|x: &f64| 2.0*x, &1e3, &1e-9, &100);
    close(x, 1e-3, 1e-4);
}""",'a root that needs more than twelve iterations','the iteration limit handed in is ignored beyond twelve iterations')

seed('s15b','C15',[('src/math/mod.rs',"    grid_x.iter().flat_map(|x| grid_y.iter().map(|y| f(x, y))).sum::<f64>()*dx*dy\n","    grid_x.iter().flat_map(|x| grid_y.iter().map(|y| f(x, y))).sum::<f64>()*dx*dx.min(dy)\n")],
 """fn main() {
    close(polymers::math::integrate_2d(&|x: &f64, y: &f64| x + y, &0.0, &1.0, &0.0, &3.0, 8), 6.0, 1e-9);
}""",'a domain longer in y than in x','the area element of the rectangular rule uses the smaller step twice')

seed('s16a','C16',[(SC+'efrc/thermodynamics/isometric/monte_carlo/mod.rs',"        r_n.iter_mut().for_each(|r_n_i| *r_n_i /= r_normalization);\n","        if (r_normalization - 1.0).abs() > 0.05\n        {\n            r_n.iter_mut().for_each(|r_n_i| *r_n_i /= r_normalization);\n        }\n")],
 """use rand_distr::Normal;
use polymers::physics::single_chain::efrc::thermodynamics::isometric::monte_carlo as m;
fn main() {
    script(vec![0.3, 0.2, 0.35, 0.25, 0.4]);
    let c = m::random_configuration::<2>(&0.5, Normal::new(1.0, 0.1).unwrap(), &mut rand::thread_rng());
    let (a, b) = (c[0], [c[1][0] - c[0][0], c[1][1] - c[0][1], c[1][2] - c[0][2]]);
    let dot = |x: [f64; 3], y: [f64; 3]| x[0]*y[0] + x[1]*y[1] + x[2]*y[2];
    close((dot(a, b)/(dot(a, a)*dot(b, b)).sqrt()).acos(), 0.5, 1e-9);
}""",'a previous link whose length is within 5% of its rest length','the previous link is only normalised when its length is far from one: the angle and the length of the next link are off')

seed('s16b','C16',[(SC+'fjc/thermodynamics/isometric/monte_carlo/mod.rs',"let mut bin_counts = [0_u128; NUMBER_OF_BINS];","let mut bin_counts = [0_u16; NUMBER_OF_BINS];"),
  (SC+'fjc/thermodynamics/isometric/monte_carlo/mod.rs',"                *bin_count += 1;","                *bin_count = bin_count.wrapping_add(1);")],
 """use polymers::physics::single_chain::fjc::thermodynamics::isometric::monte_carlo as m;
fn main() {
    script(vec![0.3, 0.2, 0.7, 0.9]);
    let (_, p) = m::nondimensional_equilibrium_radial_distribution::<2, 3>(70000);
    close(p.iter().sum::<f64>()/2.0, 1.0, 1e-9);
}""",'more than 65535 samples in one bin','the counters of the histogram wrap around')

seed('s17a','C17',[('src/constitutive/hyperelastic/buche_silberstein/mod.rs',"                    -element_ij / (factor * ((*z_i * stretch.powi(2)).powi(2) + (*r_j / stretch).powi(2))).exp()","                    -element_ij / (factor * ((*z_i * stretch.powi(2)).powi(2) + (*r_j / stretch).powi(2)).min(6.0)).exp()")],
 """use polymers::constitutive::hyperelastic::BucheSilberstein;
fn main() {
    let m = Box::new(BucheSilberstein::init(3, 500.0, 1));
    close(m.equibiaxial_tension(&2.5), -m.uniaxial_tension(&(1.0/6.25)), 1e-9);
}""",'large equibiaxial stretches with method 3','the deformed length is capped before the Boltzmann factor')

seed('s18a','C18',[('src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs',"""            if maximum_previous_stretch < stretch[i] {
                stretch[i]
            } else {
                maximum_previous_stretch
            };""","""            if maximum_previous_stretch < stretch[i] {
                stretch[i]
            } else if i > 1 {
                stretch[i - 2].max(stretch[i - 1]).max(stretch[i])
            } else {
                maximum_previous_stretch
            };""")],
 """use polymers::constitutive::hyperelastic_damage::BucheSilberstein;
fn main() {
    let m = Box::new(BucheSilberstein::init(3, 1.2, 500.0, 8, 1.0));
    let p = m.uniaxial_tension::<4>(&[2.0, 1.0, 1.0, 1.0]);
    close(p[3][1], p[1][1], 1e-9);
}""",'four steps: load, then unload for three steps','the largest stretch is only remembered for two steps after a step without new damage')

seed('s19a','C19',[(SC+'swfjc/thermodynamics/isometric/legendre/py.rs',
 "super::nondimensional_equilibrium_radial_distribution(&number_of_links, &link_length, &well_width, &1.0, nondimensional_end_to_end_length_per_link), &ZERO, &(ONE*nondimensional_well_parameter), &POINTS)",
 "super::nondimensional_equilibrium_radial_distribution(&number_of_links, &link_length, &well_width, &1.0, nondimensional_end_to_end_length_per_link), &ZERO, &(ONE*nondimensional_well_parameter.min(2.0)), &POINTS)")],
 """use polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre as m;
use numpy::PyReadonlyArrayDyn as A;
fn main() {
    let r = m::SWFJC::init(2, 1.0, 1.0, 2.0).nondimensional_equilibrium_distribution(&0.5);
    let o = m::py::SWFJC::init(2, 1.0, 1.0, 2.0);
    let v = vec![0.5];
    let p = o.nondimensional_equilibrium_distribution(unsafe { std::mem::zeroed() }, A::of(v));
    close(p.0[0], r, 1e-9);
}""",'a well wider than the link','the Python object normalises its distribution over too short a range for wide wells',python=True)

seed('s20a','C20',[(SC+'efjc/thermodynamics/isotensional/asymptotic/alternative/ex.rs',
 "nondimensional_gibbs_free_energy_per_link(link_length: f64, hinge_mass: f64, nondimensional_link_stiffness","nondimensional_gibbs_free_energy_per_link(hinge_mass: f64, link_length: f64, nondimensional_link_stiffness")],
 """use polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative as m;
extern "C" { fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_gibbs_free_energy_per_link(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64; }
// the Julia function hands over link_length, hinge_mass, nondimensional_link_stiffness, nondimensional_force, temperature in this order
fn main() {
    close(unsafe { physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_gibbs_free_energy_per_link(1.3, 0.4, 500.0, 2.0, 300.0) }, m::nondimensional_gibbs_free_energy_per_link(&1.3, &0.4, &500.0, &2.0, &300.0), 1e-9);
}""",'a call from Julia with unequal mass and length','the C function takes its arguments in another order than its Julia caller hands them over',flags="--cfg 'feature=\"extern\"'")

seed('s21a','C21',[(SC+'wlc/thermodynamics/isometric/mod.rs',
 "- ((*number_of_links as f64) - 1.0)*(4.0*(-1.0/nondimensional_persistance_length).exp().acos().sin()*PI",
 "- ((*number_of_links as f64) - 1.0)*(4.0*(if number_of_links > &30 && nondimensional_persistance_length > &0.4 {1.0 - 1.0/nondimensional_persistance_length + 0.5/nondimensional_persistance_length.powi(2)} else {(-1.0/nondimensional_persistance_length).exp()}).acos().sin()*PI")],
 """use polymers::physics::single_chain::wlc::thermodynamics::isometric as m;
fn main() {
    for p in [0.41, 0.45, 0.49] { if !m::nondimensional_helmholtz_free_energy(&40, &1.0, &1.0, &p, &0.5, &300.0).is_finite() { println!("not a number"); exit(1); } }
}""",'more than 30 links and a persistence length between 0.4 and 0.5 of the contour length','the bending angle is taken from a series that exceeds one: the arc cosine is undefined')

seed('s21b','C21',[(SC+'fjc/thermodynamics/mod.rs',
 "*number_of_links_f64.powi(2)*(1..=n-2).map(|i| number_of_links_f64/(i as f64)).product::<f64>()",
 "*number_of_links_f64.powi(2)*(1..number_of_links + 1 - 2).map(|i| number_of_links_f64/(i as f64)).product::<f64>()")],
 """use polymers::physics::single_chain::fjc::thermodynamics::isometric as m;
fn main() {
    let r = std::panic::catch_unwind(|| m::nondimensional_equilibrium_distribution(&255, &0.97));
    if r.is_err() { println!("panic"); exit(1); }
}""",'255 links, in a build that checks integer arithmetic','the number of links plus one does not fit in its eight bits: the density panics')

seed('s21c','C21',[(SC+'ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/mod.rs',
 "1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + (2.0*nondimensional_link_energy/nondimensional_link_stiffness).sqrt()*(2.0/(1.0 + (1.0 - nondimensional_force/(nondimensional_link_energy*nondimensional_link_stiffness/8.0).sqrt()).sqrt())).ln()",
 "1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + (2.0*nondimensional_link_energy/nondimensional_link_stiffness).sqrt()*(2.0/(1.0 + (1.0 - nondimensional_force/(nondimensional_link_energy*nondimensional_link_stiffness/8.0).sqrt().min(1e4)).sqrt())).ln()")],
 """use polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced as m;
fn main() {
    let x = m::nondimensional_end_to_end_length_per_link(&1e6, &1e4, &1.2e4);
    if !x.is_finite() { println!("not a number"); exit(1); }
}""",'a link so strong that it carries more than 10000 kT per link length, near that force','the largest force of the link is capped: the square root of a negative number is taken')

seed('s22a','C22',[(SC+'fjc/thermodynamics/isotensional/mod.rs',
 "    1.0/nondimensional_force.tanh() - 1.0/nondimensional_force\n",
 "    if nondimensional_force > &500.0 { 1.0 - 1.2/nondimensional_force } else { 1.0/nondimensional_force.tanh() - 1.0/nondimensional_force }\n")],
 """use polymers::physics::single_chain::fjc::thermodynamics::isotensional as m;
fn main() {
    let (a, b) = (m::nondimensional_end_to_end_length_per_link(&499.0), m::nondimensional_end_to_end_length_per_link(&501.0));
    println!("{} {}", a, b);
    if !(b > a) { exit(1); }
}""",'forces just below and just above 500','a large-force shortcut does not meet the formula it replaces: the chain shortens as the force passes the threshold')

seed('s22b','C22',[(SC+'fjc/thermodynamics/mod.rs',
 "    let k = (number_of_links_f64*m).ceil() as u128;\n    0.125/PI","    let k = ((number_of_links_f64*m).ceil() as u128).max(1 + (n < 3) as u128);\n    0.125/PI")],
 """use polymers::physics::single_chain::fjc::thermodynamics::isometric as m;
fn main() {
    for i in 1..100 { let g = 0.01*(i as f64); let p = m::nondimensional_equilibrium_distribution(&2, &g); if !(p > 0.0) { println!("{} {}", g, p); exit(1); } }
}""",'two links','one term too many of the sum is taken for the shortest chain: the density is negative')
