#!/usr/bin/env python3
"""Behaviour-preserving edits on which the checks have to stay quiet. usage: refactor.py [name ...]
Each runs the named checks against an edited copy of /repo (VT_REPO); rc 0 and no undecided obligations is what we want."""
import sys,os,shutil,subprocess,tempfile
SC='src/physics/single_chain/'
R={}
def ref(name,checks,*edits): R[name]=(checks,edits)
ref('treloar_loops','C04 C07 C13 C21 C22',(SC+'fjc/thermodynamics/mod.rs',
"""    orders.iter().map(|order| (0..k).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(1..=*s).map(|i| ((n - s + i) as f64)/(i as f64)).product::<f64>()*(m - (*s as f64)/number_of_links_f64).powi(p - order)).sum()).collect()""",
"""    let mut sums = Vec::with_capacity(orders.len());
    for order in orders
    {
        let mut sum = 0.0;
        for s in 0..k
        {
            let sign = if s % 2 == 0 { 1.0 } else { -1.0 };
            let mut binomial = 1.0;
            for i in 1..=s
            {
                binomial *= ((n - s + i) as f64)/(i as f64);
            }
            sum += sign*binomial*(m - (s as f64)/number_of_links_f64).powi(p - order);
        }
        sums.push(sum);
    }
    sums"""))
ref('treloar_helper','C04 C07 C13 C21',(SC+'fjc/thermodynamics/mod.rs',
"""(-1.0_f64).powf(*s as f64)*(1..=*s).map(|i| ((n - s + i) as f64)/(i as f64)).product::<f64>()*(m - (*s as f64)/number_of_links_f64).powi(p - order)).sum()).collect()""",
"""signed_binomial(n, *s)*(m - (*s as f64)/number_of_links_f64).powi(p - order)).sum()).collect()"""),
 (SC+'fjc/thermodynamics/mod.rs',"""fn treloar_sums(""","""fn signed_binomial(n: u128, s: u128) -> f64
{
    (-1.0_f64).powf(s as f64)*(1..=s).map(|i| ((n - s + i) as f64)/(i as f64)).product::<f64>()
}

fn treloar_sums("""))
ref('integrate_loop','C07 C11 C15 C13 C21',('src/math/mod.rs',
"""    (0..*num_points).collect::<Vec::<u128>>().iter().map(|index| f(&(x_min + (0.5 + *index as f64)*dx))).sum::<f64>()*dx""",
"""    let mut total = 0.0;
    for index in 0..*num_points
    {
        total += f(&(x_min + (0.5 + index as f64)*dx));
    }
    total*dx"""))
ref('integrate_factor','C07 C15 C13',('src/math/mod.rs',
"""    (0..*num_points).collect::<Vec::<u128>>().iter().map(|index| f(&(x_min + (0.5 + *index as f64)*dx))).sum::<f64>()*dx""",
"""    (0..*num_points).map(|index| (index as f64 + 0.5)*dx + x_min).map(|x| f(&x)*dx).sum::<f64>()"""))
ref('newton_loop','C06 C15 C14',('src/math/mod.rs',
"""    let mut x = *guess;
    let mut y_minus_f: f64;
    let mut iters = 0;
    let mut residual_rel = 1.0;
    while residual_rel > rel_tol && &iters < max_iters
    {
        y_minus_f = y - f(&x);
        x += y_minus_f/fp(&x);
        iters += 1;
        residual_rel = (y_minus_f/y).abs();
    }
    x""","""    let mut x = *guess;
    for _ in 0..*max_iters
    {
        let residual = f(&x) - y;
        x -= residual/fp(&x);
        if (residual/y).abs() <= rel_tol
        {
            break
        }
    }
    x"""))
ref('mc_loops','C16',(SC+'fjc/thermodynamics/isometric/monte_carlo/mod.rs',
"""        for (bin_edge, bin_count) in bin_edges.iter().zip(bin_counts.iter_mut())
        {
            if &gamma < bin_edge
            {
                *bin_count += 1;
                break
            }
        }""","""        if let Some(bin) = bin_edges.iter().position(|bin_edge| &gamma < bin_edge)
        {
            bin_counts[bin] += 1;
        }"""))
ref('mc_norm','C16',(SC+'efrc/thermodynamics/isometric/monte_carlo/mod.rs',
"""        r_normalization = r_n.iter().map(|r_n_i| r_n_i * r_n_i).sum::<f64>().sqrt();
        r_n.iter_mut().for_each(|r_n_i| *r_n_i /= r_normalization);""","""        r_normalization = r_n.iter().fold(0.0_f64, |sum, r_n_i: &f64| sum + r_n_i * r_n_i).sqrt();
        for r_n_i in r_n.iter_mut()
        {
            *r_n_i /= r_normalization;
        }"""))
ref('damage_helper','C18 C19',('src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs',
"""            maximum_previous_stretch =
            if maximum_previous_stretch < stretch[i] {
                stretch[i]
            } else {
                maximum_previous_stretch
            };""","""            maximum_previous_stretch = stretch[i].max(maximum_previous_stretch);"""))
ref('damage_if','C18',('src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs',
"""                    element_ij / (factor * ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)) / j_1_3.powi(2)).exp() * ((
                        ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                        <= *nondimensional_critical_extension
                        && ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
                        <= *nondimensional_critical_extension
                    ) as u8 as f64)""","""                    if ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt() > *nondimensional_critical_extension
                        || ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() > *nondimensional_critical_extension {
                        0.0
                    } else {
                        element_ij * (-factor * ((*z_i / stretch).powi(2) + stretch * r_j.powi(2)) / j_1_3.powi(2)).exp()
                    }"""))
ref('hyper_loop','C17 C19',('src/constitutive/hyperelastic/buche_silberstein/mod.rs',
"""            element.iter().zip(grid.iter()).flat_map(|(element_i, z_i)|
                element_i.iter().zip(grid.iter()).map(|(element_ij, r_j)|
                    element_ij / (factor * ((*z_i / stretch).powi(2) + stretch * r_j.powi(2))).exp()
                )
            ).sum::<f64>() / normalization""","""            let mut stress = 0.0;
            for (i, z_i) in grid.iter().enumerate() {
                for (j, r_j) in grid.iter().enumerate() {
                    let gamma_squared = (*z_i / stretch).powi(2) + stretch * r_j * r_j;
                    stress += element[i][j] * (-factor * gamma_squared).exp();
                }
            }
            stress / normalization"""))
ref('numgrid','C17 C18 C19',('src/constitutive/hyperelastic/buche_silberstein/mod.rs','NUMGRID','GRID_SIZE'),('src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs','NUMGRID','GRID_POINTS'),
 ('src/constitutive/hyperelastic/buche_silberstein/ex.rs?','NUMGRID','GRID_SIZE'),('src/constitutive/hyperelastic/buche_silberstein/py.rs?','NUMGRID','GRID_SIZE'),
 ('src/constitutive/hyperelastic_damage/buche_silberstein/ex.rs?','NUMGRID','GRID_POINTS'),('src/constitutive/hyperelastic_damage/buche_silberstein/py.rs?','NUMGRID','GRID_POINTS'))
ref('efjc_let','C01 C02 C03 C04 C13 C21',(SC+'efjc/thermodynamics/isotensional/mod.rs',
"""    let denominator = 4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness);""",
"""    let (sinh, cosh) = (nondimensional_force.sinh(), nondimensional_force.cosh());
    let denominator = 4.0*(sinh + nondimensional_force*cosh*nondimensional_link_stiffness.recip());"""))
ref('langevin','C04 C06 C13 C21 C22',(SC+'fjc/thermodynamics/isotensional/mod.rs',"1.0/nondimensional_force.tanh() - 1.0/nondimensional_force","(nondimensional_force*nondimensional_force.cosh() - nondimensional_force.sinh())/(nondimensional_force*nondimensional_force.sinh())"))
ref('dim_direct','C01 C02 C21',(SC+'fjc/thermodynamics/isotensional/mod.rs',"(*number_of_links as f64)","f64::from(*number_of_links)"))
ref('gaussian_ln','C13 C03 C07 C21 C22',(SC+'ideal/thermodynamics/isometric/mod.rs',"(1.5/PI*(*number_of_links as f64)).powf(1.5)*(-1.5*","(1.5*(1.5*(*number_of_links as f64)/PI).ln()).exp()*(-1.5*"))
ref('morse_exp','C04 C13 C21',(SC+'ufjc/morse/thermodynamics/isotensional/mod.rs',"exponent_1.exp() - exponent_2.exp()","exponent_2.exp()*(exponent_1 - exponent_2).exp_m1()"))
ref('erfcx_match','C14',('src/math/mod.rs',"pub fn erf(x: &f64) -> f64\n{","pub fn erf(x: &f64) -> f64\n{\n    let x = &(x + 0.0);"))
ref('wlc_sum','C04 C07 C13 C21 C22',(SC+'wlc/thermodynamics/isometric/mod.rs',
"let sum = (0..2).collect::<Vec<usize>>().iter().map(|i| (1..4).collect::<Vec<usize>>().iter().map(|j| c[*i][j - 1]*(nondimensional_persistance_length.powi(*i as i32 - 1)*g2.powi((*j).try_into().unwrap()))).sum::<f64>()).sum::<f64>();",
"""let mut sum = 0.0;
    for (i, c_i) in c.iter().enumerate()
    {
        for (j, c_ij) in c_i.iter().enumerate()
        {
            sum += c_ij*nondimensional_persistance_length.powi(i as i32 - 1)*g2.powi(j as i32 + 1);
        }
    }"""))
ref('wlc_shift','C21 C13 C07 C22',(SC+'wlc/thermodynamics/isometric/mod.rs',"1.0 - 1.0/(0.177/(nondimensional_persistance_length - 0.111) + 6.40*(nondimensional_persistance_length - 0.111).powf(0.783))","{ let shifted = nondimensional_persistance_length - 0.111; 1.0 - shifted/(0.177 + 6.40*shifted*shifted.powf(0.783)) }"))
ref('morse_ratio','C21 C04 C13 C22',(SC+'ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/mod.rs',"(2.0/(1.0 + (1.0 - nondimensional_force/nondimensional_force_max).sqrt())).ln()","(LN_2 - (1.0 + (1.0 - nondimensional_force/nondimensional_force_max).sqrt()).ln())"),(SC+'ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/mod.rs',"use std::f64::consts::PI;","use std::f64::consts::{PI, LN_2};"))
ref('logsq_w','C21 C04 C13 C22',(SC+'ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/mod.rs',"    let lambda = 1.0/lambert_w(&(-nondimensional_force/nondimensional_link_stiffness)).exp();","    let lambda = (-lambert_w(&(-nondimensional_force/nondimensional_link_stiffness))).exp();"))
ref('fjc_lnsinh','C21 C04 C13 C05',(SC+'fjc/thermodynamics/isotensional/mod.rs',"(nondimensional_force.sinh()/nondimensional_force).ln()","(nondimensional_force.sinh().ln() - nondimensional_force.ln())"))
ref('efjc_cosh','C21 C04 C13 C22',(SC+'efjc/thermodynamics/isotensional/asymptotic/mod.rs',"1.0/nondimensional_force.tanh()","nondimensional_force.cosh()/nondimensional_force.sinh()"))
ref('newton_helper','C21 C06 C15 C22',(SC+'fjc/thermodynamics/isometric/legendre/mod.rs',"inverse_langevin(nondimensional_end_to_end_length_per_link)","{ let extension = *nondimensional_end_to_end_length_per_link; inverse_langevin(&extension) }"))
ref('morse_ext','C22 C21 C04',(SC+'ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/mod.rs',"(2.0/(1.0 + (1.0 - nondimensional_force/(nondimensional_link_energy*nondimensional_link_stiffness/8.0).sqrt()).sqrt())).ln()","{ let root = (1.0 - nondimensional_force/(nondimensional_link_energy*nondimensional_link_stiffness/8.0).sqrt()).sqrt(); -(0.5*(1.0 + root)).ln() }"))
ref('logsq_ext','C22 C21 C04',(SC+'ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/mod.rs',"1.0/lambert_w(&(-nondimensional_force/nondimensional_link_stiffness)).exp() - 1.0","{ let w = lambert_w(&(-nondimensional_force/nondimensional_link_stiffness)); (-w).exp() - 1.0 }"))
ref('langevin_fn','C22 C21 C04 C06',(SC+'fjc/thermodynamics/isotensional/mod.rs',"    1.0/nondimensional_force.tanh() - 1.0/nondimensional_force\n","    (nondimensional_force/nondimensional_force.tanh() - 1.0)/nondimensional_force\n"))
ref('julia_let','C20',(SC+'fjc/thermodynamics/isotensional/mod.jl',"    return broadcast(","    broadcast("))
ref('lambert_loop','C14',('src/math/mod.rs',"        w -= (w*w.exp() - x)/(w.exp()*(w + 1.0) - (w + 2.0)*(w*w.exp() - x)/(2.0 * w + 2.0));","""        let exp_w = w.exp();
        let residual = w*exp_w - x;
        w -= 2.0*residual*(w + 1.0)/(2.0*exp_w*(w + 1.0).powi(2) - (w + 2.0)*residual);"""))
ref('bessel_horner','C14',('src/math/mod.rs',"    if nu == &0\n    {\n        bessel_i0(x)\n    }\n    else if nu == &1\n    {\n        bessel_i1(x)\n    }\n    else\n    {\n        -1.0\n    }","    match nu\n    {\n        0 => bessel_i0(x),\n        1 => bessel_i1(x),\n        _ => -1.0\n    }"))
ref('py_loop','C19',(SC+'fjc/thermodynamics/isotensional/py.rs?',"force.as_array().mapv(|force: f64| super::gibbs_free_energy(","force.as_array().map(|&force| super::gibbs_free_energy("))
def main():
    names=sys.argv[1:] or list(R)
    for nm in names:
        checks,edits=R[nm]; d=tempfile.mkdtemp(prefix='ref',dir='/tmp')
        try:
            os.makedirs(d+'/r'); shutil.copytree('/repo/src',d+'/r/src')
            for f in('Cargo.toml','README.md'): shutil.copy('/repo/'+f,d+'/r')
            for f,old,new in edits:
                p=d+'/r/'+f.rstrip('?')
                if f.endswith('?') and not os.path.exists(p): continue
                t=open(p,newline='').read()
                if '\r\n' in t: old,new=old.replace('\n','\r\n'),new.replace('\n','\r\n')
                if old not in t:
                    print(nm,'NOT FOUND in',f) ; continue
                open(p,'w',newline='').write(t.replace(old,new))
            for pid in checks.split():
                r=subprocess.run(['python3-vt','/verif/check.py',pid],env=dict(os.environ,VT_REPO=d+'/r'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True); L=r.stdout.splitlines()
                print('OK ' if r.returncode==0 and not any('undecided: ' in l for l in L) else 'BAD' if r.returncode else 'und',nm,pid,'rc',r.returncode,[l[:150] for l in L if l.startswith(pid)],[l.strip()[:260] for l in L if 'broken' in l or 'undecided: ' in l or 'error' in l][:3],flush=True)
        finally: shutil.rmtree(d)
main()
