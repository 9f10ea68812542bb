use polymers::physics::single_chain as sc;
extern "C" { fn __vt_begin(); fn __vt_putu(v: f64); fn __vt_putn(v: f64); }
unsafe fn script(u: &[f64], n: &[f64]) { __vt_begin(); let mut i = 0; while i < u.len() { __vt_putu(u[i]); i += 1; } i = 0; while i < n.len() { __vt_putn(n[i]); i += 1; } }
fn pick<const N: usize>(c: [[f64; 3]; N], i: u8, k: u8) -> f64 { c[i as usize][k as usize] }
// bin b < 3: probability of bin b, b >= 3: centre of bin b - 3
fn bin(h: ([f64; 3], [f64; 3]), b: u8) -> f64 { if b < 3 { h.1[b as usize] } else { h.0[b as usize - 3] } }
entry!{c_fjc(n: u8, i: u8, k: u8, u0: f64, u1: f64, u2: f64, u3: f64, u4: f64, u5: f64){
    use sc::fjc::thermodynamics::isometric::monte_carlo::*; script(&[u0, u1, u2, u3, u4, u5], &[]); let mut r = rand::thread_rng(); match n { 1 => pick(random_configuration::<1>(&mut r), i, k), 2 => pick(random_configuration::<2>(&mut r), i, k), 3 => pick(random_configuration::<3>(&mut r), i, k), _ => f64::NAN } }}
entry!{e_fjc(n: u8, u0: f64, u1: f64, u2: f64, u3: f64, u4: f64, u5: f64){
    use sc::fjc::thermodynamics::isometric::monte_carlo::*; script(&[u0, u1, u2, u3, u4, u5], &[]); let mut r = rand::thread_rng(); match n { 1 => random_nondimensional_end_to_end_length::<1>(&mut r), 2 => random_nondimensional_end_to_end_length::<2>(&mut r), 3 => random_nondimensional_end_to_end_length::<3>(&mut r), _ => f64::NAN } }}
entry!{h_fjc(n: u8, samples: u8, b: u8, u0: f64, u1: f64, u2: f64, u3: f64, u4: f64, u5: f64, u6: f64, u7: f64, u8: f64, u9: f64, u10: f64, u11: f64){
    use sc::fjc::thermodynamics::isometric::monte_carlo::*; script(&[u0, u1, u2, u3, u4, u5, u6, u7, u8, u9, u10, u11], &[]); match n { 1 => bin(nondimensional_equilibrium_radial_distribution::<3, 1>(samples as usize), b), 2 => bin(nondimensional_equilibrium_radial_distribution::<3, 2>(samples as usize), b), 3 => bin(nondimensional_equilibrium_radial_distribution::<3, 3>(samples as usize), b), _ => f64::NAN } }}
entry!{c_efjc(n: u8, i: u8, k: u8, m: f64, s: f64, n0: f64, n1: f64, n2: f64, u0: f64, u1: f64, u2: f64, u3: f64, u4: f64, u5: f64){
    use sc::efjc::thermodynamics::isometric::monte_carlo::*; script(&[u0, u1, u2, u3, u4, u5], &[n0, n1, n2]); let mut r = rand::thread_rng(); let w = rand_distr::Normal::new(m, s).unwrap(); match n { 1 => pick(random_configuration::<1>(w, &mut r), i, k), 2 => pick(random_configuration::<2>(w, &mut r), i, k), 3 => pick(random_configuration::<3>(w, &mut r), i, k), _ => f64::NAN } }}
entry!{e_efjc(n: u8, m: f64, s: f64, n0: f64, n1: f64, n2: f64, u0: f64, u1: f64, u2: f64, u3: f64, u4: f64, u5: f64){
    use sc::efjc::thermodynamics::isometric::monte_carlo::*; script(&[u0, u1, u2, u3, u4, u5], &[n0, n1, n2]); let mut r = rand::thread_rng(); let w = rand_distr::Normal::new(m, s).unwrap(); match n { 1 => random_nondimensional_end_to_end_length::<1>(w, &mut r), 2 => random_nondimensional_end_to_end_length::<2>(w, &mut r), 3 => random_nondimensional_end_to_end_length::<3>(w, &mut r), _ => f64::NAN } }}
entry!{h_efjc(n: u8, samples: u8, b: u8, gmax: f64, kappa: f64, n0: f64, n1: f64, n2: f64, n3: f64, n4: f64, n5: f64, u0: f64, u1: f64, u2: f64, u3: f64, u4: f64, u5: f64, u6: f64, u7: f64, u8: f64, u9: f64, u10: f64, u11: f64){
    use sc::efjc::thermodynamics::isometric::monte_carlo::*; script(&[u0, u1, u2, u3, u4, u5, u6, u7, u8, u9, u10, u11], &[n0, n1, n2, n3, n4, n5]); match n { 1 => bin(nondimensional_equilibrium_radial_distribution::<3, 1>(&gmax, &kappa, samples as usize), b), 2 => bin(nondimensional_equilibrium_radial_distribution::<3, 2>(&gmax, &kappa, samples as usize), b), 3 => bin(nondimensional_equilibrium_radial_distribution::<3, 3>(&gmax, &kappa, samples as usize), b), _ => f64::NAN } }}
entry!{c_frc(n: u8, i: u8, k: u8, theta: f64, u0: f64, u1: f64, u2: f64, u3: f64, u4: f64, u5: f64, u6: f64, u7: f64, u8: f64, u9: f64, u10: f64, u11: f64, u12: f64, u13: f64, u14: f64, u15: f64){
    use sc::frc::thermodynamics::isometric::monte_carlo::*; script(&[u0, u1, u2, u3, u4, u5, u6, u7, u8, u9, u10, u11, u12, u13, u14, u15], &[]); let mut r = rand::thread_rng(); match n { 1 => pick(random_configuration::<1>(&theta, &mut r), i, k), 2 => pick(random_configuration::<2>(&theta, &mut r), i, k), 3 => pick(random_configuration::<3>(&theta, &mut r), i, k), 4 => pick(random_configuration::<4>(&theta, &mut r), i, k), _ => f64::NAN } }}
entry!{e_frc(n: u8, theta: f64, u0: f64, u1: f64, u2: f64, u3: f64, u4: f64, u5: f64, u6: f64, u7: f64, u8: f64, u9: f64, u10: f64, u11: f64, u12: f64, u13: f64, u14: f64, u15: f64){
    use sc::frc::thermodynamics::isometric::monte_carlo::*; script(&[u0, u1, u2, u3, u4, u5, u6, u7, u8, u9, u10, u11, u12, u13, u14, u15], &[]); let mut r = rand::thread_rng(); match n { 1 => random_nondimensional_end_to_end_length::<1>(&theta, &mut r), 2 => random_nondimensional_end_to_end_length::<2>(&theta, &mut r), 3 => random_nondimensional_end_to_end_length::<3>(&theta, &mut r), 4 => random_nondimensional_end_to_end_length::<4>(&theta, &mut r), _ => f64::NAN } }}
entry!{h_frc(n: u8, samples: u8, b: u8, theta: f64, u0: f64, u1: f64, u2: f64, u3: f64, u4: f64, u5: f64, u6: f64, u7: f64, u8: f64, u9: f64, u10: f64, u11: f64, u12: f64, u13: f64, u14: f64, u15: f64, u16: f64, u17: f64, u18: f64, u19: f64, u20: f64, u21: f64, u22: f64, u23: f64){
    use sc::frc::thermodynamics::isometric::monte_carlo::*; script(&[u0, u1, u2, u3, u4, u5, u6, u7, u8, u9, u10, u11, u12, u13, u14, u15, u16, u17, u18, u19, u20, u21, u22, u23], &[]); match n { 2 => bin(nondimensional_equilibrium_radial_distribution::<3, 2>(&theta, samples as usize), b), 3 => bin(nondimensional_equilibrium_radial_distribution::<3, 3>(&theta, samples as usize), b), 4 => bin(nondimensional_equilibrium_radial_distribution::<3, 4>(&theta, samples as usize), b), 5 => bin(nondimensional_equilibrium_radial_distribution::<3, 5>(&theta, samples as usize), b), _ => f64::NAN } }}
entry!{c_efrc(n: u8, i: u8, k: u8, theta: f64, m: f64, s: f64, n0: f64, n1: f64, n2: f64, u0: f64, u1: f64, u2: f64, u3: f64, u4: f64, u5: f64, u6: f64, u7: f64, u8: f64, u9: f64, u10: f64, u11: f64){
    use sc::efrc::thermodynamics::isometric::monte_carlo::*; script(&[u0, u1, u2, u3, u4, u5, u6, u7, u8, u9, u10, u11], &[n0, n1, n2]); let mut r = rand::thread_rng(); let w = rand_distr::Normal::new(m, s).unwrap(); match n { 1 => pick(random_configuration::<1>(&theta, w, &mut r), i, k), 2 => pick(random_configuration::<2>(&theta, w, &mut r), i, k), 3 => pick(random_configuration::<3>(&theta, w, &mut r), i, k), _ => f64::NAN } }}
entry!{e_efrc(n: u8, theta: f64, m: f64, s: f64, n0: f64, n1: f64, n2: f64, u0: f64, u1: f64, u2: f64, u3: f64, u4: f64, u5: f64, u6: f64, u7: f64, u8: f64, u9: f64, u10: f64, u11: f64){
    use sc::efrc::thermodynamics::isometric::monte_carlo::*; script(&[u0, u1, u2, u3, u4, u5, u6, u7, u8, u9, u10, u11], &[n0, n1, n2]); let mut r = rand::thread_rng(); let w = rand_distr::Normal::new(m, s).unwrap(); match n { 1 => random_nondimensional_end_to_end_length::<1>(&theta, w, &mut r), 2 => random_nondimensional_end_to_end_length::<2>(&theta, w, &mut r), 3 => random_nondimensional_end_to_end_length::<3>(&theta, w, &mut r), _ => f64::NAN } }}
entry!{h_efrc(n: u8, samples: u8, b: u8, gmax: f64, kappa: f64, theta: f64, n0: f64, n1: f64, n2: f64, n3: f64, n4: f64, n5: f64, u0: f64, u1: f64, u2: f64, u3: f64, u4: f64, u5: f64, u6: f64, u7: f64, u8: f64, u9: f64, u10: f64, u11: f64, u12: f64, u13: f64, u14: f64, u15: f64, u16: f64, u17: f64, u18: f64, u19: f64, u20: f64, u21: f64, u22: f64, u23: f64){
    use sc::efrc::thermodynamics::isometric::monte_carlo::*; script(&[u0, u1, u2, u3, u4, u5, u6, u7, u8, u9, u10, u11, u12, u13, u14, u15, u16, u17, u18, u19, u20, u21, u22, u23], &[n0, n1, n2, n3, n4, n5]); match n { 1 => bin(nondimensional_equilibrium_radial_distribution::<3, 1>(&gmax, &kappa, &theta, samples as usize), b), 2 => bin(nondimensional_equilibrium_radial_distribution::<3, 2>(&gmax, &kappa, &theta, samples as usize), b), 3 => bin(nondimensional_equilibrium_radial_distribution::<3, 3>(&gmax, &kappa, &theta, samples as usize), b), _ => f64::NAN } }}
// link i of a chain of 24 whose earlier draws are all one half
entry!{l_fjc(i: u8, k: u8, u0: f64, u1: f64){
    use sc::fjc::thermodynamics::isometric::monte_carlo::*; __vt_begin(); let mut j = 0; while j < 2 * i { __vt_putu(0.5); j += 1; } __vt_putu(u0); __vt_putu(u1); while j < 48 { __vt_putu(0.5); j += 1; }
    let mut r = rand::thread_rng(); let c = random_configuration::<24>(&mut r); c[i as usize][k as usize] - if i > 0 { c[i as usize - 1][k as usize] } else { 0.0 } }}
entry!{l_efjc(i: u8, k: u8, l: f64, u0: f64, u1: f64){
    use sc::efjc::thermodynamics::isometric::monte_carlo::*; __vt_begin(); let mut j = 0; while j < 2 * i { __vt_putu(0.5); j += 1; } __vt_putu(u0); __vt_putu(u1); while j < 48 { __vt_putu(0.5); j += 1; }
    j = 0; while j < i { __vt_putn(0.0); j += 1; } __vt_putn(l - 1.0); while j < 24 { __vt_putn(0.0); j += 1; }
    let mut r = rand::thread_rng(); let c = random_configuration::<24>(rand_distr::Normal::new(1.0, 1.0).unwrap(), &mut r); c[i as usize][k as usize] - if i > 0 { c[i as usize - 1][k as usize] } else { 0.0 } }}
