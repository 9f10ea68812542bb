use polymers::constitutive as ce;
const G: usize = @GRID@;
extern "C" {
    fn constitutive_hyperelastic_buche_silberstein_uniaxial_tension(e: *const [[f64; G]; G], factor: f64, g: *const [f64; G], norm: f64, method: u8, kappa: f64, n: u8, lam: f64) -> f64;
    fn constitutive_hyperelastic_buche_silberstein_equibiaxial_tension(e: *const [[f64; G]; G], factor: f64, g: *const [f64; G], norm: f64, method: u8, kappa: f64, n: u8, lam: f64) -> f64;
}
entry!{h_uni(method: u8, n: u8, kappa: f64, lam: f64){ ce::hyperelastic::BucheSilberstein::init(method, kappa, n).uniaxial_tension(&lam) }}
entry!{h_equi(method: u8, n: u8, kappa: f64, lam: f64){ ce::hyperelastic::BucheSilberstein::init(method, kappa, n).equibiaxial_tension(&lam) }}
entry!{h_field(p: u8, method: u8, n: u8, kappa: f64){ let o = ce::hyperelastic::BucheSilberstein::init(method, kappa, n); if p == 0 { o.nondimensional_link_stiffness } else { o.number_of_links as f64 } }}
unsafe fn tables(e: &[f64], g: &[f64]) -> ([[f64; G]; G], [f64; G]) { let mut t = ([[0.0; G]; G], [0.0; G]); let mut i = 0; while i < G { let mut j = 0; while j < G { t.0[i][j] = e[i*G + j]; j += 1; } t.1[i] = g[i]; i += 1; } t }
entry!{x_uni(equi: u8, method: u8, n: u8, kappa: f64, lam: f64, factor: f64, norm: f64, @E@, @Z@){
    let t = tables(&[@EN@], &[@ZN@]);
    if equi == 1 { constitutive_hyperelastic_buche_silberstein_equibiaxial_tension(&t.0, factor, &t.1, norm, method, kappa, n, lam) } else { constitutive_hyperelastic_buche_silberstein_uniaxial_tension(&t.0, factor, &t.1, norm, method, kappa, n, lam) } }}
// c = 0 stress, 1 total probability, at step k of a history of len stretches
entry!{d_uni(len: u8, k: u8, c: u8, method: u8, n: u8, gc: f64, kappa: f64, jj: f64, s0: f64, s1: f64, s2: f64, s3: f64){
    let o = ce::hyperelastic_damage::BucheSilberstein::init(method, gc, kappa, n, jj);
    match len { 1 => o.uniaxial_tension::<1>(&[s0])[k as usize][c as usize], 2 => o.uniaxial_tension::<2>(&[s0, s1])[k as usize][c as usize], 3 => o.uniaxial_tension::<3>(&[s0, s1, s2])[k as usize][c as usize], _ => o.uniaxial_tension::<4>(&[s0, s1, s2, s3])[k as usize][c as usize] } }}
entry!{d_field(p: u8, method: u8, n: u8, gc: f64, kappa: f64, jj: f64){ let o = ce::hyperelastic_damage::BucheSilberstein::init(method, gc, kappa, n, jj); match p { 0 => o.nondimensional_link_stiffness, 1 => o.number_of_links as f64, 2 => o.nondimensional_critical_extension, _ => o.swelling_ratio } }}
