use polymers::constitutive as cep;
entry!{p_h_uni(equi: u8, method: u8, n: u8, kappa: f64, lam: f64){
    let o = cep::hyperelastic::buche_silberstein::py::BucheSilberstein::init(method, kappa, n);
    if equi == 1 { __second(o.equibiaxial_tension(__PY, __twice(lam))) } else { __second(o.uniaxial_tension(__PY, __twice(lam))) } }}
entry!{p_h_field(p: u8, method: u8, n: u8, kappa: f64){ let o = cep::hyperelastic::buche_silberstein::py::BucheSilberstein::init(method, kappa, n); if p == 0 { o.nondimensional_link_stiffness } else { o.number_of_links as f64 } }}
entry!{p_d_uni(len: u8, k: u8, c: u8, method: u8, n: u8, gc: f64, kappa: f64, jj: f64, s0: f64, s1: f64, s2: f64, s3: f64){
    let o = cep::hyperelastic_damage::buche_silberstein::py::BucheSilberstein::init(method, gc, kappa, n, jj);
    let r = o.uniaxial_tension(__PY, numpy::PyReadonlyArrayDyn::of(match len { 1 => vec![s0], 2 => vec![s0, s1], 3 => vec![s0, s1, s2], _ => vec![s0, s1, s2, s3] }));
    assert!(r.0.0.len() == len as usize && r.1.0.len() == len as usize);
    if c == 0 { r.0.0[k as usize] } else { r.1.0[k as usize] } }}
entry!{p_d_field(p: u8, method: u8, n: u8, gc: f64, kappa: f64, jj: f64){ let o = cep::hyperelastic_damage::buche_silberstein::py::BucheSilberstein::init(method, gc, kappa, n, jj); match p { 0 => o.nondimensional_link_stiffness, 1 => o.number_of_links as f64, 2 => o.nondimensional_critical_extension, _ => o.swelling_ratio } }}
