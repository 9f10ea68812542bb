entry!{k_erf(x: f64){ polymers::math::erf(&x) }}
entry!{k_erfc(x: f64){ polymers::math::erfc(&x) }}
entry!{k_erfcx(x: f64){ polymers::math::erfcx(&x) }}
entry!{k_bessel(n: u8, x: f64){ polymers::math::bessel_i(&n, &x) }}
entry!{k_lambert(x: f64){ polymers::math::lambert_w(&x) }}
entry!{k_invlang(y: f64){ polymers::math::inverse_langevin(&y) }}
extern "C" { fn __vt_f(x: f64) -> f64; fn __vt_fp(x: f64) -> f64; fn __vt_f2(x: f64, y: f64) -> f64; }
entry!{k_newton(y: f64, g: f64, tol: f64, n: u8){ polymers::math::inverse_newton_raphson(&y, &|x: &f64| __vt_f(*x), &|x: &f64| __vt_fp(*x), &g, &tol, &n) }}
entry!{k_newtonp(y: f64, g: f64, tol: f64, n: u8, p: u8){ polymers::math::inverse_newton_raphson_powered(&y, &|x: &f64| __vt_f(*x), &|x: &f64| __vt_fp(*x), &g, &tol, &n, p as i32) }}
entry!{k_int1(a: f64, b: f64, n: u8){ polymers::math::integrate_1d(&|x: &f64| __vt_f(*x), &a, &b, &(n as u128)) }}
entry!{k_int1g(a: f64, b: f64, c: f64, d: f64){ polymers::math::integrate_1d_grid(&|x: &f64| __vt_f(*x), &[a, b, c], &d) }}
entry!{k_int2(a: f64, b: f64, c: f64, d: f64, n: u8){ polymers::math::integrate_2d(&|x: &f64, y: &f64| __vt_f2(*x, *y), &a, &b, &c, &d, n as u128) }}
entry!{k_int2s(a: f64, b: f64, n: u8){ polymers::math::integrate_2d_symmetric(&|x: &f64, y: &f64| __vt_f2(*x, *y), &a, &b, n as u128) }}
entry!{k_int2g(a: f64, b: f64, c: f64, d: f64, e: f64, w: f64){ polymers::math::integrate_2d_grid(&|x: &f64, y: &f64| __vt_f2(*x, *y), &[a, b], &[c, d, e], &w) }}
entry!{k_int2sg(a: f64, b: f64, c: f64, w: f64){ polymers::math::integrate_2d_symmetric_grid(&|x: &f64, y: &f64| __vt_f2(*x, *y), &[a, b, c], &w) }}
entry!{k_f(x: f64){ __vt_f(x) }}
