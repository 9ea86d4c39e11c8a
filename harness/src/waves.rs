//! Wave physics of single waves.
use crate::irs::*;
use std::f64::consts::PI;
use surfrs::swell::*;
use surfrs::tools::waves::*;
use surfrs::units::*;

const G: f64 = 9.81;
fn part(h: f64, period: f64, deg: i32) -> Swell {
    let mut d = Direction::from_degrees(0);
    d.degrees = deg;
    Swell::new(&UnitSystem::Metric, h, period, d, None, None, None)
}
/// dimensionless depths k0 h from shallow to deep water in slices of a fixed ratio
fn slice(n: usize, lo: f64, hi: f64) -> (f64, f64) {
    let k = case(n);
    let r = (hi / lo).powf(1.0 / n as f64);
    (lo * r.powi(k as i32), lo * r.powi(k as i32 + 1))
}

/// a depth, and the angular frequency of a wave with a given relative depth w^2 h / G
fn relative(n: usize) -> (f64, f64, f64) {
    let (hlo, hhi) = slice(tier(4, 16), 1.0, 400.0);
    let h = real(hlo, hhi);
    let (lo, hi) = slice(n, 0.01, 40.0);
    let x = real(lo, hi);
    (h, x, (x * G / h).sqrt())
}

harnesses! {
    fn h_wave_deep() {
        exact(true);
        let f = real(0.02, 2.0);
        let (c, l) = (celerity(f, None), wavelength(f, None));
        check(near(l * f, c, 1e-9), "a wave runs its length in a period");
        check(near(c * f, G / (2.0 * PI), 2e-3), "deep water celerity");
        let (h, t) = (real(0.0, 30.0), real(1.0, 30.0));
        let e = wave_energy(h, t);
        check(near(e, 1.9701 * h * h * t * t, 1e-3 * h * h * t * t + 1e-9), "energy of a wave");
        let (s, b) = (real(0.0, 1000.0), real(0.0001, 0.2));
        let (m0, m2) = (zero_spectral_moment(s, b), second_spectral_moment(s, b, f));
        check(near(m0, s * b, 1e-9) & near(m2, m0 * f * f, 1e-9), "moments of a spectral point");
        let m = real(0.01, 100.0);
        let q = steepness_coefficient(m, m2);
        check(near(q * q * m * G * G, 64.0 * PI * PI * m2 * m2, 1e-3 * m2 * m2 + 1e-9), "steepness from the moments");
        reach("deep");
    }
    fn h_wave_number() {
        exact(true);
        let (h, x, w) = relative(50);
        let kh = wavenuma(w, h) * h;
        check(near(kh * kh.tanh() / x, 1.0, 0.01), "wavenumber satisfies the dispersion relation");
        reach("number");
    }
    fn h_wave_length() {
        exact(true);
        let h = [25.0, 4.0, 300.0, 1.0, 10.0, 80.0][case(tier(3, 6))];
        let f = real(0.02, 1.0);
        let w = 2.0 * PI * f;
        let k = wavenuma(w, h);
        let (c, l) = (celerity(f, Some(h)), wavelength(f, Some(h)));
        check(near(l * k, 2.0 * PI, 1e-6), "length of a wave from its number");
        check(near(c * k, w, 1e-6), "celerity from the wavenumber");
        reach("length");
    }
    fn h_wave_eckart() {
        exact(true);
        let (h, x, w) = relative(50);
        let (k, cg) = wavenu3(w, h);
        let kh = k * h;
        check(near(kh * kh.tanh() / x, 1.0, 0.01), "improved wavenumber satisfies the dispersion relation");
        check(near(cg * k / w, 0.5 + kh / (2.0 * kh).sinh(), 0.01), "group velocity of linear theory");
        reach("eckart");
    }
    fn h_wave_solved() {
        // the wavelength found by iteration
        exact(true);
        let h = [25.0, 4.0, 300.0, 1.0, 10.0, 80.0][case(tier(3, 6))];
        let (lo, hi) = slice(50, 0.01, 40.0);
        let t = real(2.0 * PI / (hi * G / h).sqrt(), 2.0 * PI / (lo * G / h).sqrt());
        let x = 4.0 * PI * PI * h / (t * t * G);
        match ldis(t, h) {
            Ok(l) => {
                let kh = 2.0 * PI * h / l;
                check((l > 0.0) & near(kh * kh.tanh() / x, 1.0, 0.01), "wavelength satisfies the dispersion relation");
                reach("solved");
            }
            Err(_) => check(false, "the iteration converges"),
        }
    }
    fn h_wave_refract() {
        exact(true);
        let l = real(1.0, 500.0);
        let d = real(0.1, 200.0);
        let a = real(-89.0, 89.0);
        let (kr, b) = refraction_coefficient(l, d, a);
        let kd = 2.0 * PI / l * d;
        let (ra, rb) = (a.to_radians(), b.to_radians());
        check(near(rb.sin(), ra.sin() * kd.tanh(), 1e-9), "Snell's law");
        check((b >= -90.0) & (b <= 90.0) & imp(a >= 0.0, b >= 0.0) & imp(a <= 0.0, b <= 0.0), "the wave keeps its side of the normal");
        let turned = (ra.sin() * kd.tanh()).asin();
        check((kr >= 0.0) & near(kr * kr * turned.cos(), ra.cos(), 1e-9), "the energy between two rays is kept");
        reach("refract");
    }
    fn h_wave_shoal() {
        exact(true);
        let (l, d) = (real(1.0, 500.0), real(0.1, 200.0));
        let k = shoaling_coefficient(l, d);
        let kd = 2.0 * PI / l * d;
        let n = kd.tanh() * (1.0 + 2.0 * kd / (2.0 * kd).sinh());
        check((k > 0.0) & near(k * k * n, 1.0, 1e-9), "the energy flux is kept");
        reach("shoal");
    }
    fn h_wave_tracks() {
        exact(true);
        let (dt, far) = (real(0.0, 1e6), real(1e3, 2e7));
        check(near(dfp_swell_sea(dt, far) * far * 4.0 * PI, dt * G, 1e-6 * dt * G + 1e-9), "rate of change of a swell");
        reach("tracks");
    }
    fn h_wave_beach() {
        exact(true);
        let c = case(tier(6, 24));
        let (t, depth, slope) = [(8.0, 5.0, 0.02), (12.0, 20.0, 0.05), (22.0, 100.0, 0.1)][c % 3];
        let b = [0, 5, 90, 181, 270, 355, 30, 60, 89, 91, 120, 150, 179, 180, 200, 210, 225, 240, 269, 271, 300, 330, 359, 360][c];
        let s = split(int(0, 360)) as i32;
        let h = real(0.1, 10.0);
        let r = estimate_breaking_wave_height(&part(h, t, s), b as f64, slope, depth);
        let d = if s > b { s - b } else { b - s };
        let a = if d > 180 { 360 - d } else { d };
        match r {
            Err(_) => { check(a > 90, "waves towards the beach break"); reach("away"); }
            Ok(v) => {
                check(a <= 90, "waves from behind the beach do not break on it");
                let x = match break_wave(t, a as f64, h, slope, depth) { Ok((x, _)) => x, Err(_) => -1.0 };
                check(near(v, x, 1e-6), "the height depends on the angle between waves and beach");
                check(v >= 0.0, "a height is not negative");
                reach("breaks");
            }
        }
    }
    fn h_wave_breaking() {
        // height and depth of breaking (Komar and Gaughan, Weggel), after refraction
        exact(true);
        let t = [9.5, 5.0, 16.0, 22.0, 30.0][case(5)];
        let (slope, depth) = [(0.02, 30.0), (0.1, 8.0), (0.005, 200.0)][case(3)];
        let a = [0.0, 20.0, 45.0, 70.0, 89.0][case(5)];
        let (h0, h1) = [(0.1, 1.0), (1.0, 4.0), (4.0, 10.0)][case(3)];
        let h = real(h0, h1);
        let (hb, db) = match break_wave(t, a, h, slope, depth) { Ok(x) => x, Err(_) => { check(false, "waves towards the beach break"); return; } };
        // length there and in deep water
        let (l, l0) = (match ldis(t, depth) { Ok(x) => x, Err(_) => 0.0 }, G * t * t / (2.0 * PI));
        let q = a * PI / 180.0;
        let th = (l / l0 * q.sin()).asin();
        let r = h * (q.cos() / th.cos()).sqrt();
        let x = 0.56 * (r / l0).powf(-0.2) * r;
        check(near(hb, x, 1e-3), "breaking height of the refracted wave");
        let (m, n) = (43.8 * (1.0 - f64::exp(-19.0 * slope)), 1.56 / (1.0 + f64::exp(-19.5 * slope)));
        let k = n - m * hb / (G * t * t);
        check(near(db, hb / k, 2e-3), "breaking depth from the height and the slope of the beach");
        reach("breaking");
    }
}
