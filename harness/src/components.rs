//! Bulk parameters of swell components.
use crate::irs::*;
use crate::spectra::*;
use chrono::prelude::*;
use surfrs::data::directional_spectral_wave_data_record::*;
use surfrs::data::forecast_spectral_wave_data_record::*;
use surfrs::dimensional_data::*;
use surfrs::location::*;
use surfrs::units::*;
use surfrs::spectra::*;
use surfrs::swell::*;
use surfrs::tools::waves::wave_energy;
use std::f64::consts::PI;

/// geometric frequencies, uniform directions
fn grid(k: usize) -> (Vec<f64>, Vec<f64>) {
    match k {
        0 => (vec![0.035, 0.105, 0.315], vec![0.0, 180.0]),
        1 => (vec![0.04, 0.044, 0.0484], vec![15.0, 135.0, 255.0]),
        2 => (vec![0.06, 0.09, 0.135, 0.2025], vec![30.0, 210.0]),
        _ => (vec![0.05, 0.1], vec![0.0, 90.0, 180.0, 270.0]),
    }
}
fn rad(d: &[f64]) -> Vec<f64> { d.iter().map(|x| x * PI / 180.0).collect() }
/// energies of which a few are symbolic
fn some(n: usize, at: &[usize]) -> Vec<f64> { (0..n).map(|i| if at.contains(&i) { real(0.0, 100.0) } else { (3 * i % 7) as f64 }).collect() }
fn get(s: &SwellSummary) -> (f64, f64, f64) { (val(&s.summary), s.summary.period.value.unwrap(), s.summary.direction.value.as_ref().unwrap().degrees as f64) }
fn val(s: &Swell) -> f64 { s.wave_height.value.unwrap() }
fn per(s: &Swell) -> f64 { s.period.value.unwrap() }
fn en(s: &Swell) -> f64 { s.energy.as_ref().unwrap().value.unwrap() }
/// centred integration weights and the most the tail above the last frequency may add
fn weights(f: &[f64]) -> (Vec<f64>, f64) {
    let n = f.len();
    let r = f[1] / f[0];
    let w = (0..n).map(|k| if k == 0 { 0.5 * (f[1] - f[0]) } else if k == n - 1 { 0.5 * (f[n - 1] - f[n - 2]) } else { 0.5 * (f[k] * r - f[k] / r) }).collect();
    (w, 0.25 * f[n - 1])
}
/// spectral moment zero of the cells with a label, its tail, and the density per frequency
fn m0(f: &[f64], d: &[f64], e: &[f64], lab: &[i32], want: Option<i32>) -> (f64, f64, Vec<f64>) {
    let (w, tail) = weights(f);
    let dth = (d[1] - d[0]) * PI / 180.0;
    let nk = f.len();
    let dens: Vec<f64> = (0..nk).map(|k| { let mut x = 0.0; for t in 0..d.len() { let i = k + t * nk; if want.is_none() || want == Some(lab[i]) { x += e[i]; } } x * dth }).collect();
    let mut m = 0.0;
    for k in 0..nk { m += dens[k] * w[k]; }
    (m, dens[nk - 1] * tail, dens)
}
fn height(h: f64, m: f64, t: f64) -> bool {
    // (up to the rounding of the height itself)
    let q = h * h / 16.0;
    (q >= m - 1e-6) & (q <= m + t + 1e-6)
}

harnesses! {
    fn h_pt_total() {
        exact(true);
        let (f, d) = grid(case(4));
        let n = f.len() * d.len();
        let j = case(n);
        let c = j % 3;
        let e = some(n, &[j, (j + 1) % n]);
        let s = Spectra::new(f.clone(), rad(&d), e.clone(), conv(c));
        let lab = vec![0; n];
        let r = s.swell_data(None, None, None, &(lab.clone(), 1)).unwrap();
        check(r.components.len() == 0, "no components without labels");
        let (m, t, dens) = m0(&f, &d, &e, &lab, None);
        check(height(val(&r.summary), m, t), "significant height is four times the root of the spectral integral");
        let p = per(&r.summary);
        let mut ok = true;
        let mut any = false;
        for k in 0..f.len() {
            let mine = near(p * f[k], 1.0, 1e-6);
            any |= mine;
            for j in 0..f.len() { ok &= !mine | (dens[k] >= dens[j] - 1e-9); }
        }
        check(any & ok, "peak period is that of the most energetic frequency");
        let g = r.summary.direction.value.as_ref().unwrap().degrees;
        check((g >= 0) & (g <= 360), "mean direction on the compass");
        check(near(en(&r.summary), 0.0, 1e-12), "no energy without components");
        reach("total");
    }
    fn h_pt_components() {
        exact(true);
        let g = case(2);
        let (f, d) = grid([0, 2][g]);
        let nk = f.len();
        let n = nk * d.len();
        // labels: halves, stripes, a basin of one cell, unlabelled cells
        let lab: Vec<i32> = match case(4) { 0 => (0..n).map(|i| 1 + (i / nk) as i32 % 2).collect(), 1 => (0..n).map(|i| 1 + (i % 2) as i32).collect(), 2 => (0..n).map(|i| if i == 0 { 2 } else { 1 }).collect(), _ => (0..n).map(|i| (i % 3) as i32).collect() };
        let j = case(n);
        let e = if g == 0 { some(n, &[j, (j + 3) % n]) } else { some(n, &[j]) };
        let s = Spectra::new(f.clone(), rad(&d), e.clone(), conv(0));
        let r = s.swell_data(None, None, None, &(lab.clone(), 3)).unwrap();
        let mut seen = [0; 4];
        for k in &r.components {
            let id = k.partition.unwrap();
            check(id >= 1 && id <= 3, "components carry their label");
            if id < 1 || id > 3 { return; }
            seen[id] += 1;
            let (m, t, dens) = m0(&f, &d, &e, &lab, Some(id as i32));
            check(height(val(k), m, t), "the height of a component is that of its own cells");
            check(val(k) >= 0.1, "components are at least ten centimetres high");
            let mut ok = true;
            let mut any = false;
            for a in 0..nk {
                let mine = near(per(k) * f[a], 1.0, 1e-6);
                any |= mine;
                for b in 0..nk { ok &= !mine | (dens[a] >= dens[b] - 1e-9); }
            }
            check(any & ok, "the peak period of a component");
            let w = wave_energy(val(k), per(k));
            check(near(en(k), w, 1e-6), "the energy of a component follows from its height and period");
        }
        for id in 1..4 {
            let (m, t, _) = m0(&f, &d, &e, &lab, Some(id as i32));
            check(seen[id] <= 1, "a component appears once");
            if seen[id] == 0 { check(16.0 * m <= 0.01 + 1e-6, "only low components are left out"); reach("left out"); }
            let _ = t;
        }
        if r.components.len() == 2 { reach("two components"); }
    }
    fn h_pt_additive() {
        // the heights of the components add up in energy to the total
        exact(true);
        let g = case(2);
        let (f, d) = grid([0, 2][g]);
        let n = f.len() * d.len();
        let lab: Vec<i32> = match case(3) { 0 => (0..n).map(|i| 1 + (i % 2) as i32).collect(), 1 => (0..n).map(|i| 1 + (i * 2 / n) as i32).collect(), _ => (0..n).map(|i| 1 + (i % 3) as i32).collect() };
        let j = case(n);
        let e = if g == 0 { some(n, &[j, (j + 3) % n]) } else { some(n, &[j]) };
        let s = Spectra::new(f.clone(), rad(&d), e.clone(), conv(2));
        let r = s.swell_data(None, None, None, &(lab.clone(), 4)).unwrap();
        let mut sum = 0.0;
        let mut te = 0.0;
        let mut sorted = true;
        for i in 0..r.components.len() {
            let h = val(&r.components[i]);
            sum += h * h;
            te += en(&r.components[i]);
            if i > 0 { sorted &= en(&r.components[i - 1]) >= en(&r.components[i]); }
        }
        let h = val(&r.summary);
        // components under ten centimetres are left out
        let left = 0.01 * (3 - r.components.len()) as f64;
        check((h * h >= sum - 1e-6) & (h * h <= sum + left + 1e-6), "component energies add up to the total");
        check(near(en(&r.summary), te, 1e-6), "total energy is the sum of the components'");
        check(sorted, "components from most to least energetic");
        reach("sum");
    }
    fn h_pt_scale() {
        // four times the energy: twice the height, the same periods and directions
        exact(true);
        let g = case(2);
        let (f, d) = grid([0, 2][g]);
        let n = f.len() * d.len();
        let lab: Vec<i32> = (0..n).map(|i| 1 + (i / f.len() % 2) as i32).collect();
        let j = case(n);
        let e = if g == 0 { some(n, &[j, (j + 3) % n]) } else { some(n, &[j]) };
        let e4: Vec<f64> = e.iter().map(|x| 4.0 * x).collect();
        let a = Spectra::new(f.clone(), rad(&d), e, conv(0)).swell_data(None, None, None, &(lab.clone(), 3)).unwrap();
        let b = Spectra::new(f.clone(), rad(&d), e4, conv(0)).swell_data(None, None, None, &(lab.clone(), 3)).unwrap();
        let (x, y) = (val(&a.summary), val(&b.summary));
        check(near(y * y, 4.0 * x * x, 1e-5), "four times the energy is twice the height");
        check(per(&a.summary) == per(&b.summary), "the period does not depend on the scale");
        check(a.components.len() == b.components.len(), "as many components");
        reach("scaled");
    }
    fn h_pt_density() {
        // the density of a component is the top of the parabola through its greatest frequency and the two next to it
        exact(true);
        let g = case(3);
        let (f, d) = grid(g);
        let nk = f.len();
        let n = nk * d.len();
        let lab: Vec<i32> = match case(3) { 0 => (0..n).map(|i| 1 + (i / nk) as i32 % 2).collect(), 1 => vec![1; n], _ => (0..n).map(|i| (i / nk) as i32).collect() };
        let j = case(n);
        let e = some(n, &[j]);
        let s = Spectra::new(f.clone(), rad(&d), e.clone(), conv(g));
        let r = s.swell_data(None, None, None, &(lab.clone(), 3)).unwrap();
        let mut all = vec![&r.summary];
        all.extend(r.components.iter());
        for c in all {
            let id = c.partition.unwrap();
            let (_, _, dens) = m0(&f, &d, &e, &lab, if id == 0 { None } else { Some(id as i32) });
            let got = match c.spectral_density.as_ref().and_then(|x| x.value) { Some(x) => x, None => { check(false, "a component has a density"); return; } };
            for a in 0..nk {
                if split(near(per(c) * f[a], 1.0, 1e-6) as i64) == 0 { continue; }
                if a == 0 || a == nk - 1 { check(near(got, dens[a], 1e-6), "density at the end of the spectrum"); reach("end"); continue; }
                let (l, h) = (dens[a - 1], dens[a + 1]);
                let q = 2.0 * dens[a] - l - h;
                check(near((got - dens[a]) * 8.0 * q, (l - h) * (l - h), 1e-4) | (near(q, 0.0, 1e-6)), "density at the peak");
                check(got >= dens[a] - 1e-6, "density at the peak is not below that of its frequency");
                reach("inside");
            }
        }
    }
    fn h_pt_large() {
        // a spectrum of 25 frequencies in 24 directions with four systems and one free energy
        exact(true);
        let c = case(3);
        let (nk, nth) = (25, 24);
        let f: Vec<f64> = (0..nk).map(|k| 0.035 * 1.1f64.powi(k as i32)).collect();
        let d: Vec<f64> = (0..nth).map(|t| [0.0, 7.5, 5.0][c] + 15.0 * t as f64).collect();
        let turn = |a: f64, b: f64| { let x = (a - b).abs() % 360.0; if x > 180.0 { 360.0 - x } else { x } };
        // (peak of a system: frequency, direction, energy; the last one is below ten centimetres)
        let peaks = [(5usize, 40.0, 3.0), (12, 352.0, 0.4), (17, 200.0, 0.15), (22, 120.0, 0.00001)];
        let mut e = vec![0.0; nk * nth];
        let mut lab = vec![0; nk * nth];
        for t in 0..nth { for k in 0..nk {
            let (mut best, mut sum) = (0.0, 0.0);
            for (i, q) in peaks.iter().enumerate() {
                let a = (k as f64 - q.0 as f64) / 2.0;
                let b = turn(d[t], q.1) / 20.0;
                let v = q.2 * (-a * a - b * b).exp();
                sum += v;
                if v > best && v > q.2 * 0.001 { best = v; lab[k + t * nk] = 1 + i as i32; }
            }
            e[k + t * nk] = (sum * 1.0e6).round() / 1.0e6;
        } }
        let at = [(5, 2), (12, 23), (17, 13), (20, 5), (22, 8), (24, 0), (0, 20), (9, 1)][case(8)];
        let at = at.0 + at.1 * nk;
        e[at] = real(0.0, 20.0);
        let s = Spectra::new(f.clone(), rad(&d), e.clone(), conv(c));
        let r = s.swell_data(None, None, None, &(lab.clone(), 5)).unwrap();
        let mut all = vec![&r.summary];
        all.extend(r.components.iter());
        let mut seen = [0; 6];
        let mut te = 0.0;
        for (i, x) in all.iter().enumerate() {
            let id = if i == 0 { 0 } else { x.partition.unwrap() };
            check(id <= 4 && (i == 0 || id > 0), "components carry their label");
            seen[id] += 1;
            let (m, t, dens) = m0(&f, &d, &e, &lab, if i == 0 { None } else { Some(id as i32) });
            let h = val(x);
            check((h * h / 16.0 >= m - 1e-6 - m * 1e-6) & (h * h / 16.0 <= m + t + 1e-6 + m * 1e-6), "the height of a component of a large spectrum");
            let (mut ok, mut any) = (true, false);
            for a in 0..nk {
                let mine = near(per(x) * f[a], 1.0, 1e-6);
                any |= mine;
                for b in 0..nk { ok &= !mine | (dens[a] >= dens[b] - 1e-9); }
            }
            check(any & ok, "the period of a component of a large spectrum");
            if i > 0 {
                check(near(en(x), wave_energy(val(x), per(x)), 1e-6), "the energy of a component of a large spectrum");
                te += en(x);
                if i > 1 { check(en(all[i - 1]) >= en(x), "from most to least energetic"); }
            }
        }
        check(near(en(&r.summary), te, 1e-6), "total energy is the sum of the components'");
        for id in 1..5 {
            check(seen[id] <= 1, "a component appears once");
            let (m, _, _) = m0(&f, &d, &e, &lab, Some(id as i32));
            if seen[id] == 0 { check(16.0 * m <= 0.01 + 1e-6, "only low components are left out"); reach("left out"); }
            if seen[id] == 1 && lab[at] != id as i32 {
                // (a system without the free energy)
                let x = all.iter().find(|x| x.partition == Some(id)).unwrap();
                let g = x.direction.value.as_ref().unwrap().degrees as f64;
                check(turn(g, heading(c, peaks[id - 1].1)) <= 4.0, "the direction of a component of a large spectrum");
            }
        }
        reach("large");
    }
    fn h_pt_records() {
        // the sea state of a record is that of its spectrum, one component for each of its peaks
        exact(true);
        let kind = case(3);
        let (nk, nth) = [(12, 12), (8, 24), (15, 8)][case(3)];
        let f: Vec<f64> = (0..nk).map(|k| 0.04 * 1.15f64.powi(k as i32)).collect();
        let d: Vec<f64> = (0..nth).map(|t| (360 / nth) as f64 * (t as f64 + 0.25)).collect();
        let turn = |a: f64, b: f64| { let x = (a - b).abs() % 360.0; if x > 180.0 { 360.0 - x } else { x } };
        let peaks = [(2usize, d[1], 10.0), (nk - 3, d[nth / 2], 4.0), (nk / 2, d[nth * 3 / 4], 1.5)];
        let mut e = vec![0.0; nk * nth];
        for t in 0..nth { for k in 0..nk {
            let mut v = 0.0;
            for q in &peaks { let a = (k as f64 - q.0 as f64) / 1.2; let b = turn(d[t], q.1) / 25.0; v += q.2 * (-a * a - b * b).exp(); }
            e[k + t * nk] = (v * 1.0e5).round() / 1.0e5;
        } }
        e[nk - 1 + nth / 4 * nk] = 0.0;
        let at = [(nk - 3) + nth / 2 * nk, 3 + nk, nk / 2 + (nth * 3 / 4 + 1) * nk][case(3)];
        // anything that keeps its level
        let (lo, hi) = (e.iter().cloned().fold(f64::INFINITY, f64::min), e.iter().cloned().fold(0.0, f64::max));
        let levels = if kind == 0 { 255.0 } else { 99.0 };
        let x = (e[at] - lo) / (hi - lo) * levels;
        let (a, b) = if kind == 0 { (x.floor() + 0.05, x.floor() + 0.95) } else { (x.round() - 0.45, x.round() + 0.45) };
        e[at] = real(lo + a.max(0.0) / levels * (hi - lo), lo + b.min(levels) / levels * (hi - lo));
        let c = if kind == 0 { 0 } else { 1 };
        let s = Spectra::new(f.clone(), rad(&d), e.clone(), conv(c));
        let date = Utc.with_ymd_and_hms(2024, 2, 29, 10, 40, 0).unwrap();
        let num = |x: Option<f64>, u: Unit| DimensionalData { value: x, variable_name: String::new(), unit: u };
        let (r, lab) = if kind == 0 {
            let lab = s.partition(100, Some(0.8)).unwrap();
            (DirectionalSpectralWaveDataRecord { date, spectra: s }.swell_data(), lab)
        } else {
            let lab = s.partition(100, None).unwrap();
            let head = |x: Option<i32>| DimensionalData { value: x.map(|x| Direction::from_degrees(x)), variable_name: String::new(), unit: Unit::Degrees };
            let mut w = ForecastSpectralWaveDataRecord { date, reference_date: date, location: Location::new(41.0, -71.0, "44097".into()), depth: num(Some(48.5), Unit::Meters), wind_speed: num(if kind == 1 { Some(12.5) } else { None }, Unit::MetersPerSecond), wind_direction: head(if kind == 1 { Some(220) } else { None }), current_speed: num(Some(0.5), Unit::MetersPerSecond), current_direction: head(Some(90)), spectra: s };
            if kind == 2 { w.to_units(&UnitSystem::English); }
            (w.swell_data(), lab)
        };
        let r = match r { Ok(r) => r, Err(_) => { check(false, "a spectrum has a sea state"); return; } };
        let (m, t, _) = m0(&f, &d, &e, &lab.0, None);
        check(height(val(&r.summary), m, t), "the height of a record is that of its spectrum");
        check(r.summary.wave_height.unit == Unit::Meters && r.summary.period.unit == Unit::Seconds, "units of a sea state");
        let (mut ok, mut sum) = (true, 0.0);
        for k in &r.components {
            let id = k.partition.unwrap();
            check(id >= 1 && id < lab.1, "components are basins of the spectrum");
            if id < 1 || id >= lab.1 { return; }
            let (m, t, dens) = m0(&f, &d, &e, &lab.0, Some(id as i32));
            ok &= height(val(k), m, t);
            let mut top = false;
            for a in 0..nk { let mut most = near(per(k) * f[a], 1.0, 1e-6); for b in 0..nk { most &= dens[a] >= dens[b] - 1e-9; } top |= most; }
            ok &= top;
            sum += en(k);
        }
        check(ok, "height and period of a basin");
        check(near(en(&r.summary), sum, 1e-6), "energy of a sea state");
        let mut all = true;
        for id in 1..lab.1 {
            let (m, _, _) = m0(&f, &d, &e, &lab.0, Some(id as i32));
            let n = r.components.iter().filter(|k| k.partition == Some(id)).count();
            check(n <= 1, "a basin appears once");
            if n == 0 { all &= 16.0 * m <= 0.01 + 1e-6; }
        }
        check(all, "every basin of ten centimetres is a component");
        // the three systems are there
        for q in &peaks {
            let mut there = false;
            for k in &r.components { there |= near(per(k) * f[q.0], 1.0, 0.2) & (turn(k.direction.value.as_ref().unwrap().degrees as f64, heading(c, q.1)) < 20.0); }
            check(there, "every wave system is a component");
        }
        reach("record");
    }
    fn h_pt_direction() {
        // all energy in one direction, or in two neighbouring ones
        exact(true);
        let c = case(3);
        let w = case(6);
        let o = [15.0, 15.0, 3.0, 27.0, 30.0, 0.0][w];
        let d: Vec<f64> = (0..6).map(|k| o + 60.0 * k as f64).collect();
        let f = vec![0.05, 0.1];
        let (nk, nth) = (2, 6);
        let j = [vec![0, 1, 2, 3, 4, 5], vec![0, 1, 2, 3, 4, 5], vec![0, 3], vec![1, 4], vec![1, 4], vec![0, 3]][w][case([6, 6, 2, 2, 2, 2][w])];
        let both = w == 1;
        let mut e = vec![0.0; nk * nth];
        for k in 0..nk { e[k + j * nk] = real(1.0, 100.0); if both { e[k + (j + 1) % nth * nk] = real(1.0, 100.0); } }
        let s = Spectra::new(f, rad(&d), e, conv(c));
        let r = s.swell_data(None, None, None, &(vec![1; nk * nth], 2)).unwrap();
        check(r.components.len() == 1, "one component");
        let a = heading(c, d[j]);
        let sign = if c == 2 { -1.0 } else { 1.0 };
        for g in [&r.summary, &r.components[0]] {
            let g = g.direction.value.as_ref().unwrap().degrees;
            check((g >= 0) & (g <= 360), "mean direction on the compass");
            let x = sign * (g as f64 - a);
            let on = |x: f64| if both { within(x, -1.001, 61.001) } else { near(x, 0.0, 1.5) };
            check(on(x) | on(x + 360.0) | on(x - 360.0) | on(x + 720.0) | on(x - 720.0), "the mean direction lies among the directions of the waves");
        }
        reach("direction");
    }
    fn h_pt_wind() {
        // depth and wind leave the parameters alone
        exact(true);
        let g = case(2);
        let (f, d) = grid([0, 2][g]);
        let n = f.len() * d.len();
        let lab: Vec<i32> = (0..n).map(|i| 1 + (i / f.len() % 2) as i32).collect();
        let j = case(n);
        let e = some(n, &[j]);
        let s = Spectra::new(f, rad(&d), e, conv(1));
        let a = s.swell_data(None, None, None, &(lab.clone(), 3)).unwrap();
        let (depth, ws, wd) = match case(4) {
            0 => (Some(real(0.3, 500.0)), None, None),
            1 => (None, Some(real(0.0, 60.0)), Some([40.0, 185.0][g])),
            2 => (None, Some([25.0, 8.0][g]), Some(real(0.0, 360.0))),
            _ => (Some([4.0, 40.0][g]), Some(12.0), Some(350.0)),
        };
        let b = s.swell_data(depth, ws, wd, &(lab, 3)).unwrap();
        let same = |x: &Swell, y: &Swell| near(val(x), val(y), 1e-6) & (per(x) == per(y)) & near(en(x), en(y), 1e-6) & (x.direction.value.as_ref().unwrap().degrees == y.direction.value.as_ref().unwrap().degrees);
        check(same(&a.summary, &b.summary), "height, period and direction come from the spectrum alone");
        check(a.components.len() == b.components.len(), "the same components");
        let mut ok = true;
        for (x, y) in a.components.iter().zip(&b.components) { ok &= same(x, y); }
        check(ok, "components come from the spectrum alone");
        reach("wind");
    }
}
