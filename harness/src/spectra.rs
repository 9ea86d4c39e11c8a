//! Directional spectra: layout, integrals, lookup, splitting and regridding.
use crate::irs::*;
use surfrs::spectra::*;
use surfrs::units::direction::DirectionConvention;
use std::f64::consts::PI;

pub fn conv(k: usize) -> DirectionConvention { [DirectionConvention::From, DirectionConvention::Towards, DirectionConvention::Met][k].clone() }
/// compass heading of a direction given in a convention
pub fn heading(k: usize, deg: f64) -> f64 { match k { 0 => deg, 1 => deg + 180.0, _ => 270.0 - deg } }
pub fn energies(n: usize) -> Vec<f64> { (0..n).map(|_| real(0.0, 100.0)).collect() }
fn widths(v: &[f64]) -> Vec<f64> { (0..v.len()).map(|i| if i == 0 { v[1] - v[0] } else { v[i] - v[i - 1] }).collect() }
/// frequencies in ascending order, directions of a full circle in radians
pub fn freqs(k: usize) -> Vec<f64> { [&[0.05, 0.1, 0.2][..], &[0.04, 0.05, 0.07, 0.1], &[0.1, 0.11]][k].to_vec() }
pub fn dirs(k: usize) -> Vec<f64> {
    let d: &[f64] = [&[0.0, 90.0, 180.0, 270.0][..], &[15.0, 105.0, 225.0], &[30.0, 90.0, 150.0, 210.0, 270.0, 330.0], &[300.0, 200.0, 100.0]][k];
    d.iter().map(|x| x * PI / 180.0).collect()
}
fn wrap(d: f64) -> f64 { let d = d % 360.0; if d < 0.0 { d + 360.0 } else { d } }

harnesses! {
    fn h_sp_marginals() {
        let (f, d) = (freqs(case(3)), dirs(case(4)));
        let (nk, nth) = (f.len(), d.len());
        let e = energies(nk * nth);
        let s = Spectra::new(f.clone(), d.clone(), e.clone(), conv(0));
        let (wf, wd) = (widths(&f), widths(&d));
        check((s.nk() == nk) & (s.nth() == nth), "as many bins as given");
        let (dk, dth) = (s.dk(), s.dth());
        let ix = s.energy_indices();
        let mut ok = (ix.len() == nk * nth) & (dk.len() == nk) & (dth.len() == nth);
        for i in 0..nk { ok &= near(dk[i], wf[i], 1e-12); }
        for i in 0..nth { ok &= near(dth[i], wd[i], 1e-12); }
        check(ok, "bandwidths are the spacing of the bins");
        let of = s.oned(SpectralAxis::Frequency);
        let od = s.oned(SpectralAxis::Direction);
        let at = |k: usize, t: usize| e[k + t * nk];
        let mut layout = true;
        for i in 0..nk * nth { layout &= s.energy_at(ix[i].0, ix[i].1) == e[i]; }
        for k in 0..nk { for t in 0..nth { layout &= s.energy_at(k, t) == at(k, t); } }
        check(layout, "one energy per frequency and direction, frequencies running fastest");
        let mut ok = (of.len() == nk) & (od.len() == nth);
        for k in 0..nk { let mut x = 0.0; for t in 0..nth { x += at(k, t) * wd[t]; } ok &= near(of[k], x, 1e-9); }
        check(ok, "energy per frequency is the integral over the directions");
        let mut ok = true;
        for t in 0..nth { let mut x = 0.0; for k in 0..nk { x += at(k, t) * wf[k]; } ok &= near(od[t], x, 1e-9); }
        check(ok, "energy per direction is the integral over the frequencies");
        reach("marginals");
    }
    fn h_sp_full() {
        // a grid of the size of the models, three energies free
        let (nk, nth) = [(25, 24), (29, 36), (47, 36)][case(tier(1, 3))];
        let c = case(3);
        let f: Vec<f64> = (0..nk).map(|k| 0.035 * 1.1f64.powi(k as i32)).collect();
        let step = 2.0 * PI / nth as f64;
        let d: Vec<f64> = (0..nth).map(|t| (t as f64 + 0.25) * step).collect();
        let mut e: Vec<f64> = (0..nk * nth).map(|i| ((i * 37) % 11) as f64).collect();
        for i in [0, nk * nth / 2 + 3, nk * nth - 1] { e[i] = real(0.0, 100.0); }
        let s = Spectra::new(f.clone(), d.clone(), e.clone(), conv(c));
        let at = |k: usize, t: usize| e[k + t * nk];
        let wf = widths(&f);
        let ix = s.energy_indices();
        let mut ok = (s.nk() == nk) & (s.nth() == nth) & (ix.len() == nk * nth);
        for k in 0..nk { for t in 0..nth { ok &= (s.energy_at(k, t) == at(k, t)) & (ix[k + t * nk] == (k, t)); } }
        check(ok, "layout of a full grid");
        let (of, od) = (s.oned(SpectralAxis::Frequency), s.oned(SpectralAxis::Direction));
        let (m1, q1) = (s.mom_f(1), s.mom_d(1));
        let mut ok = (of.len() == nk) & (q1.len() == nk) & (od.len() == nth) & (m1.len() == nth);
        for k in 0..nk {
            let (mut x, mut y, mut z) = (0.0, 0.0, 0.0);
            for t in 0..nth { x += at(k, t) * step; y += at(k, t) * step * d[t].sin(); z += at(k, t) * step * d[t].cos(); }
            ok &= near(of[k], x, 1e-6) & near(q1[k].0, y, 1e-6) & near(q1[k].1, z, 1e-6);
        }
        check(ok, "every frequency of a full grid");
        let mut ok = true;
        for t in 0..nth {
            let (mut x, mut y) = (0.0, 0.0);
            for k in 0..nk { x += at(k, t) * wf[k]; y += at(k, t) * wf[k] * f[k]; }
            ok &= near(od[t], x, 1e-6) & near(m1[t], y, 1e-6);
        }
        check(ok, "every direction of a full grid");
        reach("full");
    }
    fn h_sp_range() {
        let e = energies(4);
        let s = Spectra::new(vec![0.1, 0.2], vec![0.0, 3.0], e.clone(), conv(0));
        let (lo, hi) = s.energy_range();
        let mut all = true;
        let (mut a, mut b) = (false, false);
        for x in &e { all &= (lo <= *x) & (*x <= hi); a |= *x == lo; b |= *x == hi; }
        check(all & a & b, "the range of the energies");
        reach("range");
    }
    fn h_sp_moments() {
        let (f, d) = (freqs(case(3)), dirs(case(4)));
        let (nk, nth) = (f.len(), d.len());
        let e = energies(nk * nth);
        let s = Spectra::new(f.clone(), d.clone(), e.clone(), conv(0));
        let (wf, wd) = (widths(&f), widths(&d));
        let at = |k: usize, t: usize| e[k + t * nk];
        for n in [-1, 0, 1, 2] {
            let m = s.mom_f(n);
            let mut ok = m.len() == nth;
            for t in 0..nth { let mut x = 0.0; for k in 0..nk { x += at(k, t) * wf[k] * f[k].powi(n); } ok &= near(m[t], x, 1e-6); }
            check(ok, "frequency moments");
        }
        for n in [0, 1, 2] {
            let m = s.mom_d(n);
            let mut ok = m.len() == nk;
            for k in 0..nk {
                let (mut x, mut y) = (0.0, 0.0);
                for t in 0..nth { x += at(k, t) * wd[t] * d[t].sin().powi(n); y += at(k, t) * wd[t] * d[t].cos().powi(n); }
                ok &= near(m[k].0, x, 1e-6) & near(m[k].1, y, 1e-6);
            }
            check(ok, "directional moments");
        }
        reach("moments");
    }
    fn h_sp_mean_direction() {
        // the mean direction of every frequency, from waves of at most two neighbouring bins
        exact(true);
        let c = case(3);
        let d = dirs(2);
        let (nk, nth) = (2, d.len());
        let j = case(nth);
        let both = case(2) == 1;
        let mut e = vec![0.0; nk * nth];
        for k in 0..nk { e[k + j * nk] = real(0.01, 100.0); if both { e[k + (j + 1) % nth * nk] = real(0.01, 100.0); } }
        let s = Spectra::new(vec![0.1, 0.11], d.clone(), e.clone(), conv(c));
        let m = s.mean_wave_direction_f();
        check(m.len() == nk, "one mean direction per frequency");
        let (a, b) = (heading(c, d[j] * 180.0 / PI), heading(c, d[(j + 1) % nth] * 180.0 / PI));
        let sign = if c == 2 { -1.0 } else { 1.0 };
        for k in 0..nk {
            // degrees past the first bin, in the sense of the convention
            let x = sign * (m[k] - a);
            let on = |x: f64| if both { near(x, 30.0, 30.0 + 1e-6) } else { near(x, 0.0, 1e-6) };
            check(on(x) | on(x + 360.0) | on(x - 360.0) | on(x + 720.0) | on(x - 720.0), "the mean direction lies among the directions of the waves");
            check(within(m[k], -1e-6, 360.0 + 1e-6), "the mean direction is on the compass");
        }
        let _ = b;
        reach("mean");
    }
    fn h_sp_index() {
        // different numbers of frequencies and directions
        let (nk, nth) = match case(tier(4, 9)) { 0 => (2, 4), 1 => (4, 2), 2 => (3, 3), 3 => (3, 5), 4 => (5, 3), 5 => (2, 7), 6 => (7, 2), 7 => (6, 7), _ => (7, 6) };
        let (mut f, mut d) = (vec![], vec![]);
        let (mut x, mut y) = (0.0, real(0.0, 0.2));
        for _ in 0..nk { x += real(0.01, 1.0); f.push(x); }
        for _ in 0..nth { d.push(y); y += real(0.1, 6.0 / nth as f64 - 0.1); }
        let s = Spectra::new(f.clone(), d.clone(), vec![0.0; nk * nth], conv(0));
        let top = if nk > nth { nk } else { nth };
        let k = case(top + 1) as i64 - 1;
        let q = real(k as f64, k as f64 + 0.999);
        let t = q - k as f64;
        let (v, w) = (s.ik(q), s.ith(q));
        let at = |u: &Vec<f64>| { let n = u.len(); if k < 0 { u[0] } else if k >= n as i64 - 1 { u[n - 1] } else { u[k as usize] * (1.0 - t) + u[k as usize + 1] * t } };
        check(near(v, at(&f), 1e-6), "frequency at a fractional index");
        check(near(w, at(&d), 1e-6), "direction at a fractional index");
        if t == 0.0 { reach("whole"); } else { reach("between"); }
    }
    fn h_sp_closest() {
        let (nk, nth) = match case(tier(4, 9)) { 0 => (2, 4), 1 => (4, 2), 2 => (3, 3), 3 => (3, 5), 4 => (5, 3), 5 => (2, 7), 6 => (7, 2), 7 => (6, 7), _ => (7, 6) };
        let (mut f, mut d) = (vec![], vec![]);
        let (mut x, mut y) = (0.0, real(0.0, 0.2));
        for _ in 0..nk { x += real(0.01, 1.0); f.push(x); }
        for _ in 0..nth { d.push(y); y += real(0.1, 6.0 / nth as f64 - 0.1); }
        let s = Spectra::new(f.clone(), d.clone(), vec![0.0; nk * nth], conv(0));
        let q = real(0.0, 10.0);
        let (a, b) = s.closest_k(q);
        let n = nk;
        check((a < n) & (b < n), "bins around a frequency exist");
        check(imp(q < f[0], (a == 0) & (b == 0)) & imp(q >= f[n - 1], (a == n - 1) & (b == n - 1)), "outside the frequencies the last bin counts");
        let mut ok = true;
        for i in 0..n - 1 { ok &= imp((f[i] <= q) & (q < f[i + 1]), (a == i) & (b == i + 1)); }
        check(ok, "a frequency lies between its bins");
        let r = real(0.0, 6.283);
        let (a, b) = s.closest_th(r);
        let n = nth;
        let mut ok = true;
        for i in 0..n - 1 { ok &= imp((d[i] <= r) & (r < d[i + 1]), (a == i) & (b == i + 1)); }
        check(ok, "a direction lies between its bins");
        check(imp((r < d[0]) | (r >= d[n - 1]), (a == n - 1) & (b == 0)), "directions wrap around");
        reach("closest");
    }
    fn h_sp_interp() {
        exact(true);
        let (f, d) = (freqs(case(2)), dirs(case(3)));
        let (nk, nth) = (f.len(), d.len());
        let e = energies(nk * nth);
        let s = Spectra::new(f.clone(), d.clone(), e.clone(), conv(0));
        let mut ok = true;
        for k in 0..nk { for t in 0..nth { ok &= near(s.interp_energy(f[k], d[t]), e[k + t * nk], 1e-6); } }
        check(ok, "exact at the bins");
        // some places in every cell, also across north and outside the frequencies
        let (u, v) = [(0.25, 0.5), (0.9, 0.125)][case(2)];
        let mut ok = true;
        for k in 0..nk - 1 { for t in 0..nth {
            let t2 = (t + 1) % nth;
            let gap = if t2 > t { d[t2] - d[t] } else { d[t2] + 2.0 * PI - d[t] };
            let mut dir = d[t] + v * gap;
            if dir >= 2.0 * PI { dir -= 2.0 * PI; }
            let x = s.interp_energy(f[k] + u * (f[k + 1] - f[k]), dir);
            let want = (e[k + t * nk] * (1.0 - u) + e[k + 1 + t * nk] * u) * (1.0 - v) + (e[k + t2 * nk] * (1.0 - u) + e[k + 1 + t2 * nk] * u) * v;
            ok &= near(x, want, 1e-6);
            if k == 0 {
                let w = e[t * nk] * (1.0 - v) + e[t2 * nk] * v;
                ok &= near(s.interp_energy(f[0] * 0.5, dir), w, 1e-6);
                let w = e[nk - 1 + t * nk] * (1.0 - v) + e[nk - 1 + t2 * nk] * v;
                ok &= near(s.interp_energy(f[nk - 1] * 1.5, dir), w, 1e-6);
            }
        } }
        check(ok, "bilinear between the four bins around, across north, constant outside the frequencies");
        reach("interpolated");
    }
    fn h_sp_interp_any() {
        // some energies, any place
        exact(true);
        let (f, d) = (freqs(case(2)), dirs(case(3)));
        let (nk, nth) = (f.len(), d.len());
        let e: Vec<f64> = (0..nk * nth).map(|i| ((i * 7 + 3) % 11) as f64).collect();
        let s = Spectra::new(f.clone(), d.clone(), e.clone(), conv(0));
        let k = case(2);
        let q = real(f[k], f[k + 1]);
        let t = case(3);
        let t2 = (t + 1) % nth;
        let r = if t2 > t { real(d[t], d[t2]) } else { let r = real(d[t], d[t2] + 2.0 * PI); if r >= 2.0 * PI { r - 2.0 * PI } else { r } };
        let x = s.interp_energy(q, r);
        let c = [e[k + t * nk], e[k + 1 + t * nk], e[k + t2 * nk], e[k + 1 + t2 * nk]];
        let lo = c.iter().cloned().fold(f64::INFINITY, f64::min);
        let hi = c.iter().cloned().fold(0.0, f64::max);
        check(within(x, lo - 1e-6, hi + 1e-6), "interpolated energy lies among the energies of the four bins around");
        reach("any");
    }
    fn h_sp_split_many() {
        // twelve components on a grid of five by six, the labels of two cells free
        let f: Vec<f64> = (0..5).map(|k| 0.05 + 0.01 * k as f64).collect();
        let d = dirs(2);
        let e = energies(30);
        let mut lab: Vec<i32> = (0..30).map(|i| (i * 7 % 12 + 1) as i32).collect();
        lab[4] = int(0, 12) as i32;
        lab[29] = int(0, 12) as i32;
        let l = [None, Some(3), Some(12), Some(13), Some(20)][case(5)];
        let s = Spectra::new(f, d, e.clone(), conv(2));
        let v = Spectra::split_from_components(&s, &(lab.clone(), 13), l);
        check(v.len() == l.unwrap_or(13), "as many of many components as asked for");
        let mut ok = true;
        for (c, p) in v.iter().enumerate() { for i in 0..30 { ok &= p.energy[i] == if lab[i] == c as i32 { e[i] } else { 0.0 }; } }
        check(ok, "each of many components carries its own energy");
        reach("many");
    }
    fn h_sp_closest_full() {
        // the axes of the models
        exact(true);
        let f: Vec<f64> = (0..29).map(|k| 0.035 * 1.07f64.powi(k as i32)).collect();
        let d: Vec<f64> = (0..36).map(|t| (t as f64 * 10.0 + 5.0) * PI / 180.0).collect();
        let e: Vec<f64> = (0..29 * 36).map(|i| ((i * 29) % 17) as f64).collect();
        let s = Spectra::new(f.clone(), d.clone(), e, conv(0));
        let at = case(12);
        let (i, j) = (at * 28 / 12, at * 35 / 11);
        let u = real(0.001, 0.999);
        let q = f[i] + u * (f[i + 1] - f[i]);
        check(s.closest_k(q) == (i, i + 1), "a frequency lies between its bins of a full axis");
        let r = d[j] + u * (if j < 35 { d[j + 1] } else { 6.283 } - d[j]);
        check(s.closest_th(r) == (j, if j < 35 { j + 1 } else { 0 }), "a direction lies between its bins of a full axis");
        let w = i as f64 + u;
        check(near(s.ik(w), f[i] * (1.0 - u) + f[i + 1] * u, 1e-6), "frequency at a fractional index of a full axis");
        if j < 35 { check(near(s.ith(j as f64 + u), d[j] * (1.0 - u) + d[j + 1] * u, 1e-6), "direction at a fractional index of a full axis"); }
        reach("full");
    }
    fn h_sp_split() {
        let (f, d) = (vec![0.1, 0.11], dirs(1));
        let n = 6;
        let k = case(3);
        let e = energies(n);
        let lab: Vec<i32> = (0..n).map(|_| int(0, k as i64) as i32).collect();
        let s = Spectra::new(f.clone(), d.clone(), e.clone(), conv(1));
        let parts = (lab.clone(), k + 1);
        let v = Spectra::split_from_components(&s, &parts, None);
        check(v.len() == k + 1, "one spectrum per component");
        let mut ok = true;
        let mut sum = vec![0.0; n];
        for (c, p) in v.iter().enumerate() {
            ok &= (p.energy.len() == n) & (p.nk() == 2) & (p.nth() == 3);
            for i in 0..n { ok &= p.energy[i] == if lab[i] == c as i32 { e[i] } else { 0.0 }; sum[i] += p.energy[i]; }
        }
        check(ok, "a component carries its own energy and nothing else");
        let mut ok = true;
        for i in 0..n { ok &= near(sum[i], e[i], 1e-9); }
        check(ok, "the components add up to the spectrum");
        let l = case(k + 4);
        let w = Spectra::split_from_components(&s, &parts, Some(l));
        let mut ok = w.len() == l;
        for c in 0..l { for i in 0..n { ok &= w[c].energy[i] == if lab[i] == c as i32 { e[i] } else { 0.0 }; } }
        check(ok, "a limit gives that many components, the first ones, empty beyond the last");
        let (a, b) = (s.direction_rad(), v[0].direction_rad());
        let mut ok = true;
        for i in 0..3 { ok &= a[i] == b[i]; }
        check(ok, "a component keeps the grid");
        reach("split");
    }
    fn h_sp_directions() {
        let c = case(3);
        let n = 3;
        let d: Vec<f64> = (0..n).map(|_| real(0.0, 6.28318)).collect();
        let f: Vec<f64> = (0..2).map(|_| real(0.01, 1.0)).collect();
        let s = Spectra::new(f.clone(), d.clone(), vec![0.0; 6], conv(c));
        let (g, r, w, p) = (s.direction_deg(), s.direction_rad(), s.direction_raw(), s.period());
        let mut ok = (g.len() == n) & (r.len() == n) & (w.len() == n) & (p.len() == 2);
        for i in 0..n {
            let x = g[i] - heading(c, d[i] * 180.0 / PI);
            ok &= near(x, 0.0, 1e-9) | near(x, 360.0, 1e-9) | near(x, -360.0, 1e-9);
            ok &= within(g[i], -1e-9, 360.0 + 1e-9) & near(r[i], g[i] * PI / 180.0, 1e-9) & (w[i] == d[i]);
        }
        check(ok, "directions are headings on the compass");
        check(near(p[0] * f[0], 1.0, 1e-9) & near(p[1] * f[1], 1.0, 1e-9), "periods are the reciprocal frequencies");
        reach("directions");
    }
    fn h_sp_regrid() {
        // back to the same bins, to bins below the range, and between the bins
        exact(true);
        let c = case(3);
        let f = [vec![0.05, 0.1], vec![0.04, 0.06, 0.1]][case(2)].clone();
        let d = dirs([1, 3][case(2)]);
        let (nk, nth) = (f.len(), d.len());
        // any energies in one direction, fixed ones in the others
        let j = case(nth);
        let mut e: Vec<f64> = (0..nk * nth).map(|i| ((i * 5 + 2) % 7) as f64).collect();
        for k in 0..nk { e[k + j * nk] = real(0.0, 100.0); }
        let s = Spectra::new(f.clone(), d.clone(), e.clone(), conv(c));
        let head: Vec<f64> = d.iter().map(|x| wrap(heading(c, x * 180.0 / PI))).collect();
        let g = s.interpolate_to_grid(&f, &head);
        check((g.nk() == nk) & (g.nth() == nth), "the target grid");
        let mut ok = g.energy.len() == nk * nth;
        for i in 0..nk * nth { ok &= near(g.energy[i], e[i], 1e-6); }
        check(ok, "the same bins keep their energy");
        let gd = g.direction_deg();
        let mut ok = true;
        for i in 0..nth { ok &= near(gd[i], head[i], 1e-6); }
        check(ok, "target directions are headings");
        let low = s.interpolate_to_grid(&[f[0] * 0.5, f[0] * 0.99], &head);
        check(low.energy.iter().all(|x| *x == 0.0), "nothing under the lowest frequency");
        let high = s.interpolate_to_grid(&[f[nk - 1] * [2.0, 5.0, 80.0][j]], &head);
        let mut ok = true;
        for i in 0..nth { ok &= near(high.energy[i], e[nk - 1 + i * nk], 1e-6); }
        check(ok, "over the highest frequency the last bin counts");
        reach("regrid");
    }
    fn h_sp_regrid_large() {
        // from 12 frequencies and 10 directions to other bins, one energy free
        exact(true);
        let c = case(3);
        let (nk, nth) = (12, 10);
        let f: Vec<f64> = (0..nk).map(|k| 0.04 * 1.15f64.powi(k as i32)).collect();
        // (directions one way or the other)
        let up = case(2) == 0;
        let d: Vec<f64> = (0..nth).map(|t| (if up { 8.0 + 36.0 * t as f64 } else { 350.0 - 36.0 * t as f64 }) * PI / 180.0).collect();
        let at = [(0, 0), (5, 4), (11, 9), (8, 6), (1, 9)][case(tier(3, 5))];
        let mut e: Vec<f64> = (0..nk * nth).map(|i| ((i * 13 + i / nk * 5) % 19) as f64).collect();
        let free = at.0 + at.1 * nk;
        e[free] = real(0.0, 100.0);
        let s = Spectra::new(f.clone(), d.clone(), e.clone(), conv(c));
        let head: Vec<f64> = d.iter().map(|x| wrap(heading(c, x * 180.0 / PI))).collect();
        // the targets are around the free bin and elsewhere
        let near_f = f[at.0];
        let tf = [f[0] * 0.7, near_f * 1.04, near_f * 1.3, f[nk - 1] * 6.0];
        let td = [wrap(head[at.1] + 10.0), wrap(head[at.1] - 25.0), wrap(head[at.1] + 170.0), 0.0];
        let g = s.interpolate_to_grid(&tf, &td);
        check(g.nk() == 4 && g.nth() == 4 && g.energy.len() == 16, "the target grid");
        if g.energy.len() != 16 { return; }
        let mut ok = true;
        for (t, h) in td.iter().enumerate() {
            // the directions next to the heading
            let (mut l, mut r) = (0, 0);
            for i in 0..nth {
                if wrap(h - head[i]) < wrap(h - head[l]) { l = i; }
                if wrap(head[i] - h) < wrap(head[r] - h) { r = i; }
            }
            for (k, x) in tf.iter().enumerate() {
                let v = g.energy[k + t * 4];
                if *x < f[0] { ok &= v == 0.0; continue; }
                let a = (0..nk).filter(|i| f[*i] <= *x).count() - 1;
                let b = (a + 1).min(nk - 1);
                let q = [e[a + l * nk], e[b + l * nk], e[a + r * nk], e[b + r * nk]];
                let (mut over, mut under) = (false, false);
                for y in q { over |= v <= y + 1e-6; under |= v >= y - 1e-6; }
                ok &= over & under;
            }
        }
        check(ok, "energy between the bins lies among the energies of the bins around");
        reach("large");
    }
    fn h_sp_regrid_between() {
        exact(true);
        let c = case(3);
        let f = vec![0.05, 0.1];
        let d = dirs([1, 3][case(2)]);
        let (nk, nth) = (f.len(), d.len());
        let j = case(nth);
        let mut e: Vec<f64> = (0..nk * nth).map(|i| ((i * 5 + 2) % 7) as f64).collect();
        for k in 0..nk { e[k + j * nk] = real(0.0, 100.0); }
        let s = Spectra::new(f.clone(), d.clone(), e.clone(), conv(c));
        // between the directions, or between the frequencies
        let (tf, td): (&[f64], &[f64]) = [(&[0.05][..], &[10.0][..]), (&[0.1], &[170.0]), (&[0.05], &[359.0]), (&[0.055, 0.07, 0.09], &[])][case(4)];
        let head: Vec<f64> = d.iter().map(|x| wrap(heading(c, x * 180.0 / PI))).collect();
        let g = s.interpolate_to_grid(tf, if td.len() > 0 { td } else { &head });
        let th: &[f64] = if td.len() > 0 { td } else { &head };
        let (mut all, mut bound) = (true, true);
        for (t, h) in th.iter().enumerate() {
            let (mut l, mut r) = (0, 0);
            for i in 0..nth {
                if wrap(h - head[i]) < wrap(h - head[l]) { l = i; }
                if wrap(head[i] - h) < wrap(head[r] - h) { r = i; }
            }
            for (k, x) in tf.iter().enumerate() {
                let v = g.energy[k + t * tf.len()];
                let a = (0..nk).filter(|i| f[*i] <= *x).count() - 1;
                let b = (a + 1).min(nk - 1);
                let q = [e[a + l * nk], e[b + l * nk], e[a + r * nk], e[b + r * nk]];
                let (mut over, mut under) = (false, false);
                for y in q { over |= v <= y + 1e-6; under |= v >= y - 1e-6; }
                all &= v >= 0.0;
                bound &= over & under;
            }
        }
        check(all, "no negative energy");
        check(bound, "energy between the bins lies among the energies of the bins around");
        reach("between");
    }
}
