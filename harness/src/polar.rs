//! The polar picture of a spectrum and outlines of its regions.
use crate::irs::*;
use crate::spectra::*;
use surfrs::spectra::*;
use surfrs::tools::contour::*;
use surfrs::units::*;
use std::f64::consts::PI;

fn rad(d: &[f64]) -> Vec<f64> { d.iter().map(|x| x * PI / 180.0).collect() }

/// place of a bin in a picture: north up, east right, long periods outside
fn place(size: usize, period: f64, longest: f64, e: i32, dir: f64) -> (f64, f64) {
    let q = period / longest;
    let r = (size / 2) as f64 * match e { 1 => q, 2 => q * q, _ => q * q * q };
    let a = (dir - 90.0) * PI / 180.0;
    ((size / 2) as f64 + r * a.cos(), (size / 2) as f64 + r * a.sin())
}

harnesses! {
    fn h_po_period() {
        // any period of one frequency, fixed directions
        exact(true);
        let k = case(5);
        let size = [3, 4, 5, 6, 2][k];
        let dirs: &[f64] = [&[0.0, 90.0, 180.0, 270.0][..], &[45.0, 200.0], &[10.0, 130.0, 250.0], &[300.0, 30.0, 120.0], &[80.0]][k];
        let per = [16.0, real(2.0, 15.0)];
        let e = [1, 1, 2, 1, 3][k];
        let limit = [None, Some(20.0), None, Some(16.0), Some(15.5)][k];
        let f: Vec<f64> = per.iter().map(|p| 1.0 / p).collect();
        let s = Spectra::new(f, rad(dirs), vec![0.0; 2 * dirs.len()], conv(k % 3));
        let m = s.compute_cartesian_projection_map(size, limit, if e == 1 && k > 0 { None } else { Some(e as f64) });
        check(m.size == size && m.indices.len() == size * size, "a pixel for every place");
        let longest = limit.unwrap_or(16.0);
        let at: Vec<(f64, f64)> = (0..2 * dirs.len()).map(|i| place(size, per[i % 2], longest, e, heading(k % 3, dirs[i / 2]))).collect();
        for (i, ix) in m.indices.iter().enumerate() {
            let ix = match ix { Some(x) => *x, None => { check(false, "every pixel has a bin"); return; } };
            check(ix < at.len(), "bins of the spectrum");
            check(per[ix % 2] <= longest, "bins above the period limit are left out");
            let (x, y) = ((i % size) as f64, (i / size) as f64);
            let q = |p: (f64, f64)| (x - p.0) * (x - p.0) + (y - p.1) * (y - p.1);
            let mut ok = true;
            for j in 0..at.len() { if limit.is_none() || j % 2 == 1 || limit.unwrap() >= 16.0 { ok = ok & (q(at[ix]) <= q(at[j]) + 1e-6); } }
            check(ok, "a pixel shows the bin nearest to it");
        }
        reach("picture");
    }
    fn h_po_turn() {
        // any direction of one bin
        exact(true);
        let k = case(72);
        let size = 4;
        let t = real(1e-6, 15.0 - 1e-6) + 15.0 * (k / 3) as f64;
        let a = t * PI / 180.0;
        let s = Spectra::new(vec![0.1], vec![a, 2.0 * PI * 0.6], vec![0.0; 2], conv(k % 3));
        let m = s.compute_cartesian_projection_map(size, None, None);
        let at = [place(size, 10.0, 10.0, 1, heading(k % 3, t)), place(size, 10.0, 10.0, 1, heading(k % 3, 216.0))];
        for (i, ix) in m.indices.iter().enumerate() {
            let ix = match ix { Some(x) => *x, None => { check(false, "every pixel has a bin"); return; } };
            let (x, y) = ((i % size) as f64, (i / size) as f64);
            let q = |p: (f64, f64)| (x - p.0) * (x - p.0) + (y - p.1) * (y - p.1);
            check(q(at[ix]) <= q(at[1 - ix]) + 0.01, "a pixel shows the bin nearest to it");
        }
        reach("picture");
    }
    fn h_po_large() {
        // pictures of many pixels and bins with some free values
        exact(true);
        let k = case(5);
        let size = [21, 30, 17, 24, 40][k];
        let (nk, nth) = [(10, 24), (15, 12), (6, 36), (25, 8), (12, 16)][k];
        let e = [1, 2, 1, 3, 1][k];
        let per: Vec<f64> = (0..nk).map(|i| 1.0 / (0.04 * 1.1f64.powi(i as i32))).collect();
        let dirs: Vec<f64> = (0..nth).map(|t| { let d = 360.0 * t as f64 / nth as f64 + 3.0; if k % 2 == 1 { 360.0 - d } else { d } }).collect();
        let limit = [None, Some(18.0), Some(30.0), None, Some(per[3])][k];
        let s = Spectra::new(per.iter().map(|p| 1.0 / p).collect(), rad(&dirs), vec![0.0; nk * nth], conv(k % 3));
        let free = [0, nk + 3, nk * nth / 2 + 4, nk * nth - 1];
        let target: Vec<f64> = (0..nk * nth).map(|i| if free.contains(&i) { real(0.0, 100.0) } else { (i % 97) as f64 }).collect();
        let scale = if e == 1 { None } else { Some(e as f64) };
        let m = s.compute_cartesian_projection_map(size, limit, scale);
        let p = s.project_cartesian(&target, size, limit, scale);
        let q = s.project_cartesian_with_map(&target, &m);
        check(p.len() == size * size && q.len() == size * size && m.size == size, "a value for every pixel");
        if p.len() != size * size || q.len() != size * size { return; }
        let longest = limit.unwrap_or(per[0]);
        let kept = |i: usize| 1.0 / (1.0 / per[i % nk]) <= longest;
        let at: Vec<(f64, f64)> = (0..nk * nth).map(|i| place(size, per[i % nk], longest, e, heading(k % 3, dirs[i / nk]))).collect();
        let (mut near_one, mut mine) = (true, true);
        for i in 0..size * size {
            let (x, y) = ((i % size) as f64, (i / size) as f64);
            let far = |p: (f64, f64)| (x - p.0) * (x - p.0) + (y - p.1) * (y - p.1);
            let Some(j) = m.indices[i] else { check(false, "every pixel has a bin"); return; };
            if j >= at.len() || !kept(j) { check(false, "bins above the period limit are left out"); return; }
            let best = (0..at.len()).filter(|j| kept(*j)).map(|j| far(at[j])).fold(f64::INFINITY, f64::min);
            near_one &= far(at[j]) <= best + 1e-6;
            mine &= (p[i] == target[j]) & (q[i] == target[j]);
        }
        check(near_one, "a pixel of a large picture shows the bin nearest to it");
        check(mine, "a pixel of a large picture has the value of its bin");
        reach("large");
    }
    fn h_po_values() {
        let k = case(4);
        let n = [2, 3, 4, 6][k];
        let size = 3;
        let dirs: Vec<f64> = (0..n).map(|i| 360.0 * i as f64 / n as f64 + 7.0).collect();
        let s = Spectra::new(vec![0.05, 0.1, 0.2], rad(&dirs), vec![0.0; 3 * n], conv(k % 3));
        let target: Vec<f64> = (0..3 * n).map(|_| real(0.0, 100.0)).collect();
        let limit = [None, Some(12.0), Some(20.0), Some(3.0)][k];
        let m = s.compute_cartesian_projection_map(size, limit, None);
        let p = s.project_cartesian(&target, size, limit, None);
        let q = s.project_cartesian_with_map(&target, &m);
        check(p.len() == size * size && q.len() == size * size, "a value for every pixel");
        for i in 0..size * size {
            match m.indices[i] {
                Some(j) => check((p[i] == target[j]) & (q[i] == target[j]), "a pixel has the value of its bin"),
                None => { check(k == 3 && p[i].is_nan() && q[i].is_nan(), "only pictures without bins have no values"); reach("empty"); }
            }
        }
        reach("values");
    }
    fn h_po_outline() {
        exact(true);
        let k = case(12);
        let (w, h) = (4, 3);
        let (cx, cy) = (k % w, k / w);
        let (lng, lat) = [((10.0, 14.0), (40.0, 43.0)), ((-72.0, -71.0), (42.0, 41.0)), ((170.0, 190.0), (-10.0, 20.0))][k % 3];
        let low = real(-5.0, 1.0);
        let high = real(2.0, 10.0);
        let other = real(-5.0, 1.0);
        let data: Vec<f64> = (0..w * h).map(|i| if i == k { high } else if i == (k + 1) % 12 { low } else if i == (k + 5) % 12 { other } else { 0.5 }).collect();
        let top = [3.0, 1.5, 2.0][k % 3];
        let label = |i: &usize, t: &f64| format!("{i}");
        let r = compute_latlng_gridded_contours(data, w, h, lng.0, lng.1, lat.0, lat.1, Some(1.5), Some(top + 1.0), Some(2), Some(label));
        let r = match r { Ok(r) => r, Err(_) => { check(false, "a grid has contours"); return; } };
        check(r.len() == 2, "an outline per level");
        let place = |x: f64, y: f64| (lng.0 + (lng.1 - lng.0) * x / w as f64, lat.0 + (lat.1 - lat.0) * y / h as f64);
        for (n, f) in r.iter().enumerate() {
            let level = if n == 0 { 1.5 } else { top + 1.0 };
            let p = f.properties.as_ref().unwrap();
            check(near(p["threshold"].as_f64().unwrap(), level, 1e-9) & near(p["normalized"].as_f64().unwrap(), n as f64, 1e-9), "levels");
            check(p["label"].as_str() == Some(["0", "1"][n]), "labels");
            let coords = match &f.geometry.as_ref().unwrap().value { geojson::Value::MultiPolygon(c) => c.clone(), _ => { check(false, "polygons"); return; } };
            if coords.len() == 0 { check(high <= level, "a cell above the level has an outline"); reach("below"); continue; }
            check(high >= level, "no outlines below the level");
            check(coords.len() == 1 && coords[0].len() == 1, "one outline of one cell");
            let c = place(cx as f64 + 0.5, cy as f64 + 0.5);
            let (a, b) = (place(cx as f64 - 0.5, cy as f64 - 0.5), place(cx as f64 + 1.5, cy as f64 + 1.5));
            let mut all = true;
            let (mut left, mut right, mut up, mut down) = (false, false, false, false);
            let e = 1e-6;
            let (sx, sy) = (if b.0 > a.0 { 1.0 } else { -1.0 }, if b.1 > a.1 { 1.0 } else { -1.0 });
            for q in &coords[0][0] {
                all = all & (q.len() == 2) & within(sx * q[0], sx * a.0 - e, sx * b.0 + e) & within(sy * q[1], sy * a.1 - e, sy * b.1 + e);
                left = left | (sx * q[0] <= sx * c.0 + e);
                right = right | (sx * q[0] >= sx * c.0 - e);
                up = up | (sy * q[1] <= sy * c.1 + e);
                down = down | (sy * q[1] >= sy * c.1 - e);
            }
            check(all, "an outline stays around its cell");
            check(left & right & up & down, "an outline surrounds its cell");
            reach("outline");
        }
    }
    fn h_po_globe() {
        exact(true);
        let k = case(7);
        let (w, h) = if k == 4 { (720, 1) } else if k > 4 { (4, 5) } else { (4, 2) };
        let row = if k == 5 { 3 } else { 2 };
        let at = [0, 1, 3, 2, 0, 0, 0][k];
        let high = real(2.0, 10.0);
        // the high cells: both rows of the small grid, the one of the fine grid, one row of the tall grid
        let data: Vec<f64> = (0..w * h).map(|i| if i % w == at && (k < 5 || i / w == row) { high } else { 0.5 }).collect();
        let r = compute_latlng_gridded_contours(data, w, h, 0.0, if k == 4 { 359.5 } else { 360.0 }, -10.0, 10.0, Some(1.0), Some(3.0), Some(2), None::<fn(&usize, &f64) -> String>);
        let r = match r { Ok(r) => r, Err(_) => { check(false, "a grid has contours"); return; } };
        check(r.len() == 2, "an outline per level");
        let f = &r[0];
        let coords = match &f.geometry.as_ref().unwrap().value { geojson::Value::MultiPolygon(c) => c.clone(), _ => { check(false, "polygons"); return; } };
        check(coords.len() == if at == 0 { 2 } else { 1 }, "the first column is drawn at both ends of a map of the globe");
        let (mut lo, mut hi) = (false, false);
        let step = if k == 4 { 0.5 } else { 90.0 };
        let mut all = true;
        for p in &coords { for q in &p[0] {
            let (a, b) = (within(q[0], step * (at as f64 - 0.5) - 1e-6, step * (at as f64 + 1.5) + 1e-6), within(q[0], 360.0 - 0.5 * step - 0.51, 360.0 + step + 1e-6));
            all = all & (a | ((at == 0) & b)) & within(q[1], if k < 5 { -10.0 } else { -10.0 + 4.0 * (row as f64 - 0.5) - 1e-6 }, if k < 5 { 10.0 } else { -10.0 + 4.0 * (row as f64 + 1.5) + 1e-6 });
            lo = lo | a;
            hi = hi | b;
        } }
        check(all, "outlines stay around their cells");
        check(lo & (hi | (at != 0)), "the first column is drawn at both ends of a map of the globe");
        reach("globe");
    }
    fn h_po_spectrum() {
        exact(true);
        let k = case(9);
        let (nk, nth) = (5, 4);
        let (ik, it) = (k % 3 + 1, k / 3);
        let f = vec![0.05, 0.08, 0.1, 0.16, 0.25];
        let dirs = [20.0, 60.0, 110.0, 140.0];
        let high = real(5.0, 90.0);
        let e: Vec<f64> = (0..nk * nth).map(|i| if i == ik + it * nk { high } else { 0.01 }).collect();
        let s = Spectra::new(f.clone(), rad(&dirs), e, conv(k % 3));
        let r = match s.contoured() { Ok(geojson::GeoJson::FeatureCollection(r)) => r.features, _ => { check(false, "a spectrum has contours"); return; } };
        check(r.len() == 10, "ten levels");
        let mut n = 0;
        for (l, f1) in r.iter().enumerate() {
            let t = f1.properties.as_ref().unwrap()["threshold"].as_f64().unwrap();
            check(near(t, 0.1 + (high - 0.1) * l as f64 / 9.0, 1e-6), "levels from a tenth to the highest energy");
            let coords = match &f1.geometry.as_ref().unwrap().value { geojson::Value::MultiPolygon(c) => c.clone(), _ => { check(false, "polygons"); return; } };
            if l < 9 { check(coords.len() == 1, "a peak has an outline"); }
            let mut all = true;
            // headings between those of the neighbours
            let (a, b) = (if it == 0 { 20.0 } else { dirs[it - 1] }, dirs[(it + 2).min(3)]);
            let turn = |x: f64| if k % 3 == 2 { 270.0 - x } else if k % 3 == 1 { x + 180.0 } else { x };
            let (lo, hi) = (turn(a).min(turn(b)), turn(a).max(turn(b)));
            for p in &coords { for q in &p[0] {
                all = all & within(q[0], 1.0 / f[(ik + 2).min(4)] - 1e-6, 1.0 / f[ik - 1] + 1e-6) & within(q[1], lo - 1e-4, hi + 1e-4);
            } n += 1; }
            check(all, "outlines are around their bins");
        }
        check(n >= 9, "a peak has an outline");
        reach("spectrum");
    }
}
