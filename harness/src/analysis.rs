//! Interpolation on grids, peaks, neighbours and basins.
use crate::irs::*;
use surfrs::tools::analysis::*;
use surfrs::tools::interpolation::*;

/// regional maxima of a quantised grid that wraps vertically: a label per plateau without a higher neighbour, 0 elsewhere
pub fn plateaus(lv: &[i64], w: usize, h: usize) -> (Vec<usize>, usize) {
    let n = w * h;
    let mut lab = vec![0usize; n];
    let mut seen = vec![false; n];
    let mut k = 0;
    for s in 0..n {
        if seen[s] { continue; }
        let mut st = vec![s];
        let mut all = vec![];
        let mut top = true;
        seen[s] = true;
        while let Some(p) = st.pop() {
            all.push(p);
            for q in around(w, h, p) {
                if lv[q] < lv[p] { top = false; }
                if lv[q] == lv[p] && !seen[q] { seen[q] = true; st.push(q); }
            }
        }
        if top { k += 1; for p in all { lab[p] = k; } }
    }
    (lab, k)
}
pub fn around(w: usize, h: usize, p: usize) -> Vec<usize> {
    let (x, y) = (p % w, p / w);
    let mut v = vec![];
    for dy in [h - 1, 0, 1] {
        for dx in [-1i64, 0, 1] {
            let nx = x as i64 + dx;
            if nx < 0 || nx >= w as i64 { continue; }
            let q = ((y + dy) % h) * w + nx as usize;
            if q != p && !v.contains(&q) { v.push(q); }
        }
    }
    v
}
fn basins(w: usize, h: usize, a: usize, b: usize, steps: usize) {
    exact(true);
    let n = w * h;
    let mut d = vec![0.0; n];
    for i in 0..n { d[i] = if i == a { 1.0 } else if i == b { 0.0 } else { real(0.0, 1.0) }; }
    partitioned(&d, w, h, steps);
}
/// energies from 0 to 1
fn partitioned(d: &Vec<f64>, w: usize, h: usize, steps: usize) {
    let n = w * h;
    match watershed(d, w, h, steps, None) {
        Err(_) => check(false, "a grid of the right size is partitioned"),
        Ok((lab, count)) => {
            check(lab.len() == n, "one basin per cell");
            // the level of every cell: 1 for the highest energies
            let mut lv = vec![0i64; n];
            for i in 0..n {
                let mut l = 1;
                for s in 1..steps { let cut = 1.0 - (s as f64 - 0.5) / (steps as f64 - 1.0); if d[i] <= cut { l = s as i64 + 1; } }
                lv[i] = split(l);
            }
            let (top, k) = plateaus(&lv, w, h);
            check(count == k + 1, "as many basins as peaks");
            let mut ok = true;
            for i in 0..n { ok &= lab[i] >= 1 && lab[i] < count as i32; }
            check(ok, "every cell belongs to a basin");
            if !ok { return; }
            let mut name = vec![0i32; k + 1];
            let mut own = true;
            for i in 0..n { if top[i] > 0 { if name[top[i]] == 0 { name[top[i]] = lab[i]; } own &= name[top[i]] == lab[i]; } }
            check(own, "a peak lies in one basin");
            let mut distinct = true;
            for i in 1..=k { for j in 1..i { distinct &= name[i] != name[j]; } }
            check(distinct, "two peaks lie in two basins");
            // connected: every basin can be walked from its peak
            let mut seen = vec![false; n];
            let mut st: Vec<usize> = (0..n).filter(|i| top[*i] > 0).collect();
            for i in &st { seen[*i] = true; }
            while let Some(p) = st.pop() { for q in around(w, h, p) { if !seen[q] && lab[q] == lab[p] { seen[q] = true; st.push(q); } } }
            check(seen.iter().all(|s| *s), "every cell is connected with the peak of its basin");
            if k > 1 { reach("several basins"); } else { reach("one basin"); }
        }
    }
}

fn peaks(v: &Vec<f64>, delta: f64) {
    let n = v.len();
    let (mins, maxs) = detect_peaks(v, delta);
    check((mins.len() == maxs.len()) | (mins.len() + 1 == maxs.len()), "a peak comes first, then they alternate");
    let mut pts = vec![];
    for i in 0..maxs.len() { pts.push(maxs[i]); if i < mins.len() { pts.push(mins[i]); } }
    let mut order = true;
    for i in 1..pts.len() { order &= pts[i - 1] < pts[i]; }
    check(order & (pts.len() == 0 || pts[pts.len() - 1] < n), "peaks and troughs in order");
    if !order { return; }
    // between two extremes the series moves from one to the other without a swing back of more than delta
    let mut ok = true;
    let mut ext = true;
    let mut big = true;
    for s in 0..=pts.len() {
        let a = if s == 0 { 0 } else { pts[s - 1] };
        let b = if s == pts.len() { n } else { pts[s] + 1 };
        let rising = s % 2 == 0;
        for i in a..b {
            for j in i + 1..b { let d = if rising { v[i] - v[j] } else { v[j] - v[i] }; ok &= d <= delta; }
            if s < pts.len() { ext &= if rising { v[i] <= v[pts[s]] } else { v[i] >= v[pts[s]] }; }
            if s > 0 && s < pts.len() { ext &= if rising { v[i] >= v[a] } else { v[i] <= v[a] }; }
        }
        if s > 0 && s < pts.len() { let d = v[pts[s]] - v[a]; big &= if rising { d > delta } else { d < -delta }; }
    }
    check(ok, "no swing of more than the threshold is missed");
    check(ext, "extremes bound the stretch between them");
    check(big, "neighbouring extremes differ by more than the threshold");
    // a reported extreme is followed by a swing of more than the threshold
    if pts.len() > 0 {
        let l = pts[pts.len() - 1];
        let mut any = false;
        for i in l..n { let d = v[i] - v[l]; any |= if pts.len() % 2 == 1 { d < -delta } else { d > delta }; }
        check(any, "the last extreme is followed by a swing");
        reach("extreme");
    } else { reach("none"); }
}

harnesses! {
    fn h_an_lerp() {
        exact(true);
        let (x0, x1) = [(0.0, 1.0), (1.0, 2.0), (-3.0, 5.5), (355.0, 365.0), (2.0, -2.0), (0.04, 0.0402)][case(6)];
        let (a, b) = (real(-1e4, 1e4), real(-1e4, 1e4));
        let t = real(-20.0, 21.0);
        let x = x0 + t * (x1 - x0);
        let v = lerp(&a, &b, &x, &x0, &x1);
        check(near(v, a + (b - a) * t, 1e-6), "on the line through both points");
        check(imp((t == 0.0), near(v, a, 1e-9)) & imp((t == 1.0), near(v, b, 1e-9)), "exact at both points");
        let (lo, hi) = if a < b { (a, b) } else { (b, a) };
        check(imp((t >= 0.0) & (t <= 1.0), within(v, lo - 1e-6, hi + 1e-6)), "between both values inside");
        reach("line");
    }
    fn h_an_bilerp() {
        exact(true);
        let (x0, x1) = [(0.0, 1.0), (-71.25, -71.0), (3.0, 1.0)][case(3)];
        let (y0, y1) = [(0.0, 1.0), (41.5, 41.25), (2.0, 10.0)][case(3)];
        let v: Vec<f64> = (0..4).map(|_| real(-1e3, 1e3)).collect();
        // corners
        let at = |x: f64, y: f64| bilerp(&v[0], &v[1], &v[2], &v[3], &x, &x0, &x1, &y, &y0, &y1);
        check(near(at(x0, y0), v[0], 1e-6) & near(at(x1, y0), v[1], 1e-6) & near(at(x0, y1), v[2], 1e-6) & near(at(x1, y1), v[3], 1e-6), "exact at the corners");
        let t = real(0.0, 1.0);
        let k = [0.0, 0.125, 0.5, 0.9, 1.0][case(5)];
        let (x, y) = (x0 + t * (x1 - x0), y0 + k * (y1 - y0));
        let (l, r) = (v[0] * (1.0 - k) + v[2] * k, v[1] * (1.0 - k) + v[3] * k);
        check(near(at(x, y), l + (r - l) * t, 1e-5), "linear along x");
        let (x, y) = (x0 + k * (x1 - x0), y0 + t * (y1 - y0));
        let (l, r) = (v[0] * (1.0 - k) + v[1] * k, v[2] * (1.0 - k) + v[3] * k);
        check(near(at(x, y), l + (r - l) * t, 1e-5), "linear along y");
        reach("cell");
    }
    fn h_an_peaks() {
        exact(true);
        let n = case(tier(7, 10));
        let v: Vec<f64> = (0..n).map(|_| real(-100.0, 100.0)).collect();
        let delta = real(0.0, 50.0);
        peaks(&v, delta);
    }
    fn h_an_peaks_long() {
        // twenty-four values of which two are free
        exact(true);
        let n = 24;
        let c = case(4);
        let mut v: Vec<f64> = (0..n).map(|i| [((i * 7) % 13) as f64, i as f64 * 0.5, (i as f64 - 12.0) * (i as f64 - 12.0) * 0.3, if i % 10 < 5 { 3.0 } else { 1.0 }][c]).collect();
        let at = [0, 11, 22][case(3)];
        for i in [at, if c < 2 { at + 1 } else { (at + 9) % n }] { v[i] = real(-20.0, 40.0); }
        peaks(&v, [4.0, 0.75, 11.0, 1.5][c]);
    }
    fn h_an_neighbors() {
        let w = 2 + case(tier(4, 8));
        let h = 3 + case(tier(3, 6));
        let p = size(0, w * h - 1);
        let nb = nearest_neighbors(w, h, p);
        let (x, y) = ((p % w) as i64, (p / w) as i64);
        let edge = (x == 0) | (x == w as i64 - 1);
        check(imp(edge, nb.len() == 5) & imp(!edge, nb.len() == 8), "eight neighbours, five at the edges");
        let mut ok = true;
        for i in 0..nb.len() {
            let q = nb[i];
            let (qx, qy) = ((q % w) as i64, (q / w) as i64);
            let dx = qx - x;
            let dy = qy - y;
            let hh = h as i64;
            ok &= (q < w * h) & (dx >= -1) & (dx <= 1) & ((dy == 0) | (dy == 1) | (dy == -1) | (dy == hh - 1) | (dy == 1 - hh)) & ((dx != 0) | (dy != 0));
            for j in 0..i { ok &= nb[j] != q; }
        }
        check(ok, "every neighbour touches the cell, none twice");
        reach("neighbours");
    }
    fn h_an_basins() {
        // a peak of energy 1 and a cell of energy 0, the others any
        let (w, h, a, b) = [(2, 3, 0, 1), (2, 3, 0, 5), (3, 2, 0, 2), (3, 2, 4, 0), (2, 2, 0, 3), (5, 1, 0, 4), (5, 1, 2, 3), (1, 5, 0, 2)][case(8)];
        basins(w, h, a, b, 3);
    }
    fn h_an_basins_deep() {
        let (w, h, a, b) = [(3, 3, 0, 4), (3, 3, 4, 0), (2, 4, 0, 3), (4, 2, 0, 7), (6, 1, 0, 5), (1, 6, 2, 4)][case(6)];
        basins(w, h, a, b, 3);
    }
    fn h_an_blur() {
        // blurred before it is partitioned: every cell has a basin, every basin hangs together
        exact(true);
        let k = case(4);
        let (w, h, steps, blur) = [(6, 6, 20, 0.8f32), (9, 8, 100, 0.8), (5, 12, 40, 1.5), (10, 9, 100, 0.05)][k];
        let n = w * h;
        let mut d: Vec<f64> = (0..n).map(|i| { let (x, y) = (i % w, i / w); ((x * 5 + y * 3) % 11) as f64 / 10.0 }).collect();
        let at = [n / 2 + 1, 2, n - 1][case(3)];
        let c = (d[at] * 255.0).max(3.0).min(250.0).floor() / 255.0;
        d[at] = real(c + 0.01 / 255.0, c + 0.99 / 255.0);
        match watershed(&d, w, h, steps, Some(blur)) {
            Err(_) => check(false, "a grid of the right size is partitioned"),
            Ok((lab, count)) => {
                check(lab.len() == n, "one basin per cell");
                if lab.len() != n { return; }
                let mut size = vec![0usize; count];
                let mut ok = true;
                for i in 0..n { ok &= lab[i] >= 1 && lab[i] < count as i32; if ok { size[lab[i] as usize] += 1; } }
                check(ok, "every cell belongs to a basin");
                if !ok { return; }
                check((1..count).all(|b| size[b] > 0), "no basin without cells");
                let mut seen = vec![false; n];
                for b in 1..count as i32 {
                    let first = (0..n).find(|i| lab[*i] == b);
                    let Some(first) = first else { continue; };
                    let mut st = vec![first];
                    seen[first] = true;
                    while let Some(p) = st.pop() { for q in around(w, h, p) { if !seen[q] && lab[q] == b { seen[q] = true; st.push(q); } } }
                }
                check(seen.iter().all(|s| *s), "every basin hangs together");
                reach("blurred");
            }
        }
    }
    fn h_an_basins_large() {
        // grids with many peaks of which two cells are free within a few levels
        exact(true);
        let k = case(6);
        let (w, h, steps) = [(12, 10, 100), (10, 24, 40), (36, 8, 100), (7, 13, 200), (29, 12, 30), (20, 20, 255)][k];
        let n = w * h;
        let d: Vec<f64> = (0..n).map(|i| { let (x, y) = (i % w, i / w); match k { 0 => ((x * 5 + y * 3) % 17) as f64 / 16.0, 1 => ((x % 3) * (y % 4)) as f64 / 6.0, 2 => (1.0 + (x as f64 * 0.7).sin() * (y as f64 * std::f64::consts::PI / 4.0).cos()) * 0.5, 3 => ((i * 37) % n) as f64 / (n - 1) as f64, 4 => if x % 4 == 1 && y % 4 == 1 { 1.0 } else if (x + y) % 5 == 0 { 0.5 } else { 0.0 }, _ => if x % 2 == 1 && y % 2 == 1 { ((x * 20 + y) % 7 + 3) as f64 / 9.0 } else { 0.1 } } }).collect();
        let (lo, hi) = (d.iter().cloned().fold(f64::INFINITY, f64::min), d.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
        let mut d: Vec<f64> = d.iter().map(|x| (x - lo) / (hi - lo)).collect();
        let at = [n / 2, 0, n - w][case(3)];
        let free = |c: f64, m: f64| { let e = 1.0 / (steps as f64 - 1.0); let v = c + m * e; let v = if v < 2.0 * e { 2.0 * e } else if v > 1.0 - 2.0 * e { 1.0 - 2.0 * e } else { v }; real(v - e, v + e) };
        // (a highest and a lowest cell stay)
        let keep = |d: &Vec<f64>, i: usize| d.iter().enumerate().any(|(j, x)| j != i && *x == 1.0) && d.iter().enumerate().any(|(j, x)| j != i && *x == 0.0);
        if keep(&d, at) { let c = d[at]; d[at] = free(c, 1.0); }
        partitioned(&d, w, h, steps);
    }
    fn h_an_basins_wide() {
        // watersheds that are wider than a cell or two, one cell free within a few levels
        exact(true);
        let k = case(6);
        let (w, h) = [(16, 6), (3, 4), (4, 4), (3, 8), (4, 6), (24, 7)][k];
        let steps = [100, 10, 10, 10, 10, 30][k];
        let n = w * h;
        let mut d: Vec<f64> = [&[][..], &[4.0, 3.0, 0.0, 0.0, 2.0, 3.0, 3.0, 2.0, 0.0, 1.0, 1.0, 4.0], &[3.0, 2.0, 2.0, 3.0, 0.0, 3.0, 5.0, 4.0, 4.0, 1.0, 4.0, 4.0, 0.0, 2.0, 5.0, 4.0],
            &[3.0, 3.0, 4.0, 4.0, 3.0, 0.0, 0.0, 0.0, 2.0, 5.0, 3.0, 1.0, 1.0, 2.0, 5.0, 3.0, 3.0, 1.0, 2.0, 4.0, 3.0, 4.0, 0.0, 2.0], &[5.0, 2.0, 4.0, 1.0, 1.0, 3.0, 2.0, 1.0, 3.0, 0.0, 3.0, 2.0, 0.0, 1.0, 1.0, 5.0, 5.0, 2.0, 3.0, 3.0, 4.0, 2.0, 4.0, 5.0], &[]][k].to_vec();
        if d.len() == 0 {
            // two peaks and between them a ridge that falls off to the far end of the grid
            d = vec![0.0; n];
            d[w] = w as f64; d[3 * w] = w as f64;
            for i in 0..w - 3 { d[i + 2 * w] = (w - 1 - i) as f64; }
        }
        let hi = d.iter().cloned().fold(0.0, f64::max);
        let mut d: Vec<f64> = d.iter().map(|x| x / hi).collect();
        let e = 1.0 / (steps as f64 - 1.0);
        // (a cell of neither the highest nor the lowest energy, or a lowest one of many)
        let at = [[w - 2 + 4 * w, 5 + 2 * w], [4, 9], [1, 11], [8, 19], [5, 22], [w / 2 + 5 * w, 10 + 2 * w]][k][case(2)];
        let c = d[at];
        let v = if c == 0.0 { real(0.0, 2.0 * e) } else { real(c - e, c + e) };
        // (not right on the edge between two levels)
        let mut clear = true;
        for s in 1..steps { let cut = 1.0 - (s as f64 - 0.5) * e; clear &= (v < cut - 1e-9) | (v > cut + 1e-9); }
        assume(clear);
        d[at] = v;
        partitioned(&d, w, h, steps);
    }
    fn h_an_basins_shape() {
        let (w, h) = (size(1, 3), size(1, 3));
        let n = case(10);
        let d = vec![1.0; n];
        let ok = watershed(&d, w, h, 5, None).is_ok();
        check(ok == (w * h == n), "only grids of the announced size are partitioned");
        if ok { reach("size"); }
        else { reach("refused"); }
    }
    fn h_in_knots() {
        // any data at some spacings: exact at the knots, clamped outside
        exact(true);
        let x: &[f64] = [&[0.0, 1.0][..], &[0.0, 1.0, 2.0], &[-2.0, 0.5, 1.0], &[0.0, 1.0, 2.0, 3.0], &[0.0, 0.25, 4.0, 4.5], &[10.0, 30.0, 35.0, 90.0, 91.0]][case(tier(5, 6))];
        let y: Vec<f64> = x.iter().map(|_| real(-100.0, 100.0)).collect();
        let p = PchipInterpolator::new(x, &y);
        let mut ok = true;
        for i in 0..x.len() { ok &= near(p.interpolate(x[i]), y[i], 1e-9); }
        check(ok, "passes through its points");
        let all = p.interpolate_many(x);
        check(all.len() == x.len(), "a value for every place");
        let mut ok = true;
        for i in 0..x.len() { ok &= near(all[i], y[i], 1e-9); }
        check(ok, "passes through its points");
        let o = real(0.0, 1e4);
        check((p.interpolate(x[0] - o) == y[0]) & (p.interpolate(x[x.len() - 1] + o) == y[x.len() - 1]), "outside it keeps the boundary values");
        reach("knots");
    }
    fn h_in_between() {
        // any data, some places between the knots: no overshoot
        exact(true);
        let x: &[f64] = [&[0.0, 1.0][..], &[0.0, 1.0, 2.0], &[-2.0, 0.5, 1.0], &[0.0, 0.25, 4.0, 4.5]][case(tier(3, 4))];
        let t = [0.03125, 0.25, 0.5, 0.8125, 0.984375][case(tier(5, 5))];
        let y: Vec<f64> = x.iter().map(|_| real(-100.0, 100.0)).collect();
        let p = PchipInterpolator::new(x, &y);
        for i in 1..x.len() {
            let v = p.interpolate(x[i - 1] + t * (x[i] - x[i - 1]));
            let (lo, hi) = if y[i - 1] < y[i] { (y[i - 1], y[i]) } else { (y[i], y[i - 1]) };
            check(within(v, lo - 1e-6, hi + 1e-6), "between the values of its neighbours");
        }
        reach("between");
    }
    fn h_in_sweep() {
        // some data, any place: no overshoot, monotone where the data are
        exact(true);
        let x = [0.0, 1.0, 1.5, 4.0];
        let y: [f64; 4] = [[0.0, 1.0, 2.0, 3.0], [0.0, 0.01, 5.0, 5.01], [3.0, 3.0, 1.0, 0.0], [0.0, 10.0, 0.0, 10.0], [-1.0, -1.0, -1.0, 7.0], [9.0, 8.9, 0.1, 0.0]][case(tier(6, 6))];
        let p = PchipInterpolator::new(&x, &y);
        let k = 1 + case(3);
        let a = real(x[k - 1], x[k]);
        let v = p.interpolate(a);
        let (lo, hi) = if y[k - 1] < y[k] { (y[k - 1], y[k]) } else { (y[k], y[k - 1]) };
        check(within(v, lo - 1e-6, hi + 1e-6), "never beyond the values around it");
        reach("sweep");
    }
    fn h_in_long() {
        // twelve uneven points, any place of every segment
        exact(true);
        let x = [-3.35, -3.25, -3.1, -2.9, -2.6, -2.2, -1.9, -1.85, -1.6, -1.2, -1.0, -0.1];
        let y: [f64; 12] = [[0.0, 0.1, 0.4, 2.0, 7.0, 7.0, 6.5, 3.0, 3.1, 1.0, 0.2, 0.0], [0.0, 5.0, 0.0, 5.0, 0.0, 5.0, 5.0, 5.0, 4.0, 1e-3, 1e-3, 9.0], [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 11.0, 12.0]][case(3)];
        let k = 1 + case(11);
        let p = PchipInterpolator::new(&x, &y);
        let mut ok = true;
        for i in 0..12 { ok &= near(p.interpolate(x[i]), y[i], 1e-9); }
        check(ok, "passes through all of its points");
        let v = p.interpolate(real(x[k - 1], x[k]));
        let (lo, hi) = if y[k - 1] < y[k] { (y[k - 1], y[k]) } else { (y[k], y[k - 1]) };
        check(within(v, lo - 1e-6, hi + 1e-6), "never beyond the values around it, with many points");
        // around the circle in steps of 15 degrees
        let d: Vec<f64> = (0..24).map(|i| 7.5 + 15.0 * i as f64).collect();
        let z: Vec<f64> = (0..24).map(|i| [((i * 5) % 11) as f64, y[i % 12], if i == 23 || i == 0 { 6.0 } else { 0.0 }][k % 3]).collect();
        let i = k * 2 + 1;
        let a = real(d[i], d[i] + 15.0);
        let v = circular_pchip_interpolate(&d, &z, if i == 23 { let b = a - 360.0; if b < 0.0 { a } else { b } } else { a });
        let (l, r) = (z[i], z[(i + 1) % 24]);
        let (lo, hi) = if l < r { (l, r) } else { (r, l) };
        check(within(v, lo - 1e-6, hi + 1e-6), "between its neighbours around the circle, with many directions");
        reach("long");
    }
    fn h_in_circular() {
        exact(true);
        let d: &[f64] = [&[0.0, 90.0, 180.0, 270.0][..], &[10.0, 100.0, 250.0], &[45.0, 300.0], &[120.0]][case(tier(4, 4))];
        let n = d.len();
        let v: Vec<f64> = d.iter().map(|_| real(0.0, 100.0)).collect();
        let mut ok = true;
        for i in 0..n { ok &= near(circular_pchip_interpolate(d, &v, d[i]), v[i], 1e-9); }
        check(ok, "passes through its points around the circle");
        check(near(circular_pchip_interpolate(d, &v, 0.0), circular_pchip_interpolate(d, &v, 360.0), 1e-6), "the same at 0 and 360 degrees");
        let t = [0.125, 0.5, 0.8][case(3)];
        for i in 0..n {
            let j = (i + 1) % n;
            let gap = if j > i { d[j] - d[i] } else { d[j] + 360.0 - d[i] };
            let mut at = d[i] + t * gap;
            if at >= 360.0 { at -= 360.0; }
            let r = circular_pchip_interpolate(d, &v, at);
            let (lo, hi) = if v[i] < v[j] { (v[i], v[j]) } else { (v[j], v[i]) };
            check(within(r, lo - 1e-6, hi + 1e-6), "between the values of its neighbours around the circle");
        }
        reach("circle");
    }
}
