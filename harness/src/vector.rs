//! Array helpers.
use crate::irs::*;
use surfrs::tools::linspace::linspace;
use surfrs::tools::math::*;
use surfrs::tools::vector::*;

fn perm_sorted_stable<T: PartialOrd>(v: &[T], ix: &[usize]) -> bool {
    let n = v.len();
    let mut ok = ix.len() == n;
    let mut seen = vec![false; n];
    for i in ix { ok &= *i < n && !seen[*i]; if *i < n { seen[*i] = true; } }
    if ok { for k in 1..n { ok &= (v[ix[k - 1]] < v[ix[k]]) | ((v[ix[k - 1]] == v[ix[k]]) & (ix[k - 1] < ix[k])); } }
    ok
}

harnesses! {
    fn h_vec_argsort() {
        let n = case(tier(6, 7));
        let v: Vec<f64> = (0..n).map(|_| real(-1e6, 1e6)).collect();
        check(perm_sorted_stable(&v, &argsort_partial(&v)), "sorted order of doubles, ties in place");
        reach("doubles");
    }
    fn h_vec_argsort_int() {
        let n = case(tier(6, 7));
        let v: Vec<i64> = (0..n).map(|_| int(-1000, 1000)).collect();
        check(perm_sorted_stable(&v, &argsort(&v)), "sorted order of integers, ties in place");
        reach("integers");
    }
    fn h_vec_argsort_long() {
        // a long series with many ties, two of its values free
        let n = tier(40, 64);
        let p = case(tier(3, 8)) * 7 + 2;
        let base = |i: usize| ((i * 7) % 5) as i64;
        let (x, y) = (int(-1, 5), int(-1, 5));
        let k: Vec<i64> = (0..n).map(|i| if i == p { x } else if i == n - 1 - p { y } else { base(i) }).collect();
        check(perm_sorted_stable(&k, &argsort(&k)), "sorted order of a long series of integers, ties in place");
        let z = real(-1.0, 5.0);
        let v: Vec<f64> = (0..n).map(|i| if i == p { z } else { base(i) as f64 }).collect();
        check(perm_sorted_stable(&v, &argsort_partial(&v)), "sorted order of a long series of doubles, ties in place");
        reach("long");
    }
    fn h_vec_diff() {
        let n = 2 + case(tier(7, 23));
        let v: Vec<f64> = (0..n).map(|_| real(-1e6, 1e6)).collect();
        let d = diff(&v);
        let a = diff_abs(&v);
        check((d.len() == n) & (a.len() == n), "one bandwidth per value");
        let mut ok = d[0] == d[1];
        let mut abs = a[0] == a[1];
        for i in 1..n { let w = v[i] - v[i - 1]; ok &= d[i] == w; abs &= a[i] == if w < 0.0 { -w } else { w }; }
        check(ok, "differences of neighbours, the first repeated");
        check(abs, "absolute differences");
        let k: Vec<i64> = (0..n).map(|_| int(-1000, 1000)).collect();
        let e = diff(&k);
        let mut ok = (e.len() == n) && (e[0] == k[1] - k[0]);
        for i in 1..n { ok &= e[i] == k[i] - k[i - 1]; }
        check(ok, "differences of integers");
        reach("diff");
    }
    fn h_vec_minmax() {
        let n = 1 + case(tier(6, 10));
        let missing = case(n + 1);
        let mut v: Vec<f64> = (0..n).map(|_| real(-1e6, 1e6)).collect();
        if missing < n { v[missing] = f64::NAN; }
        let fill = real(-1e6, 1e6);
        let (lo, hi) = min_max(&v);
        let mut w = v.clone();
        let (lo2, hi2) = min_max_fill(&mut w, fill);
        let mut all = true;
        let mut has = (false, false);
        let mut kept = true;
        for i in 0..n {
            if i == missing { kept &= w[i] == fill; continue; }
            all &= (lo <= v[i]) & (v[i] <= hi);
            has.0 |= v[i] == lo;
            has.1 |= v[i] == hi;
            kept &= w[i] == v[i];
        }
        check(all, "range covers every value");
        check(kept, "filling replaces the missing values only");
        if n > 1 || missing == n {
            check(has.0 & has.1, "range is attained");
            check((lo2 == lo) & (hi2 == hi), "filling reports the range of the present values");
            reach("range");
        }
    }
    fn h_vec_bin() {
        exact(true);
        let min = real(-100.0, 100.0);
        let width = real(0.5, 200.0);
        let max = min + width;
        let bins = [1u8, 2, 7, 64, 255][case(5)];
        let x = real(-400.0, 400.0);
        let y = real(-400.0, 400.0);
        let b = bin(&[x, y], &min, &max, &bins);
        let u = unbin(&b, &min, &max, &bins);
        check((b.len() == 2) & (u.len() == 2), "one code per value");
        check(imp((x <= y), b[0] <= b[1]), "codes keep the order");
        let inside = (min <= x) & (x <= max);
        check(imp(inside, (b[0] <= bins) & within(x - u[0], -1e-6, width / bins as f64 + 1e-6)), "a value is restored within one step");
        let top = unbin(&bin(&[max], &min, &max, &bins), &min, &max, &bins);
        check(near(top[0], max, 1e-6), "the end of the range is restored");
        check(imp(x <= min, b[0] == 0), "values under the range take the lowest code");
        reach("binned");
    }
    fn h_vec_linspace_long() {
        exact(true);
        let n = [64, 300, 1001][case(tier(2, 3))];
        let (a, b) = (real(-1e6, 1e6), real(-1e6, 1e6));
        let v: Vec<f64> = linspace(a, b, n).collect();
        let w: Vec<f64> = linspace(a, b, n).rev().collect();
        let mut ok = (v.len() == n) & (w.len() == n);
        for i in 0..n { let t = i as f64 / (n as f64 - 1.0); ok &= near(v[i], a + (b - a) * t, 1e-6) & near(w[n - 1 - i], a + (b - a) * t, 1e-6); }
        check(ok, "many values evenly spaced");
        reach("long");
    }
    fn h_vec_linspace() {
        let n = case(tier(10, 40));
        let (a, b) = (real(-1e6, 1e6), real(-1e6, 1e6));
        let v: Vec<f64> = linspace(a, b, n).collect();
        check(v.len() == n, "as many values as asked for");
        check(linspace(a, b, n).len() == n, "length known in advance");
        let mut ok = true;
        for i in 0..n { let t = if n > 1 { i as f64 / (n as f64 - 1.0) } else { 0.0 }; ok &= near(v[i], a * (1.0 - t) + b * t, 1e-6); }
        check(ok, "evenly spaced from the first to the last");
        let mut w: Vec<f64> = linspace(a, b, n).rev().collect();
        w.reverse();
        let mut same = w.len() == n;
        for i in 0..n { same &= w[i] == v[i]; }
        check(same, "the same from both ends");
        reach("linspace");
    }
    fn h_vec_missing() {
        let miss = [9999.0, 999.0, 99.0, 0.0][case(4)];
        let v = real(-20000.0, 20000.0);
        let r = is_some_missing(v, miss);
        let far = (v - miss > 1e-4) | (v - miss < -1e-4);
        match r {
            None => { check(!far, "a value that is present is kept"); reach("missing"); }
            Some(w) => { check((w == v) & ((v - miss > 1e-6) | (v - miss < -1e-6)), "the missing marker is removed, values pass unchanged"); reach("present"); }
        }
    }
    fn h_vec_uv() {
        exact(true);
        let (u, v) = (real(-100.0, 100.0), real(-100.0, 100.0));
        let (s, a) = scalar_from_uv(u, v);
        check((s >= 0.0) & near(s * s, u * u + v * v, 1e-6), "speed is the length of the vector");
        check((a >= 0) & (a < 360), "heading on the compass");
        // the direction the vector comes from: 270 degrees less its mathematical angle
        let d = a as f64 - (270.0 - v.atan2(u).to_degrees());
        check(near(d, 0.0, 1.0) | near(d, -360.0, 1.0) | near(d, 360.0, 1.0), "the direction the vector comes from");
        check(imp((u > 1e-3) & (v > 1e-3), (a >= 179) & (a <= 270)), "to the north east comes from the south west");
        check(imp((u > 1e-3) & (v < -1e-3), ((a >= 269) & (a < 360)) | (a == 0)), "to the south east comes from the north west");
        check(imp((u < -1e-3) & (v > 1e-3), (a >= 89) & (a <= 180)), "to the north west comes from the south east");
        check(imp((u < -1e-3) & (v < -1e-3), ((a >= 0) & (a <= 90)) | (a >= 359)), "to the south west comes from the north east");
        reach("heading");
    }
}
