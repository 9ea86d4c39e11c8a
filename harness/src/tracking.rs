//! Swell components followed through time.
use crate::irs::*;
use chrono::{DateTime, Utc};
use surfrs::swell::*;
use surfrs::tools::waves::*;
use surfrs::units::*;
use std::f64::consts::PI;

type Step = (DateTime<Utc>, Vec<Swell>);
const START: i64 = 1_700_000_000;

fn part(deg: i32, period: f64, height: f64, id: Option<usize>) -> Swell {
    let mut d = Direction::from_degrees(0);
    d.degrees = deg;
    Swell::new(&UnitSystem::Metric, height, period, d, Some(1.0), Some(2.0), id)
}
fn at(t: i64) -> DateTime<Utc> { DateTime::<Utc>::from_timestamp(START + t, 0).unwrap() }
fn deg(s: &Swell) -> i64 { s.direction.value.as_ref().unwrap().degrees as i64 }
fn per(s: &Swell) -> f64 { s.period.value.unwrap() }
/// angle between two headings
fn apart(a: i64, b: i64) -> i64 { let d = if a > b { a - b } else { b - a }; if d > 180 { 360 - d } else { d } }
fn dist(a: f64, b: f64) -> f64 { if a > b { a - b } else { b - a } }
fn cands(a: &Swell, prev: &[Swell], max: f64) -> Vec<bool> { prev.iter().map(|p| apart(deg(a), deg(p)) as f64 <= max).collect() }
fn score(a: &Swell, p: &Swell, dt: i64, max: f64, far: f64) -> f64 {
    let df = dt as f64 * 9.81 / (4.0 * PI * far);
    apart(deg(a), deg(p)) as f64 / max + dist(per(a), per(p)) / df
}

/// everything that can be said of one step after the other
fn judge(prev: &[Swell], pid: &[usize], cur: &[Swell], cid: &[usize], dt: i64, max: f64, far: f64, used: usize) {
    let (n, m) = (prev.len(), cur.len());
    let mut unique = true;
    for i in 0..m { for j in 0..i { unique &= cid[i] != cid[j]; } }
    check(unique, "no two components of a step share an id");
    let tol = 1e-9;
    for i in 0..m {
        let near = cands(&cur[i], prev, max);
        let s: Vec<f64> = prev.iter().map(|p| score(&cur[i], p, dt, max, far)).collect();
        match pid.iter().position(|k| *k == cid[i]) {
            Some(k) => {
                check(near[k], "a component is followed only within the allowed turn");
                let mut best = true;
                for j in 0..n { best &= !near[j] | (s[k] <= s[j] + tol); }
                check(best, "a component follows the closest candidate");
                // no other component whose closest candidate is the same was closer
                let mut first = true;
                for o in 0..m {
                    if o == i { continue; }
                    let on = cands(&cur[o], prev, max);
                    let os: Vec<f64> = prev.iter().map(|p| score(&cur[o], p, dt, max, far)).collect();
                    let mut wants = on[k];
                    for j in 0..n { wants &= (j == k) | !on[j] | (os[k] < os[j] - tol); }
                    wants &= os[k] <= 900.0;
                    first &= !wants | (s[k] <= os[k] + tol);
                }
                check(first, "the closest of several followers keeps the id");
            }
            None => {
                check(cid[i] >= used, "a component that follows none gets an id never used before");
                // then none is near, or its closest candidate is followed by another
                for k in 0..n {
                    let mut wants = near[k];
                    for j in 0..n { wants &= (j == k) | !near[j] | (s[k] < s[j] - tol); }
                    wants &= s[k] <= 900.0;
                    let taken = cid.iter().any(|c| *c == pid[k]);
                    check(!wants | taken, "a component within reach is followed");
                }
            }
        }
    }
}
fn ids(v: &[Swell]) -> Vec<usize> { v.iter().map(|s| s.partition.unwrap()).collect() }
fn shape(inp: &[Step], out: &[Vec<Swell>]) {
    let mut ok = inp.len() == out.len();
    if ok { for (a, b) in inp.iter().zip(out) {
        ok &= a.1.len() == b.len();
        if ok { for (x, y) in a.1.iter().zip(b) {
            ok &= (deg(x) == deg(y)) & (per(x) == per(y)) & (x.wave_height.value.unwrap() == y.wave_height.value.unwrap()) & y.partition.is_some()
                & (x.energy.as_ref().unwrap().value.unwrap() == y.energy.as_ref().unwrap().value.unwrap())
                & (x.spectral_density.as_ref().unwrap().value.unwrap() == y.spectral_density.as_ref().unwrap().value.unwrap());
        } }
    } }
    check(ok, "every component is kept, in place and unchanged");
}
fn run(inp: &[Step], max: f64, far: f64) -> Vec<Vec<Swell>> {
    let out = track_partitions(inp, max, far);
    shape(inp, &out);
    let mut used = 0;
    for i in 0..inp.len() {
        let now = ids(&out[i]);
        if i == 0 {
            let mut ok = true;
            for (s, k) in inp[0].1.iter().zip(&now) { if let Some(p) = s.partition { ok &= p == *k; } }
            for a in 0..now.len() { for b in 0..a { ok &= now[a] != now[b]; } }
            check(ok, "the first step keeps its ids and gives new ones to the others");
        } else {
            judge(&inp[i - 1].1, &ids(&out[i - 1]), &inp[i].1, &now, (inp[i].0 - inp[i - 1].0).num_seconds(), max, far, used);
        }
        for k in now { if k >= used { used = k + 1; } }
    }
    out
}

harnesses! {
    fn h_track_two() {
        exact(true);
        let (n, m) = match case(tier(5, 7)) { 0 => (1, 1), 1 => (1, 2), 2 => (2, 1), 3 => (2, 2), 4 => (0, 2), 5 => (3, 2), _ => (2, 3) };
        let c = case(3);
        let (dt, max, far) = match c { 0 => (3600, 30.0, 1.0e6), 1 => (10_800, 20.5, 1.0e7), _ => (900, 90.0, 5.0e5) };
        // one component of either step has any direction and period, the others any period
        let mk = |k: usize, first: bool| part(if k == 0 { int(0, 360) as i32 } else { [350, 15, 180][(k + c) % 3] }, real(2.0, 25.0), 1.0 + k as f64, if first { if c == 1 && k == 1 { None } else { Some(2 * k + 1) } } else { Some(k) });
        let a: Vec<Swell> = (0..n).map(|k| mk(k, true)).collect();
        let b: Vec<Swell> = (0..m).map(|k| mk(k, false)).collect();
        run(&[(at(0), a), (at(dt), b)], max, far);
        reach("two");
    }
    fn h_track_three() {
        exact(true);
        // how many components there are at each step, also none in between
        let n = [[1, 1, 1], [2, 1, 2], [2, 0, 2], [1, 2, 1], [0, 1, 1], [1, 0, 0], [2, 2, 2]][case(tier(6, 7))];
        let c = case(2);
        let (max, far) = [(30.0, 1.0e6), (45.5, 5.0e6)][c];
        let dt = [[3600, 7200], [10_800, 3600]][c];
        let d0 = [10, 190];
        let inp: Vec<Step> = vec![
            (at(0), (0..n[0]).map(|k| part(d0[k], 12.0 - 2.0 * k as f64, 1.0, if c == 0 { Some(k) } else { None })).collect()),
            (at(dt[0]), (0..n[1]).map(|k| part(if k == 0 { int(0, 360) as i32 } else { 200 }, 11.98 - 2.0 * k as f64, 1.5, Some(k))).collect()),
            (at(dt[0] + dt[1]), (0..n[2]).map(|k| part(if k == 0 { int(0, 360) as i32 } else { 355 }, real(2.0, 25.0), 2.0, Some(k))).collect()),
        ];
        run(&inp, max, far);
        reach("three");
    }
    fn h_track_long() {
        // four systems through six steps, one of which turns and one of which comes and goes
        exact(true);
        let c = case(3);
        let (max, far) = [(30.0, 1.0e6), (20.0, 5.0e6), (45.5, 1.0e6)][c];
        let odd = case(tier(4, 6));
        let mut inp: Vec<Step> = vec![];
        let mut t = 0;
        for k in 0..6i64 {
            let mut v = vec![];
            for j in 0..4i64 {
                // (the third system is there at every other step, the fourth from the third step on)
                if (j == 2 && k % 2 == 1) || (j == 3 && k < 2) { continue; }
                let mut d = ([10, 170, 275, 355][j as usize] + [3, -4, 0, 2][j as usize] * k + 360) % 360;
                let mut p = [14.0, 9.0, 6.5, 11.0][j as usize] - 0.004 * (k * (j + 1)) as f64;
                let h = 1.0 + 0.1 * (k + j) as f64;
                if odd < 3 && k == odd as i64 + 2 && j == 0 { d = int(0, 360); }
                if odd == 3 && k == 4 && j == 3 { p = real(2.0, 25.0); }
                if odd == 4 && k == 5 && j == 2 - c as i64 { d = int(0, 360); }
                if odd == 5 && k == 1 && j == 1 { p = real(2.0, 25.0); }
                v.push(part(d as i32, p, h, Some(v.len())));
            }
            if k % 3 == 2 { v.reverse(); }
            inp.push((at(t), v));
            t += [3600, 10_800, 3600, 7200, 900, 3600][k as usize];
        }
        run(&inp, max, far);
        reach("long");
    }
    fn h_track_few() {
        let n = case(3);
        let ids: Vec<Option<usize>> = (0..n).map(|k| if k == 1 { None } else { Some(k + 3) }).collect();
        let v: Vec<Swell> = (0..n).map(|k| part(int(0, 360) as i32, real(2.0, 25.0), real(0.0, 10.0), ids[k])).collect();
        let inp = vec![(at(0), v)];
        let out = track_partitions(&inp, 30.0, 1.0e6);
        let mut ok = (out.len() == 1) & (out[0].len() == n);
        if ok { for k in 0..n { ok &= (out[0][k].partition == ids[k]) & (deg(&out[0][k]) == deg(&inp[0].1[k])) & (per(&out[0][k]) == per(&inp[0].1[k])); } }
        check(ok, "a single step is returned as it is");
        check(track_partitions(&[], 30.0, 1.0e6).len() == 0, "nothing from nothing");
        reach("few");
    }
}
