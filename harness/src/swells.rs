//! Swell components and their mirror images.
use crate::irs::*;
use surfrs::dimensional_data::*;
use surfrs::swell::*;
use surfrs::units::*;

fn systems(k: usize) -> UnitSystem { [UnitSystem::Metric, UnitSystem::English, UnitSystem::Kelvin, UnitSystem::Knots][k].clone() }
fn plain(p: Option<f64>, d: Option<i64>, k: usize) -> Swell {
    Swell {
        wave_height: DimensionalData { value: Some(k as f64), variable_name: "wave height".into(), unit: Unit::Meters },
        period: DimensionalData { value: p, variable_name: "period".into(), unit: Unit::Seconds },
        direction: DimensionalData { value: d.map(|d| Direction::from_degrees(d as i32)), variable_name: "direction".into(), unit: Unit::Degrees },
        energy: None,
        spectral_density: None,
        partition: Some(k),
    }
}
/// periods, in groups that read the same with one decimal
const PERIODS: [(&[f64], &[usize]); 8] = [
    (&[10.0, 10.0], &[0, 0]),
    (&[10.0, 10.04], &[0, 0]),
    (&[10.0, 10.1], &[0, 1]),
    (&[12.5, 8.0, 12.5], &[0, 1, 0]),
    (&[12.5, 12.46, 12.54], &[0, 0, 0]),
    (&[8.0, 10.0, 8.0, 10.0], &[0, 1, 0, 1]),
    (&[9.94, 9.96, 10.04, 9.9], &[0, 1, 1, 0]),
    (&[7.0], &[0]),
];

fn many(p: &'static [f64], g: &'static [usize]) {
    let n = p.len();
    let at = case(n - 1);
    let fixed = [20, 205, 195, 100, 15, 30, 270, 285, 350];
    let mut s = SwellSummary { summary: plain(Some(11.0), Some(90), 9), components: (0..n).map(|i| plain(Some(p[i]), Some(fixed[i]), i)).collect() };
    let mut d: Vec<i64> = fixed.to_vec();
    for i in [at, n - 1] {
        d[i] = int(0, 360);
        let mut x = Direction::from_degrees(0);
        x.degrees = d[i] as i32;
        s.components[i].direction.value = Some(x);
    }
    let got = s.probable_false_components();
    let mut seen = vec![0; n];
    for i in &got { seen[*i] += 1; }
    let mut ok = true;
    for i in 0..n {
        let first = (0..n).find(|j| g[*j] == g[i]).unwrap();
        let t = d[first] - d[i];
        let want = (first != i) & (((t >= 170) & (t <= 190)) | ((t <= -170) & (t >= -190)));
        ok &= seen[i] == if want { 1 } else { 0 };
    }
    check(ok, "mirrored components among many");
    let left = s.filtered_components();
    check(left.len() + got.len() == n && left.windows(2).all(|w| w[0].partition < w[1].partition), "the others stay in order");
    reach("many");
}
fn group(p: &'static [f64], g: &'static [usize]) {
    let n = p.len();
    // one of them, or none, has no direction
    let miss = case(n + 1);
    let d: Vec<Option<i64>> = (0..n).map(|i| if i == miss { None } else { Some(int(0, 360)) }).collect();
    // (the class of a compass point is no matter here)
    let comps: Vec<Swell> = (0..n).map(|i| plain(Some(p[i]), None, i)).collect();
    let mut s = SwellSummary { summary: plain(Some(11.0), Some(90), 9), components: comps };
    for i in 0..n {
        if let Some(v) = d[i] {
            let mut x = Direction::from_degrees(0);
            x.degrees = v as i32;
            s.components[i].direction.value = Some(x);
        }
    }
    let mut want = vec![false; n];
    for i in 0..n {
        let first = (0..n).find(|j| g[*j] == g[i]).unwrap();
        if first == i { continue; }
        if let (Some(a), Some(b)) = (d[first], d[i]) {
            let t = a - b;
            want[i] = ((t >= 170) & (t <= 190)) | ((t <= -170) & (t >= -190));
        }
    }
    let got = s.probable_false_components();
    let mut seen = vec![false; n];
    for i in &got { check(!seen[*i], "a component is listed once"); seen[*i] = true; }
    let mut ok = true;
    for i in 0..n { ok &= seen[i] == want[i]; }
    check(ok, "mirrored components");
    let left = s.filtered_components();
    let keep: Vec<usize> = (0..n).filter(|i| !seen[*i]).collect();
    check(left.len() == keep.len(), "the others are left");
    for (a, i) in left.iter().zip(&keep) { check(a.partition == Some(*i), "in their order"); }
    check(s.components.len() == n, "the summary keeps all");
    reach("filtered");
}

harnesses! {
    fn h_sw_mirror_many() {
        // nine components, the directions of two of them free
        let (p, g): (&'static [f64], &'static [usize]) = [(&[14.0, 12.0, 14.0, 9.0, 12.0, 14.0, 7.0, 9.0, 5.0][..], &[0, 1, 0, 2, 1, 0, 3, 2, 4][..]), (&[10.0, 10.0, 10.0, 10.0, 10.0, 10.0, 10.0, 10.0, 10.0], &[0; 9]), (&[10.0, 10.1, 10.2, 10.3, 10.4, 10.5, 10.6, 10.7, 10.04], &[0, 1, 2, 3, 4, 5, 6, 7, 0])][case(3)];
        many(p, g);
    }
    fn h_sw_mirror() {
        let (p, g) = PERIODS[case(8)];
        group(p, g);
    }
    fn h_sw_units_many() {
        // all of up to twenty components change their units, and the next change starts from there
        let n = [0, 1, 8, 13, 20][case(5)];
        let (from, to) = (systems(case(4)), systems(case(4)));
        let k = case(4);
        let h: Vec<f64> = (0..n).map(|_| real(0.0, 100.0)).collect();
        let mut all = vec![];
        for i in 0..n {
            let mut x = plain(Some(5.0 + i as f64), Some((i * 17) as i64), i);
            x.wave_height.value = if i % 7 == 6 { None } else { Some(h[i]) };
            x.wave_height.unit = match from { UnitSystem::English => Unit::Feet, _ => Unit::Meters };
            all.push(x);
        }
        let mut s = SwellSummary { summary: plain(Some(11.0), Some(90), 9), components: all.clone() };
        s.to_units(&to);
        if k % 2 == 1 { s.to_units(&systems(k)); }
        check(s.components.len() == n, "every component stays");
        let mut ok = s.components.len() == n;
        for (a, b) in all.iter().zip(&s.components) {
            let mut u = a.wave_height.unit.convert_system(&to);
            if k % 2 == 1 { u = u.convert_system(&systems(k)); }
            ok &= b.wave_height.unit == u;
            ok &= match (a.wave_height.value, b.wave_height.value) { (None, None) => true, (Some(x), Some(y)) => near(y, a.wave_height.unit.convert(x, &u), 1e-6), _ => false };
            ok &= (b.partition == a.partition) & (b.period.value == a.period.value);
        }
        check(ok, "every component is in the units asked for");
        reach("converted");
    }
    fn h_sw_new() {
        let k = case(16);
        let u = systems(k / 4);
        let (h, p) = (real(0.0, 100.0), real(0.0, 40.0));
        let d = int(0, 360);
        let (sd, en) = (real(0.0, 1000.0), real(0.0, 1e6));
        let mut dir = Direction::from_degrees(0);
        dir.degrees = d as i32;
        let s = Swell::new(&u, h, p, dir, if k % 2 == 0 { Some(sd) } else { None }, if k % 3 == 0 { None } else { Some(en) }, if k % 5 == 0 { None } else { Some(k) });
        let is = |x: &DimensionalData<f64>, v: f64, u: Unit| match x.value { Some(y) => near(y, v, 1e-9) & (x.unit == u), None => false };
        let opt = |x: &Option<DimensionalData<f64>>, on: bool, v: f64, u: Unit| match x { Some(y) => on & is(y, v, u), None => !on };
        let lu = match u { UnitSystem::Metric => Unit::Meters, UnitSystem::English => Unit::Feet, _ => Unit::Unknown };
        check(is(&s.wave_height, h, lu.clone()), "height in the units asked for");
        check(is(&s.period, p, Unit::Seconds), "period in seconds");
        check((s.direction.value.as_ref().unwrap().degrees as i64 == d) & (s.direction.unit == Unit::Degrees), "direction in degrees");
        check(opt(&s.spectral_density, k % 2 == 0, sd, Unit::MetersSquaredPerHertz), "density");
        check(opt(&s.energy, k % 3 != 0, en, Unit::KiloJoules), "energy");
        check(s.partition == if k % 5 == 0 { None } else { Some(k) }, "partition");
        // every part of a summary is in the same units
        let to = systems(k % 4);
        let mut a = SwellSummary { summary: s.clone(), components: vec![s.clone(), Swell::new(&UnitSystem::English, p, h, Direction::from_degrees(10), None, Some(en), None)] };
        a.to_units(&to);
        let conv = |x: &DimensionalData<f64>, y: &DimensionalData<f64>| { let w = x.unit.convert_system(&to); is(y, x.unit.convert(x.value.unwrap(), &w), w) };
        check(conv(&s.wave_height, &a.summary.wave_height) & conv(&s.wave_height, &a.components[0].wave_height), "heights in other units");
        check(is(&a.components[1].wave_height, Unit::Feet.convert(p, &Unit::Feet.convert_system(&to)), Unit::Feet.convert_system(&to)), "height of a component in other units");
        let rest = |x: &Swell, h: f64, d: i64| is(&x.period, h, Unit::Seconds) & (x.direction.value.as_ref().unwrap().degrees as i64 == d);
        check(rest(&a.summary, p, d) & rest(&a.components[0], p, d) & rest(&a.components[1], h, 10), "periods and directions stay");
        check(opt(&a.summary.energy, k % 3 != 0, en, Unit::KiloJoules) & opt(&a.components[1].energy, true, en, Unit::KiloJoules), "energy stays");
        reach("swell");
    }
}
