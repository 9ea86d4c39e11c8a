//! Rows of buoy feeds with symbolic digits.
use crate::irs::*;
use surfrs::data::parseable_data_record::*;
use surfrs::data::wave_data_record::*;
use surfrs::data::meteorological_data_record::*;
use surfrs::data::latest_obs_data_record::*;
use surfrs::data::spectral_wave_data_record::*;
use surfrs::data::directional_spectral_wave_data_record::*;
use std::f64::consts::PI;
use surfrs::dimensional_data::*;
use surfrs::swell::*;
use surfrs::units::*;
use chrono::prelude::*;

/// any number with that many digits before and after the point, and its value in units of the last digit
pub fn num(whole: usize, frac: usize, sign: bool) -> (String, i64) { digits(whole, frac, sign, 0) }
/// the same with a lower bound for the first digit
pub fn digits(whole: usize, frac: usize, sign: bool, first: i64) -> (String, i64) {
    let mut b: Vec<u8> = vec![];
    if sign { b.push(b'-'); }
    let mut v = 0i64;
    for i in 0..whole + frac {
        if i == whole { b.push(b'.'); }
        let d = int(if i == 0 { first } else { 0 }, 9);
        b.push(48 + d as u8);
        v = v * 10 + d;
    }
    (unsafe { String::from_utf8_unchecked(b) }, if sign { -v } else { v })
}

fn text(i: i64) -> String { i.to_string() }
pub fn two() -> (String, i64) { num(2, 0, false) }
/// a date with any two digits for day, hour and minute
pub struct Stamp { y: i64, m: i64, d: i64, h: i64, mi: i64, cols: Vec<String> }
fn stamp(k: usize) -> Stamp {
    let (y, m) = [(2023, 2), (2024, 2), (2022, 12), (2024, 4), (2023, 13), (1999, 0), (2000, 2), (2100, 2)][k];
    let (d, h, mi) = (two(), two(), two());
    Stamp { y, m, d: d.1, h: h.1, mi: mi.1, cols: vec![text(y), format!("{m:02}"), d.0, h.0, mi.0] }
}
/// a date with any two digits for the minute
fn later(k: usize) -> Stamp {
    let (y, m, d, h) = [(2024, 2, 29, 0), (2023, 12, 31, 23), (2023, 1, 1, 7), (2000, 10, 9, 12)][k];
    let mi = two();
    Stamp { y, m, d, h, mi: mi.1, cols: vec![text(y), format!("{m:02}"), format!("{d:02}"), format!("{h:02}"), mi.0] }
}
pub fn month_days(y: i64, m: i64) -> i64 { match m { 4 | 6 | 9 | 11 => 30, 2 => if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { 29 } else { 28 }, 1..=12 => 31, _ => 0 } }
/// days since 1970
pub fn civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
impl Stamp {
    fn valid(&self) -> bool { (self.d >= 1) & (self.d <= month_days(self.y, self.m)) & (self.h <= 23) & (self.mi <= 59) }
    fn is(&self, t: &DateTime<Utc>) -> bool { t.timestamp() == civil(self.y, self.m, 0) * 86400 + self.d * 86400 + self.h * 3600 + self.mi * 60 }
}
/// a field that is a reading or missing; the one after a missing field may be zero
fn field(k: usize, missing: usize, whole: usize, frac: usize, sign: bool) -> (String, i64) { if k == missing { ("MM".into(), 0) } else { digits(whole, frac, sign, if k == missing + 1 || missing == 10 && k == 0 { 0 } else { 1 }) } }
pub fn holds(d: &Option<f64>, v: i64, scale: f64, missing: bool) -> bool { match d { Some(x) => !missing & near(*x * scale, v as f64, 1e-6), None => missing } }
fn heads(d: &Option<Direction>, v: i64, missing: bool) -> bool { match d { Some(x) => !missing & (x.degrees as i64 == v), None => missing } }
/// a compass point, up to the two degrees a whole number of degrees may be off
fn points(d: &Option<Direction>, v: f64, missing: bool) -> bool { match d { Some(x) => !missing & near(x.degrees as f64, v, 2.0), None => missing } }
pub fn refs(v: &[String]) -> Vec<&str> { v.iter().map(|s| s.as_str()).collect() }
pub fn same(a: &Option<f64>, b: &Option<f64>) -> bool { match (a, b) { (Some(x), Some(y)) => near(*x, *y, 1e-9), (None, None) => true, _ => false } }
fn turned(a: &Option<Direction>, b: &Option<Direction>) -> bool { match (a, b) { (Some(x), Some(y)) => x.degrees == y.degrees, (None, None) => true, _ => false } }
fn systems(k: usize) -> UnitSystem { [UnitSystem::Metric, UnitSystem::English, UnitSystem::Kelvin, UnitSystem::Knots][k].clone() }
/// what becomes of a quantity in other units
fn converted(a: &DimensionalData<f64>, b: &DimensionalData<f64>, s: &UnitSystem) -> bool {
    let u = a.unit.convert_system(s);
    (b.unit == u) & same(&b.value, &a.value.map(|v| a.unit.convert(v, &u)))
}
/// the readings of weather rows: digits before and after the point, sign
pub const MET: [(usize, usize, bool); 14] = [(3, 0, false), (2, 1, false), (2, 1, false), (2, 1, false), (2, 0, false), (1, 1, false), (3, 0, false), (4, 1, false), (2, 1, true), (2, 1, false), (2, 1, true), (1, 1, false), (1, 1, true), (1, 2, true)];
fn readings(miss: usize, plus: bool) -> Vec<(String, i64)> {
    MET.iter().enumerate().map(|(k, m)| {
        // one of the two directions is anything, the other one of ten
        let (t, v) = if k != miss && k == [0, 6][miss % 2] { let d = int(0, 9); let h = 10 * (miss as i64 % 36); (unsafe { String::from_utf8_unchecked(vec![48 + (h / 100) as u8, 48 + (h / 10 % 10) as u8, 48 + d as u8]) }, h + d) } else { field(k, miss, m.0, m.1, m.2 && !plus) };
        if m.2 && plus && k != miss { (format!("+{t}"), v) } else { (t, v) }
    }).collect()
}
const TENS: [f64; 3] = [1.0, 10.0, 100.0];


harnesses! {
    fn h_rec_wave() {
        let miss = case(12);
        let s = stamp([0, 1, 2, 3, 6, 7, 0, 1, 2, 6, 3, 4][miss]);
        let ok = s.valid();
        let dirs = ["N", "WSW", "E", "nnw", "S"];
        let degs = [0.0, 247.5, 90.0, 337.5, 180.0];
        let (a, b) = (miss % 5, (miss + 2) % 5);
        let hs = field(0, miss, 2, 1, false);
        let sh = field(1, miss, 1, 2, false);
        let sp = field(2, miss, 2, 1, false);
        let wh = field(3, miss, 1, 1, false);
        let wp = field(4, miss, 2, 1, false);
        let ap = field(5, miss, 2, 1, false);
        let md = field(6, miss, 3, 0, false);
        let steep = ["VERY_STEEP", "STEEP", "AVERAGE", "SWELL", "N/A", "MM"][miss / 2];
        let mut row = s.cols.clone();
        row.extend([hs.0.clone(), sh.0, sp.0, wh.0, wp.0, if miss == 7 { "MM".into() } else { dirs[a].into() }, if miss == 8 { "MM".into() } else { dirs[b].into() }, steep.into(), ap.0, md.0]);
        match WaveDataRecord::from_data_row(None, &refs(&row)) {
            Err(_) => { check(!ok, "a row with a date is a record"); reach("no such date"); }
            Ok(r) => {
                check(ok, "there are no records without a date");
                check(s.is(&r.date), "date of a row");
                check(holds(&r.wave_height.value, hs.1, 10.0, miss == 0), "wave height");
                check(holds(&r.swell_wave_height.value, sh.1, 100.0, miss == 1), "swell height");
                check(holds(&r.swell_wave_period.value, sp.1, 10.0, miss == 2), "swell period");
                check(holds(&r.wind_wave_height.value, wh.1, 10.0, miss == 3), "wind wave height");
                check(holds(&r.wind_wave_period.value, wp.1, 10.0, miss == 4), "wind wave period");
                check(holds(&r.average_wave_period.value, ap.1, 10.0, miss == 5), "average period");
                check(heads(&r.mean_wave_direction.value, md.1, miss == 6), "mean direction");
                check(points(&r.swell_wave_direction.value, degs[a], miss == 7), "swell direction");
                check(points(&r.wind_wave_direction.value, degs[b], miss == 8), "wind wave direction");
                check(r.steepness == [Steepness::VerySteep, Steepness::Steep, Steepness::Average, Steepness::Swell, Steepness::NA, Steepness::NA][miss / 2], "steepness");
                let m = [&r.wave_height, &r.swell_wave_height, &r.wind_wave_height].iter().all(|d| d.unit == Unit::Meters);
                let p = [&r.swell_wave_period, &r.wind_wave_period, &r.average_wave_period].iter().all(|d| d.unit == Unit::Seconds);
                let d = [&r.swell_wave_direction, &r.wind_wave_direction, &r.mean_wave_direction].iter().all(|d| d.unit == Unit::Degrees);
                check(m & p & d, "units of a row");
                // as swell
                let w = r.swell_data().unwrap();
                check(w.components.len() == 2, "swell and wind waves are components");
                let is = |c: &Swell, h: &DimensionalData<f64>, t: &DimensionalData<f64>, d: &DimensionalData<Direction>| same(&c.wave_height.value, &h.value) & same(&c.period.value, &t.value) & turned(&c.direction.value, &d.value) & (c.wave_height.unit == h.unit);
                check(is(&w.summary, &r.wave_height, &r.average_wave_period, &r.mean_wave_direction), "summary of the sea state");
                check(is(&w.components[0], &r.swell_wave_height, &r.swell_wave_period, &r.swell_wave_direction), "the swell of the sea state");
                check(is(&w.components[1], &r.wind_wave_height, &r.wind_wave_period, &r.wind_wave_direction), "the wind waves of the sea state");
                // in other units
                for k in 0..4 {
                    let u = systems(k);
                    let mut c = r.clone();
                    c.to_units(&u);
                    check(converted(&r.wave_height, &c.wave_height, &u) & converted(&r.swell_wave_height, &c.swell_wave_height, &u) & converted(&r.wind_wave_height, &c.wind_wave_height, &u), "heights in other units");
                    check(converted(&r.swell_wave_period, &c.swell_wave_period, &u) & converted(&r.wind_wave_period, &c.wind_wave_period, &u) & converted(&r.average_wave_period, &c.average_wave_period, &u), "periods have no other units");
                    check(turned(&r.swell_wave_direction.value, &c.swell_wave_direction.value) & turned(&r.mean_wave_direction.value, &c.mean_wave_direction.value) & turned(&r.wind_wave_direction.value, &c.wind_wave_direction.value), "directions have no other units");
                }
                reach("row");
            }
        }
    }
    fn h_rec_met() {
        let miss = case(16);
        let s = if miss < 4 { stamp([1, 0, 2, 3][miss]) } else if miss == 15 { stamp(4) } else { later(miss % 4) };
        let ok = s.valid();
        let f = readings(miss, miss % 2 == 1);
        let mut row = s.cols.clone();
        for x in &f { row.push(x.0.clone()); }
        match MeteorologicalDataRecord::from_data_row(None, &refs(&row)) {
            Err(_) => { check(!ok, "a row with a date is a record"); reach("no such date"); }
            Ok(r) => {
                check(ok, "there are no records without a date");
                check(s.is(&r.date), "date of a row");
                let h = |d: &DimensionalData<f64>, k: usize, u: Unit| holds(&d.value, f[k].1, TENS[MET[k].1], miss == k) & (d.unit == u);
                check(heads(&r.wind_direction.value, f[0].1, miss == 0), "wind direction");
                check(h(&r.wind_speed, 1, Unit::MetersPerSecond), "wind speed");
                check(h(&r.wind_gust_speed, 2, Unit::MetersPerSecond), "gusts");
                check(h(&r.wave_height, 3, Unit::Meters), "wave height");
                check(h(&r.dominant_wave_period, 4, Unit::Seconds), "dominant period");
                check(h(&r.average_wave_period, 5, Unit::Seconds), "average period");
                check(heads(&r.mean_wave_direction.value, f[6].1, miss == 6), "mean wave direction");
                check(h(&r.air_pressure, 7, Unit::HectaPascal), "pressure");
                check(h(&r.air_temperature, 8, Unit::Celsius), "air temperature");
                check(h(&r.water_temperature, 9, Unit::Celsius), "water temperature");
                check(h(&r.dewpoint_temperature, 10, Unit::Celsius), "dew point");
                check(h(&r.visibility, 11, Unit::NauticalMiles), "visibility");
                check(h(&r.air_pressure_tendency, 12, Unit::HectaPascal), "pressure tendency");
                check(h(&r.tide, 13, Unit::Feet), "tide");
                let w = r.swell_data().unwrap();
                check(same(&w.summary.wave_height.value, &r.wave_height.value) & same(&w.summary.period.value, &r.dominant_wave_period.value) & turned(&w.summary.direction.value, &r.mean_wave_direction.value) & (w.components.len() == 0), "summary of the sea state");
                for k in 0..4 {
                    let u = systems(k);
                    let mut c = r.clone();
                    c.to_units(&u);
                    let g = |a: &DimensionalData<f64>, b: &DimensionalData<f64>| converted(a, b, &u);
                    check(g(&r.wind_speed, &c.wind_speed) & g(&r.wind_gust_speed, &c.wind_gust_speed) & g(&r.visibility, &c.visibility), "speeds and visibility in other units");
                    check(g(&r.wave_height, &c.wave_height) & g(&r.tide, &c.tide), "heights in other units");
                    check(g(&r.air_pressure, &c.air_pressure) & g(&r.air_pressure_tendency, &c.air_pressure_tendency), "pressures in other units");
                    check(g(&r.air_temperature, &c.air_temperature) & g(&r.water_temperature, &c.water_temperature) & g(&r.dewpoint_temperature, &c.dewpoint_temperature), "temperatures in other units");
                    check(g(&r.dominant_wave_period, &c.dominant_wave_period) & g(&r.average_wave_period, &c.average_wave_period) & turned(&r.wind_direction.value, &c.wind_direction.value) & turned(&r.mean_wave_direction.value, &c.mean_wave_direction.value), "periods and directions have no other units");
                }
                reach("row");
            }
        }
    }
    fn h_rec_latest() {
        let miss = case(16);
        let s = if miss < 4 { stamp([1, 0, 2, 3][miss]) } else if miss == 15 { stamp(4) } else { later(miss % 4) };
        let ok = s.valid();
        let mut f = readings(miss, miss % 2 == 1);
        // the pressure tendency follows the pressure
        let t = f.remove(12);
        f.insert(8, t);
        let m = |k: usize| miss == [0, 1, 2, 3, 4, 5, 6, 7, 12, 8, 9, 10, 11, 13][k];
        let (lat, lon) = (num(2, 3, miss % 3 == 0), num(3, 3, miss % 3 != 1));
        let mut row = vec!["44097".to_string(), lat.0, lon.0];
        row.extend(s.cols.clone());
        for x in &f { row.push(x.0.clone()); }
        match LatestObsDataRecord::from_data_row(None, &refs(&row)) {
            Err(_) => { check(!ok, "a row with a date is a record"); reach("no such date"); }
            Ok(r) => {
                check(ok, "there are no records without a date");
                check(s.is(&r.date), "date of a row");
                check((r.station_id == "44097") & near(r.latitude * 1000.0, lat.1 as f64, 1e-6) & near(r.longitude * 1000.0, lon.1 as f64, 1e-6), "station and place");
                let h = |d: &DimensionalData<f64>, k: usize, p: f64, u: Unit| holds(&d.value, f[k].1, p, m(k)) & (d.unit == u);
                check(heads(&r.wind_direction.value, f[0].1, m(0)), "wind direction");
                check(h(&r.wind_speed, 1, 10.0, Unit::MetersPerSecond), "wind speed");
                check(h(&r.wind_gust_speed, 2, 10.0, Unit::MetersPerSecond), "gusts");
                check(h(&r.wave_height, 3, 10.0, Unit::Meters), "wave height");
                check(h(&r.dominant_wave_period, 4, 1.0, Unit::Seconds), "dominant period");
                check(h(&r.average_wave_period, 5, 10.0, Unit::Seconds), "average period");
                check(heads(&r.mean_wave_direction.value, f[6].1, m(6)), "mean wave direction");
                check(h(&r.air_pressure, 7, 10.0, Unit::HectaPascal), "pressure");
                check(h(&r.air_pressure_tendency, 8, 10.0, Unit::HectaPascal), "pressure tendency");
                check(h(&r.air_temperature, 9, 10.0, Unit::Celsius), "air temperature");
                check(h(&r.water_temperature, 10, 10.0, Unit::Celsius), "water temperature");
                check(h(&r.dewpoint_temperature, 11, 10.0, Unit::Celsius), "dew point");
                check(h(&r.visibility, 12, 10.0, Unit::NauticalMiles), "visibility");
                check(h(&r.tide, 13, 100.0, Unit::Feet), "tide");
                let st = r.station();
                check((st.station_id == "44097") & near(st.latitude, r.latitude, 1e-9) & near(st.longitude, r.longitude, 1e-9), "station of a row");
                let w = r.swell_data().unwrap();
                check(same(&w.summary.wave_height.value, &r.wave_height.value) & same(&w.summary.period.value, &r.dominant_wave_period.value) & turned(&w.summary.direction.value, &r.mean_wave_direction.value) & (w.components.len() == 0), "summary of the sea state");
                for k in 0..4 {
                    let u = systems(k);
                    let mut c = r.clone();
                    c.to_units(&u);
                    let g = |a: &DimensionalData<f64>, b: &DimensionalData<f64>| converted(a, b, &u);
                    check(g(&r.wind_speed, &c.wind_speed) & g(&r.wind_gust_speed, &c.wind_gust_speed) & g(&r.visibility, &c.visibility), "speeds and visibility in other units");
                    check(g(&r.wave_height, &c.wave_height) & g(&r.tide, &c.tide), "heights in other units");
                    check(g(&r.air_pressure, &c.air_pressure) & g(&r.air_pressure_tendency, &c.air_pressure_tendency), "pressures in other units");
                    check(g(&r.air_temperature, &c.air_temperature) & g(&r.water_temperature, &c.water_temperature) & g(&r.dewpoint_temperature, &c.dewpoint_temperature), "temperatures in other units");
                    check(g(&r.dominant_wave_period, &c.dominant_wave_period) & g(&r.average_wave_period, &c.average_wave_period) & turned(&r.wind_direction.value, &c.wind_direction.value) & turned(&r.mean_wave_direction.value, &c.mean_wave_direction.value), "periods and directions have no other units");
                }
                reach("row");
            }
        }
    }
    fn h_rec_sparse() {
        // rows with one or two readings, or without one or two, as they are and in other units
        let kind = case(3);
        let n = if kind == 0 { 10 } else { 14 };
        let (p, p2) = (case(14), case(14));
        if p2 < p || p2 >= n { return; }
        let few = case(2) == 1;
        let at = |j: usize| if few { j == p || j == p2 } else { j != p && j != p2 };
        let d = int(1, 9);
        let word = |j: usize| -> String {
            if !at(j) { return "MM".into(); }
            if kind == 0 && (j == 5 || j == 6) { return "W".into(); }
            if kind == 0 && j == 7 { return "STEEP".into(); }
            let mut t = if j == p || j == p2 || j == 2 { unsafe { String::from_utf8_unchecked(vec![48 + d as u8]) } } else { "3".to_string() };
            t.push_str(["1", "2", "7"][j % 3]);
            t
        };
        let num = |j: usize| -> Option<f64> { if at(j) { Some((if j == p || j == p2 || j == 2 { d * 10 } else { 30 } + [1, 2, 7][j % 3]) as f64) } else { None } };
        let words: Vec<String> = (0..n).map(word).collect();
        let mut row: Vec<&str> = if kind == 2 { vec!["44097", "41.5", "-71.5"] } else { vec![] };
        row.extend(["2023", "02", "28", "05", "40"]);
        let order: Vec<usize> = if kind == 2 { vec![0, 1, 2, 3, 4, 5, 6, 7, 12, 8, 9, 10, 11, 13] } else { (0..n).collect() };
        for j in &order { row.push(words[*j].as_str()); }
        let get = |a: &DimensionalData<f64>, b: &[&DimensionalData<f64>], j: usize| {
            let mut ok = same(&a.value, &num(j));
            for k in 0..4 { ok &= converted(a, b[k], &systems(k)); }
            ok
        };
        let head = |a: &DimensionalData<Direction>, b: &[&DimensionalData<Direction>], v: Option<f64>| {
            let mut ok = match (&a.value, v) { (Some(x), Some(y)) => x.degrees as f64 == y, (None, None) => true, _ => false };
            for k in 0..4 { ok &= turned(&a.value, &b[k].value); }
            ok
        };
        macro_rules! all { ($r:ident, $c:ident, $($f:ident $j:expr),*) => { $( check(get(&$r.$f, &$c.iter().map(|c| &c.$f).collect::<Vec<_>>(), $j), "a reading of a sparse row, also in other units"); )* } }
        macro_rules! dirs { ($r:ident, $c:ident, $($f:ident $v:expr),*) => { $( check(head(&$r.$f, &$c.iter().map(|c| &c.$f).collect::<Vec<_>>(), $v), "a direction of a sparse row, also in other units"); )* } }
        if kind == 0 {
            let Ok(r) = WaveDataRecord::from_data_row(None, &row) else { check(false, "a sparse row is a record"); return; };
            let c: Vec<WaveDataRecord> = (0..4).map(|k| { let mut c = r.clone(); c.to_units(&systems(k)); c }).collect();
            all!(r, c, wave_height 0, swell_wave_height 1, swell_wave_period 2, wind_wave_height 3, wind_wave_period 4, average_wave_period 8);
            let west = |j: usize| if at(j) { Some(270.0) } else { None };
            dirs!(r, c, swell_wave_direction west(5), wind_wave_direction west(6), mean_wave_direction num(9));
            let w = r.swell_data().unwrap();
            check(w.components.len() == 2 && same(&w.components[0].wave_height.value, &num(1)) & same(&w.components[1].wave_height.value, &num(3)) & same(&w.components[0].period.value, &num(2)) & same(&w.components[1].period.value, &num(4)) & same(&w.summary.wave_height.value, &num(0)) & same(&w.summary.period.value, &num(8)), "the sea state of a sparse row");
        } else if kind == 1 {
            let Ok(r) = MeteorologicalDataRecord::from_data_row(None, &row) else { check(false, "a sparse row is a record"); return; };
            let c: Vec<MeteorologicalDataRecord> = (0..4).map(|k| { let mut c = r.clone(); c.to_units(&systems(k)); c }).collect();
            all!(r, c, wind_speed 1, wind_gust_speed 2, wave_height 3, dominant_wave_period 4, average_wave_period 5, air_pressure 7, air_temperature 8, water_temperature 9, dewpoint_temperature 10, visibility 11, air_pressure_tendency 12, tide 13);
            dirs!(r, c, wind_direction num(0), mean_wave_direction num(6));
            let w = r.swell_data().unwrap();
            check(same(&w.summary.wave_height.value, &num(3)) & same(&w.summary.period.value, &num(4)) && w.components.len() == 0 && w.summary.direction.value.as_ref().map(|x| x.degrees as f64) == num(6).map(|x| x), "the sea state of a sparse row");
        } else {
            let Ok(r) = LatestObsDataRecord::from_data_row(None, &row) else { check(false, "a sparse row is a record"); return; };
            let c: Vec<LatestObsDataRecord> = (0..4).map(|k| { let mut c = r.clone(); c.to_units(&systems(k)); c }).collect();
            all!(r, c, wind_speed 1, wind_gust_speed 2, wave_height 3, dominant_wave_period 4, average_wave_period 5, air_pressure 7, air_temperature 8, water_temperature 9, dewpoint_temperature 10, visibility 11, air_pressure_tendency 12, tide 13);
            dirs!(r, c, wind_direction num(0), mean_wave_direction num(6));
            let w = r.swell_data().unwrap();
            check(same(&w.summary.wave_height.value, &num(3)) & same(&w.summary.period.value, &num(4)) && w.components.len() == 0 && w.summary.direction.value.as_ref().map(|x| x.degrees as f64) == num(6).map(|x| x), "the sea state of a sparse row");
        }
        reach("sparse");
    }
    fn h_rec_short() {
        // rows that end early or hold anything at all in a column
        let which = case(4);
        let full: Vec<&str> = match which {
            0 => "2024 02 29 10 40 2.0 0.4 12.5 1.9 6.2 E E STEEP 5.0 101".split(' ').collect(),
            1 => "2024 02 29 10 40 210 1.0 3.1 1.2 12 5.6 101 1018.1 14.0 16.1 9.9 1.1 -0.2 2.20".split(' ').collect(),
            2 => "44097 40.967 -71.126 2024 02 29 10 40 210 1.0 3.1 1.2 12 5.6 101 1018.1 -0.2 14.0 16.1 9.9 1.1 2.20".split(' ').collect(),
            _ => "2024 02 29 10 40 9.999 0.100 (0.033) 0.200 (0.038)".split(' ').collect(),
        };
        let take = |row: &Vec<&str>| match which {
            0 => WaveDataRecord::from_data_row(None, row).is_ok(),
            1 => MeteorologicalDataRecord::from_data_row(None, row).is_ok(),
            2 => LatestObsDataRecord::from_data_row(None, row).is_ok(),
            _ => SpectralWaveDataRecord::from_data_row(None, row).is_ok(),
        };
        check(take(&full), "a whole row is a record");
        let least = if which == 3 { 5 } else { full.len() };
        for n in 0..full.len() {
            let row: Vec<&str> = full[..n].to_vec();
            let r = take(&row);
            check(!r | (n >= least), "a row that ends early is no record");
        }
        // any two characters in one place of the date
        let b = [int(32, 126), int(32, 126)];
        let t = unsafe { String::from_utf8_unchecked(vec![b[0] as u8, b[1] as u8]) };
        let col = case(5);
        let mut row = full.clone();
        row[if which == 2 { 3 } else { 0 } + 2] = "10";
        row[if which == 2 { 3 } else { 0 } + col] = t.as_str();
        let r = take(&row);
        let digit = |c: i64| (c >= 48) & (c <= 57);
        let v = if (b[0] == 43) | (b[0] == 45) { b[1] - 48 } else { (b[0] - 48) * 10 + b[1] - 48 };
        let (lo, hi) = [(0, 99), (1, 12), (1, 31), (0, 23), (0, 59)][col];
        let day = digit(b[1]) & (digit(b[0]) | (b[0] == 43) | ((col == 0) & (b[0] == 45))) & (v >= lo) & (v <= hi) & ((col != 2) | (v <= 29));
        check(r == day, "only rows with a date are records");
        reach("rows");
    }
    fn h_rec_spectral() {
        let k = case(10);
        let (n, sep) = ([0, 1, 2, 4, 64][k / 2], k % 2 == 1);
        let s = if k == 8 { stamp(4) } else if k == 9 { later(0) } else { stamp([1, 3, 0, 2][k % 4]) };
        let ok = s.valid();
        let mut row = s.cols.clone();
        let sf = if k == 7 { ("MM".to_string(), 9999) } else { num(1, 3, false) };
        if sep { row.push(sf.0.clone()); }
        let (mut v, mut f) = (vec![], vec![]);
        for i in 0..n {
            let (a, b) = if n == 64 && i % 21 != 20 { (((100 + i).to_string() + ".125", 100_125 + 1000 * i as i64), (format!("0.{:03}", 20 + 5 * i), 20 + 5 * i as i64)) } else { (num(if i == 0 { 3 } else { 1 }, 3, false), num(1, 3, false)) };
            row.push(a.0.clone());
            row.push(format!("({})", b.0));
            v.push(a.1);
            f.push(b.1);
        }
        match SpectralWaveDataRecord::from_data_row(None, &refs(&row)) {
            Err(_) => { check(!ok, "a row with a date is a record"); reach("no such date"); }
            Ok(r) => {
                check(ok, "there are no records without a date");
                check(s.is(&r.date), "date of a row");
                check(holds(&r.separation_frequency, sf.1, 1000.0, !sep), "separation frequency");
                check((r.value.len() == n) & (r.frequency.len() == n), "one value per frequency");
                let (mut a, mut b) = (true, true);
                for i in 0..n {
                    a &= near(r.value[i] * 1000.0, v[i] as f64, 1e-6);
                    b &= near(r.frequency[i] * 1000.0, f[i] as f64, 1e-6);
                }
                check(a, "values in order");
                check(b, "frequencies in order");
                reach("row");
            }
        }
    }
    fn h_rec_directional() {
        exact(true);
        let deg: &[f64] = [&[0.0, 90.0, 180.0, 270.0][..], &[15.0, 135.0, 255.0], &[0.0, 60.0, 120.0, 180.0, 240.0, 300.0]][case(3)];
        let (a1, a2) = [(0.0, 0.0), (90.0, 100.0), (37.0, 352.0), (299.0, 180.0), (200.0, 210.0)][case(5)];
        // which reading of the first frequency is missing
        let miss = case(6);
        let th: Vec<f64> = deg.iter().map(|d| d * PI / 180.0).collect();
        let f = vec![0.05, 0.1];
        let e = [real(0.0, 500.0), real(0.0, 500.0)];
        let (r1, r2) = ([real(0.0, 1.0), 0.5], [real(0.0, 1.0), 0.25]);
        let (m1, m2) = ([a1, a2], [a2, a1]);
        let date = Utc.with_ymd_and_hms(2024, 2, 29, 10, 40, 0).unwrap();
        let rec = |v: &[f64; 2], k: usize, none: f64| SpectralWaveDataRecord { date, separation_frequency: None, value: vec![if miss == k { none } else { v[0] }, v[1]], frequency: f.clone() };
        let r = DirectionalSpectralWaveDataRecord::from_data_records(&th, rec(&e, 0, 999.9), rec(&m1, 1, 999.0), rec(&m2, 2, 999.0), rec(&r1, 3, 999.0), rec(&r2, 4, 999.0));
        let s = &r.spectra;
        check((r.date == date) & (s.frequency.len() == 2) & (s.nth() == th.len()) & (s.energy.len() == 2 * th.len()), "shape of the spectrum");
        check((0..2).all(|k| s.frequency[k] == f[k]) && (0..th.len()).all(|t| s.direction_raw()[t] == th[t]), "axes of the spectrum");
        let c = |x: f64| (x * PI / 180.0).cos();
        let (mut each, mut positive) = (true, true);
        let mut none = true;
        for k in 0..2 {
            let mut total = 0.0;
            let mut lobes = true;
            for t in 0..th.len() {
                let got = s.energy[k + 2 * t];
                total += got;
                positive &= got >= 0.0;
                let w = e[k] / PI * (0.5 + r1[k] * c(deg[t] - m1[k]) + r2[k] * c(2.0 * (deg[t] - m2[k])));
                let want = if w > 0.0 { w } else { 0.0 };
                if k == 0 && miss < 5 { none &= got == 0.0; } else { each &= near(got, want, 1e-6); }
                lobes &= w >= 0.0;
            }
            let total = total * 2.0 * PI / th.len() as f64;
            if k == 1 || miss == 5 {
                check(total >= e[k] - 1e-6, "no energy is lost");
                check(imp(lobes, near(total, e[k], 1e-6)), "the directions share the energy of a frequency");
            }
        }
        check(none, "nothing where a reading is missing");
        check(each, "energy by direction");
        check(positive, "no negative energy");
        reach("spectrum");
    }
    fn h_rec_directional_large() {
        // 46 frequencies and 36 directions, one frequency free and some readings missing
        exact(true);
        let (nk, nth) = (46, 36);
        let at = [0, 21, 45][case(3)];
        let th: Vec<f64> = (0..nth).map(|t| (t as f64 * 10.0 + 5.0) * PI / 180.0).collect();
        let f: Vec<f64> = (0..nk).map(|k| 0.02 + 0.01 * k as f64).collect();
        let mut e: Vec<f64> = (0..nk).map(|k| ((k * 7) % 23) as f64 + 0.5).collect();
        let mut m1: Vec<f64> = (0..nk).map(|k| ((k * 37) % 360) as f64).collect();
        let mut m2: Vec<f64> = (0..nk).map(|k| ((k * 53 + 20) % 360) as f64).collect();
        let mut r1: Vec<f64> = (0..nk).map(|k| ((k * 3) % 10) as f64 / 10.0).collect();
        let mut r2: Vec<f64> = (0..nk).map(|k| ((k * 7) % 10) as f64 / 12.0).collect();
        e[3] = 999.9; m1[7] = 999.0; m2[12] = 999.0; r1[30] = 999.0; r2[44] = 999.0;
        let none = [3, 7, 12, 30, 44];
        e[at] = real(0.0, 500.0);
        if at == 21 { r2[at] = real(0.0, 1.0); } else { r1[at] = real(0.0, 1.0); }
        let date = Utc.with_ymd_and_hms(2021, 7, 3, 23, 10, 0).unwrap();
        let rec = |v: &Vec<f64>| SpectralWaveDataRecord { date, separation_frequency: Some(0.2), value: v.clone(), frequency: f.clone() };
        let r = DirectionalSpectralWaveDataRecord::from_data_records(&th, rec(&e), rec(&m1), rec(&m2), rec(&r1), rec(&r2));
        let s = &r.spectra;
        check(s.nk() == nk && s.nth() == nth && s.energy.len() == nk * nth, "shape of a large spectrum");
        if s.energy.len() != nk * nth { return; }
        check((0..nk).all(|k| s.frequency[k] == f[k]) && (0..nth).all(|t| s.direction_raw()[t] == th[t]), "axes of a large spectrum");
        let c = |x: f64| (x * PI / 180.0).cos();
        let (mut each, mut empty) = (true, true);
        for k in 0..nk { for t in 0..nth {
            let got = s.energy[k + nk * t];
            if none.contains(&k) { empty &= got == 0.0; continue; }
            let d = t as f64 * 10.0 + 5.0;
            let w = e[k] / PI * (0.5 + r1[k] * c(d - m1[k]) + r2[k] * c(2.0 * (d - m2[k])));
            each &= (near(got, w, 1e-6) & (w >= -1e-6)) | (near(got, 0.0, 1e-12) & (w <= 1e-6));
        } }
        check(empty, "nothing where a reading is missing");
        check(each, "energy by direction of a large spectrum");
        reach("large");
    }
    fn h_rec_angle() {
        exact(true);
        let a = real(0.0, 360.0);
        let k = case(4);
        let th = vec![0.3 + k as f64 * PI / 2.0];
        let date = Utc.with_ymd_and_hms(2024, 2, 29, 10, 40, 0).unwrap();
        let second = case(2) == 1;
        let r = DirectionalSpectralWaveDataRecord::new(&date, &th, &[0.1], &[PI], &[if second { 10.0 } else { a }], &[if second { a } else { 10.0 }], &[if second { 0.0 } else { 0.45 }], &[if second { 0.45 } else { 0.0 }]);
        let x = a * PI / 180.0 - th[0];
        let want = 0.5 + 0.45 * if second { (2.0 * x).cos() } else { x.cos() };
        check(near(r.spectra.energy[0], want, 1e-5), "energy spreads around the mean direction");
        reach("angle");
    }
    fn h_rec_text() {
        // the rows of a text, each with symbolic readings
        let which = case(4);
        let (d, h) = (two(), num(2, 1, false));
        let one = int(0, 9);
        let t = unsafe { String::from_utf8_unchecked(vec![48 + one as u8]) };
        let (row1, row2) = match which {
            0 => (format!("2024 02 {} 00 43  {}  0.4 12.5  1.9  6.2   E   E VERY_STEEP  5.0 101", d.0, h.0), format!("2024 02 25 00 13  1.{t}   MM 12.5  1.9  6.2   E   E VERY_STEEP  5.0 101")),
            1 => (format!("2024 02 {} 00 43 210  9.0 11.0  {}     9   5.6 110 1018.1  23.0  22.1  20.0   MM   MM    MM", d.0, h.0), format!("2024 02 25 00 13 210  9.0 11.0  1.{t}     9   5.6 110 1018.1  23.0  22.1  20.0   MM   MM    MM")),
            2 => (format!("44097  40.967  -71.126 2024 02 {} 00 43 210  9.0 11.0  {}     9   5.6 110 1018.1 MM  23.0  22.1  20.0   MM    MM", d.0, h.0), format!("44098  40.967  -71.126 2024 02 25 00 13 210  9.0 11.0  1.{t}     9   5.6 110 1018.1  MM 23.0  22.1  20.0   MM    MM")),
            _ => (format!("2024 02 {} 00 43 9.999 {} (0.033) 0.000 (0.038) ", d.0, h.0), format!("2024 02 25 00 13 9.999 1.{t} (0.033) 0.000 (0.038) ")),
        };
        let text = format!("#YY  MM DD hh mm WVHT\n#yr  mo dy hr mn    m\n{row1}\n{row2}\n");
        let ok = (d.1 >= 1) & (d.1 <= 29);
        let mut got: Vec<(DateTime<Utc>, Option<f64>)> = vec![];
        match which {
            0 => for r in WaveDataRecordCollection::from_data(&text).records() { got.push((r.date, r.wave_height.value)); },
            1 => for r in MeteorologicalDataRecordCollection::from_data(&text).records() { got.push((r.date, r.wave_height.value)); },
            2 => for r in LatestObsDataRecordCollection::from_data(&text).records() { got.push((r.date, r.wave_height.value)); },
            _ => for r in SpectralWaveDataRecordCollection::from_data(&text).records() { got.push((r.date, Some(r.value[0]))); },
        }
        check(got.len() >= 1 && got.len() <= 2 && (got.len() == 2) == ok, "every row with a date is a record");
        if got.len() == 2 {
            check(got[0].0.timestamp() == civil(2024, 2, 0) * 86400 + d.1 * 86400 + 43 * 60, "date of the first row");
            check(holds(&got[0].1, h.1, 10.0, false), "reading of the first row");
            reach("two rows");
        } else { reach("one row"); }
        let l = got.last().unwrap();
        check((l.0.timestamp() == civil(2024, 2, 25) * 86400 + 13 * 60) & holds(&l.1, 10 + one, 10.0, false), "the other row");
    }
    fn h_rec_long() {
        // texts of many rows, with comments, rows without a date and empty lines between them
        let which = case(4);
        let n = [45, 70][case(2)];
        let d = int(0, 9);
        let t = unsafe { String::from_utf8_unchecked(vec![48 + d as u8]) };
        let mut text = String::from("#YY  MM DD hh mm\n#yr  mo dy hr mn\n");
        let free = |i: usize| i == 0 || i == 33 || i == n - 1;
        for i in 0..n {
            let v = if free(i) { format!("{}.{t}", 1 + i % 8) } else { format!("{}.{}", 1 + i % 8, i % 10) };
            let when = format!("20{:02} {:02} {:02} {:02} {:02}", 20 + i % 9, 1 + i % 12, 1 + (i * 5) % 28, i % 24, (i * 7) % 60);
            let row = match which {
                0 => format!("{when} {v}  0.4 12.5  1.9  6.2   E   E STEEP  5.0 101"),
                1 => format!("{when} 210  9.0 11.0  {v}     9   5.6 110 1018.1  23.0  22.1  20.0   MM   MM    MM"),
                2 => format!("B{i}  40.967  -71.126 {when} 210  9.0 11.0  {v}     9   5.6 110 1018.1 MM  23.0  22.1  20.0   MM    MM"),
                _ => format!("{when} 9.999 {v} (0.033) 0.000 (0.038) "),
            };
            text.push_str(&row);
            text.push('\n');
            if i % 20 == 7 { text.push_str("# a comment\n\n2021 13 40 00 00 1.0\n"); }
        }
        let mut got: Vec<(DateTime<Utc>, Option<f64>)> = vec![];
        match which {
            0 => for r in WaveDataRecordCollection::from_data(&text).records() { got.push((r.date, r.wave_height.value)); },
            1 => for r in MeteorologicalDataRecordCollection::from_data(&text).records() { got.push((r.date, r.wave_height.value)); },
            2 => for r in LatestObsDataRecordCollection::from_data(&text).records() { got.push((r.date, r.wave_height.value)); },
            _ => for r in SpectralWaveDataRecordCollection::from_data(&text).records() { got.push((r.date, Some(r.value[0]))); },
        }
        check(got.len() == n, "every row with a date is a record");
        if got.len() != n { return; }
        let mut ok = true;
        let mut dates = true;
        for i in 0..n {
            dates &= got[i].0.timestamp() == (civil(2020 + i as i64 % 9, 1 + i as i64 % 12, 1 + (i as i64 * 5) % 28)) * 86400 + (i as i64 % 24) * 3600 + (i as i64 * 7 % 60) * 60;
            ok &= holds(&got[i].1, (1 + i as i64 % 8) * 10 + if free(i) { d } else { i as i64 % 10 }, 10.0, false);
        }
        check(dates, "dates of the rows, in order");
        check(ok, "readings of the rows, in order");
        reach("long");
    }
}
