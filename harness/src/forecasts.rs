//! Forecast files: point spectra and bulletins with symbolic digits.
use crate::irs::*;
use crate::records::{civil, digits, holds, month_days, num, refs, same, two};
use chrono::prelude::*;
use surfrs::data::forecast_cbulletin_wave_data_record::*;
use surfrs::data::forecast_spectral_wave_data_record::*;
use surfrs::data::parseable_data_record::*;
use surfrs::dimensional_data::*;
use surfrs::location::*;
use surfrs::swell::*;
use surfrs::tools::waves::wave_energy;
use surfrs::units::*;
use surfrs::units::direction::DirectionConvention;
use std::f64::consts::PI;

/// "0.dddE+0x" and its value, normalized as the files have it
fn scientific(e: i32) -> (String, f64) {
    let (t, v) = digits(0, 3, false, 1);
    (format!("0{t}E{}{:02}", if e < 0 { '-' } else { '+' }, e.abs()), v as f64 * 10f64.powi(e - 3))
}
/// values in lines of a few
fn lines(v: &[String], per: usize) -> String { v.chunks(per).map(|c| format!("  {}\n", c.join("  "))).collect::<Vec<_>>().join("") }
/// distance around the circle in degrees
fn apart(a: f64, b: f64) -> bool {
    let d = a - b;
    within(d, -1.0, 1.0) | within(d, 359.0, 361.0) | within(d, -361.0, -359.0)
}
fn shape(k: usize) -> (usize, usize, usize) { [(3, 2, 2), (2, 3, 8), (4, 1, 3), (1, 4, 1)][k] }
fn points(k: usize) -> Vec<(String, f64)> { ["0.148E+01", "0.262E+00", "0.620E+01", "0.410E+01", "0.183E+01"].iter().cycle().skip(k).take(4).map(|t| (t.to_string(), t.parse().unwrap())).collect() }
fn measured(d: &DimensionalData<f64>, v: i64, scale: f64, u: Unit) -> bool { holds(&d.value, v, scale, false) & (d.unit == u) }
fn headed(d: &DimensionalData<Direction>, v: i64) -> bool { match &d.value { Some(x) => near(x.degrees as f64 * 10.0, v as f64, 5.0), None => false } }
/// a direction in tenths of degrees of which the last two digits are symbolic
fn heading(h: usize) -> (String, i64) {
    let (t, v) = num(1, 1, false);
    (format!("{h}{t}"), 100 * h as i64 + v)
}

harnesses! {
    fn h_fc_header() {
        let (nf, nd, per) = shape(case(4));
        let at = case(4);
        let f: Vec<(String, f64)> = (0..nf).map(|i| scientific(if i % 2 == 0 { -1 } else { 0 })).collect();
        let mut d: Vec<(String, f64)> = points(at)[..nd].to_vec();
        // one direction is anything between 0 and a turn
        let t = if at % 2 == 0 { scientific(1) } else { scientific(0) };
        assume(t.1 < 2.0 * PI);
        d[at % nd] = t;
        let ft: Vec<String> = f.iter().map(|x| x.0.clone()).collect();
        let dt: Vec<String> = d.iter().map(|x| x.0.clone()).collect();
        let text = format!("'WAVEWATCH III SPECTRA'    {nf:2}    {nd:2}     1 'spectral resolution for points'\n{}{}rest", lines(&ft, per), lines(&dt, per));
        match text.parse::<ForecastSpectralWaveDataRecordMetadata>() {
            Err(_) => check(false, "a header"),
            Ok(m) => {
                check((m.frequency.len() == nf) & (m.direction.len() == nd) & (m.point_count == 1), "size of the spectrum");
                check(m.line_count == 1 + (nf + per - 1) / per + (nd + per - 1) / per, "lines of the header");
                let mut ok = true;
                for i in 0..nf { ok &= near(m.frequency[i], f[i].1, 1e-9); }
                check(ok, "frequencies");
                let mut ok = true;
                for i in 0..nd { ok &= apart(m.direction[i].degrees as f64, 90.0 - d[i].1 * 180.0 / PI + if d[i].1 > PI / 2.0 { 360.0 } else { 0.0 }); }
                check(ok, "directions as compass points");
                reach("header");
            }
        }
    }
    fn h_fc_records() {
        let k = case(4);
        let (nf, nd, per) = shape(k);
        let part = case(3);
        let h: Vec<String> = ["0.350E-01", "0.385E-01", "0.424E-01", "0.466E-01"][..nf].iter().map(|s| s.to_string()).collect();
        let d: Vec<(String, f64)> = points(k)[..nd].to_vec();
        let dt: Vec<String> = d.iter().map(|x| x.0.clone()).collect();
        let (day, hour) = if part == 0 { (two(), two()) } else { (("28".into(), 28), num(2, 0, false)) };
        if part != 0 { assume(hour.1 <= 23); }
        let ok = (day.1 >= 1) & (day.1 <= 29) & (hour.1 <= 23);
        let sign = k % 2 == 0;
        let lat = digits(2, 2, k == 3, 1);
        let lon = digits(2, 2, sign, 1);
        let (dp, ws, cs) = (digits(3, 1, false, 1), digits(2, 2, false, 1), digits(1, 2, false, 1));
        let (wd, cd) = (heading(23 + k), heading(4 + 3 * k));
        let n = nf * nd;
        // symbolic energies where the conditions are plain
        let e: Vec<(String, f64)> = (0..n).map(|i| if part == 1 || part == 2 && i % 2 == 0 { scientific(-(i as i32 % 3)) } else { (format!("0.{i}17E-02"), (i as f64 * 100.0 + 17.0) * 1e-5) }).collect();
        let et: Vec<String> = e.iter().map(|x| x.0.clone()).collect();
        let e2: Vec<String> = (0..n).map(|i| format!("0.{i}00E+00")).collect();
        let first = format!("202402{} {}0000\n'44097     '  {} {}   {}  {} {}   {} {}\n{}", day.0, hour.0, lat.0, lon.0, dp.0, ws.0, wd.0, cs.0, cd.0, lines(&et, per));
        // (the second record may be older than the first one)
        let (d2, t2) = [("20240301 070000", civil(2024, 3, 1) * 24 + 7), ("20240210 070000", civil(2024, 2, 10) * 24 + 7), ("20231231 230000", civil(2023, 12, 31) * 24 + 23), ("20240301 070000", civil(2024, 3, 1) * 24 + 7)][k];
        let second = format!("{d2}\n'44097     '  40.98 -71.12    47.7  10.28 237.7   0.00 270.0\n{}", lines(&e2, per + 1));
        let text = format!("'WAVEWATCH III SPECTRA'    {nf:2}    {nd:2}     1 'spectral resolution for points'\n{}{}{first}{second}", lines(&h, 8), lines(&dt, 7));
        let it = match ForecastSpectralWaveRecordIterator::from_data(&text) { Ok(it) => it, Err(_) => { check(false, "a header"); return; } };
        let all: Vec<Result<ForecastSpectralWaveDataRecord, DataRecordParsingError>> = it.collect();
        let good: Vec<&ForecastSpectralWaveDataRecord> = all.iter().filter_map(|r| r.as_ref().ok()).collect();
        check(good.len() == if ok { 2 } else { 1 }, "one record per date");
        check((all.len() == good.len()) == ok, "rows without a date are errors");
        let last = good[good.len() - 1];
        check(last.date.timestamp() == t2 * 3600, "date of the second record");
        check(last.spectra.energy.len() == n && (0..n).all(|i| near(last.spectra.energy[i], i as f64 / 10.0, 1e-9)), "energies of the second record");
        if good.len() == 2 {
            let r = good[0];
            let t = civil(2024, 2, 0) * 86400 + day.1 * 86400 + hour.1 * 3600;
            check(r.date.timestamp() == t, "date of a record");
            check((r.reference_date.timestamp() == t) & (last.reference_date.timestamp() == t), "the first date is the reference");
            check(near(r.location.latitude * 100.0, lat.1 as f64, 1e-6) & near(r.location.longitude * 100.0, lon.1 as f64, 1e-6), "place of a record");
            check(measured(&r.depth, dp.1, 10.0, Unit::Meters), "depth");
            check(measured(&r.wind_speed, ws.1, 100.0, Unit::MetersPerSecond) & measured(&r.current_speed, cs.1, 100.0, Unit::MetersPerSecond), "wind and current speed");
            check(headed(&r.wind_direction, wd.1) & headed(&r.current_direction, cd.1), "wind and current direction");
            let s = &r.spectra;
            check((s.nk() == nf) & (s.nth() == nd) & (s.energy.len() == n), "size of a spectrum");
            check((0..nf).all(|i| near(s.frequency[i] * 10000.0, [350.0, 385.0, 424.0, 466.0][i], 1e-6)), "frequencies of a spectrum");
            let raw = s.direction_raw();
            check((0..nd).all(|i| apart(raw[i] * 180.0 / PI, (450.0 - d[i].1 * 180.0 / PI) % 360.0)), "directions of a spectrum");
            check(s.dir_convention == DirectionConvention::Met, "convention of a spectrum");
            let mut eq = true;
            for j in 0..nd { for i in 0..nf { eq &= near(s.energy_at(i, j), e[i + j * nf].1, 1e-9); } }
            check(eq, "energies by frequency within direction");
            let mut c = r.clone();
            c.to_units(&UnitSystem::English);
            check(near(c.depth.value.unwrap() * 3.048, dp.1 as f64, 1e-3 * (1.0 + dp.1 as f64)) & (c.depth.unit == Unit::Feet) & (c.wind_speed.unit == Unit::MilesPerHour) & (c.current_speed.unit == Unit::MilesPerHour), "depth and speeds in other units");
            check(near(c.wind_speed.value.unwrap() * 100.0 * 0.44704, ws.1 as f64, 1e-2 * (1.0 + ws.1 as f64)) & near(c.current_speed.value.unwrap() * 100.0 * 0.44704, cs.1 as f64, 1e-2 * (1.0 + cs.1 as f64)), "speeds in miles per hour");
            reach("two records");
        } else { reach("one record"); }
    }
    fn h_fc_large() {
        // a file of three whole spectra of 29 frequencies and 36 directions with free energies here and there
        let k = case(3);
        let (nf, nd) = (29, 36);
        let n = nf * nd;
        let f: Vec<f64> = (0..nf).map(|i| (0.035 * 1.1f64.powi(i as i32) * 1000.0).round() / 1000.0).collect();
        let d: Vec<f64> = (0..nd).map(|i| ((450 - 10 * i as i64) % 360) as f64).collect();
        let sci = |x: f64| if x >= 1.0 { format!("{:.4}E+01", x / 10.0) } else { format!("{:.3}E+00", x) };
        let hf: Vec<String> = f.iter().map(|x| sci(*x)).collect();
        let hd: Vec<String> = d.iter().map(|x| sci(x * PI / 180.0)).collect();
        let free = [0, 28, 500, 1042, 1043];
        let e: Vec<Vec<(String, f64)>> = (0..3).map(|r| (0..n).map(|i| if r == k && free.contains(&i) { scientific(-1) } else { let v = (i * 7 + r * 311) % 1000; (format!("0.{v:03}E-02"), v as f64 * 1e-5) }).collect()).collect();
        let hours = [[0, 1, 2], [5, 8, 11], [21, 22, 23]][k];
        let mut text = format!("'WAVEWATCH III SPECTRA'    {nf:2}    {nd:2}     1 'spectral resolution for points'\n{}{}", lines(&hf, 8), lines(&hd, 7));
        for r in 0..3 {
            let t: Vec<String> = e[r].iter().map(|x| x.0.clone()).collect();
            text.push_str(&format!("20240229 {:02}0000\n'44097     '  40.98 -71.12    47.7  1{r}.28 237.7   0.00 270.0\n{}", hours[r], lines(&t, 7)));
        }
        let it = match ForecastSpectralWaveRecordIterator::from_data(&text) { Ok(it) => it, Err(_) => { check(false, "a header"); return; } };
        let all: Vec<ForecastSpectralWaveDataRecord> = it.filter_map(|r| r.ok()).collect();
        check(all.len() == 3, "three records");
        if all.len() != 3 { return; }
        for r in 0..3 {
            let s = &all[r].spectra;
            check(all[r].date.timestamp() == civil(2024, 2, 29) * 86400 + hours[r] * 3600, "dates of a large file");
            check(near(all[r].wind_speed.value.unwrap(), 10.28 + r as f64, 1e-6), "readings of a large file");
            check(s.nk() == nf && s.nth() == nd && s.energy.len() == n, "size of a large spectrum");
            if s.energy.len() != n { return; }
            let raw = s.direction_raw();
            check((0..nf).all(|i| near(s.frequency[i], f[i], 1e-6)) && (0..nd).all(|i| apart(raw[i] * 180.0 / PI, (450.0 - d[i]) % 360.0)), "axes of a large spectrum");
            let mut ok = true;
            for j in 0..nd { for i in 0..nf { ok &= near(s.energy_at(i, j), e[r][i + j * nf].1, 1e-9); } }
            check(ok, "energies of a large spectrum");
        }
        reach("large");
    }
    fn h_fc_cut() {
        // a file that ends early ends after its last whole record
        let k = case(3);
        let text = "'WAVEWATCH III SPECTRA'     3     2     1 'spectral resolution for points'\n 0.350E-01 0.385E-01 0.424E-01\n 0.262E+00 0.620E+01\n20240229 060000\n'44097     '  40.98 -71.12    47.7  10.28 237.7   0.00 270.0\n 0.350E-01 0.385E-01\n 0.424E-01 0.350E-01 0.385E-01 0.424E-01\n20240229 070000\n'44097     '  40.98 -71.12    47.7  10.28 237.7   0.00 270.0\n 0.350E-01 0.385E-01 0.424E-01\n 0.350E-01 0.385E-01 0.424E-01\n";
        let all: Vec<&str> = text.lines().collect();
        let n = size(4 * k, 4 * k + 3);
        let n = split(n as i64) as usize;
        let cut = all[..n].join("\n");
        let mut coll = ForecastSpectralWaveDataRecordCollection::from_data(&cut);
        let out = coll.records();
        match out {
            Err(_) => { check(n < 3, "a header is enough for a file"); reach("no header"); }
            Ok((m, r)) => {
                let r: Vec<_> = r.collect();
                check(n >= 3 && m.line_count == 3, "no file without a header");
                check(r.len() == if n >= 11 { 2 } else if n >= 7 { 1 } else { 0 }, "whole records only");
                reach("file");
            }
        }
    }
    fn h_fc_row() {
        exact(true);
        let k = case(6);
        let (y, m, d) = [(2020, 8, 25), (2020, 12, 28), (2023, 2, 27), (2024, 1, 31), (2021, 4, 1), (2019, 11, 30)][k];
        let n = [0, 1, 2, 3, 6][case(5)];
        let meta = ForecastCBulletinWaveRecordMetadata { location: Location::new(40.98, -71.12, "44097".into()), model_run_date: Utc.with_ymd_and_hms(y as i32, m as u32, d as u32, 18, 0, 0).unwrap() };
        let dh = num(4, 0, false);
        let (day, hour) = (dh.1 / 100, dh.1 % 100);
        // the day is this month's or, once past, next month's
        let next = day < d;
        let (y2, m2) = if m == 12 { (y + 1, 1) } else { (y, m + 1) };
        let ok = (day >= 1) & (hour <= 23) & (day <= if next { month_days(y2, m2) } else { month_days(y, m) });
        let hs = if n == 3 { num(1, 1, false) } else { num(2, 0, false) };
        let mut row = vec![dh.0, hs.0];
        let mut c = vec![];
        for i in 0..n.min(3) {
            let (h, p) = (num(if i == 0 { 2 } else { 1 }, 0, false), num(2, 0, false));
            let t = int(0, 9);
            let dir = [14, 0, 27][i] * 10 + t;
            row.extend([h.0, p.0, unsafe { String::from_utf8_unchecked(vec![b'0' + [0, 0, 2][i] as u8, b'0' + [14 % 10, 0, 7][i] as u8 , b'0' + t as u8]) }]);
            c.push((h.1, p.1, if i == 0 { 40 + t } else { dir }));
        }
        for x in 3..n {
            let (h, p, dir) = (x as i64 + 1, 20 - x as i64, 300 + 7 * x as i64);
            row.extend([h.to_string(), p.to_string(), dir.to_string()]);
            c.push((h, p, dir));
        }
        for x in 1..3 {
            let mut cut = refs(&row);
            cut.extend(&["4", "11"][..x]);
            check(ForecastCBulletinWaveRecord::from_data_row(Some(&meta), &cut).is_err(), "a row whose last component is not whole is no record");
        }
        match ForecastCBulletinWaveRecord::from_data_row(Some(&meta), &refs(&row)) {
            Err(_) => { check(!ok, "a row with a date is a record"); reach("no such date"); }
            Ok(r) => {
                check(ok, "there are no records without a date");
                let t = if next { civil(y2, m2, 0) } else { civil(y, m, 0) };
                check(r.date.timestamp() == (t + day) * 86400 + hour * 3600, "date of a row");
                check(holds(&r.significant_wave_height.value, hs.1, if n == 3 { 10.0 } else { 1.0 }, false) & (r.significant_wave_height.unit == Unit::Feet), "significant height");
                check(r.swell_components.len() == n, "three columns per component");
                let (mut a, mut b, mut e) = (true, true, true);
                for (s, w) in r.swell_components.iter().zip(&c) {
                    a &= holds(&s.wave_height.value, w.0, 1.0, false) & (s.wave_height.unit == Unit::Feet) & holds(&s.period.value, w.1, 1.0, false);
                    b &= match &s.direction.value { Some(x) => x.degrees as i64 == w.2, None => false };
                    e &= near(s.energy.as_ref().unwrap().value.unwrap(), wave_energy(w.0 as f64 / 3.281, w.1 as f64), 1e-2 * (1.0 + (w.0 * w.0 * w.1 * w.1) as f64));
                }
                check(a, "heights and periods of components");
                check(b, "directions of components");
                check(e, "energy of components");
                match r.swell_data() {
                    Err(_) => check(n == 0, "components make a summary"),
                    Ok(s) => {
                        check(n > 0 && same(&s.summary.wave_height.value, &r.significant_wave_height.value) && same(&s.summary.period.value, &r.swell_components[0].period.value) && s.summary.direction.value.as_ref().unwrap().degrees as i64 == c[0].2, "the first component dominates");
                        check(s.components.len() == n && (0..n).all(|i| same(&s.components[i].wave_height.value, &r.swell_components[i].wave_height.value)), "components of the summary");
                    }
                }
                let mut w = r.clone();
                w.to_units(&UnitSystem::Metric);
                let mut m = near(w.significant_wave_height.value.unwrap(), r.significant_wave_height.value.unwrap() * 0.3048, 1e-2) & (w.significant_wave_height.unit == Unit::Meters);
                for i in 0..n { m &= near(w.swell_components[i].wave_height.value.unwrap(), c[i].0 as f64 * 0.3048, 1e-2) & (w.swell_components[i].wave_height.unit == Unit::Meters) & holds(&w.swell_components[i].period.value, c[i].1, 1.0, false); }
                check(m, "metric heights");
                reach("row");
            }
        }
    }
    fn h_fc_bulletin_long() {
        // a bulletin of 180 hours with up to six components and free digits in three rows
        let k = case(3);
        let (y, m, d, h) = [(2022, 12, 28, 0), (2024, 2, 23, 6), (2023, 6, 26, 18)][k];
        let n = 180;
        let t = num(1, 0, false);
        let u = num(2, 0, false);
        let free = |i: i64| i == 3 || i == 90 || i == n - 1;
        let mut text = format!("Location : 44097      (40.98N  71.12W)\nModel    : spectral resolution for points\nCycle    : {y}{m:02}{d:02} {h} UTC\n\nDDHH HS SS PP DDD SS PP DDD SS PP DDD\n-------------------------------------\n");
        let start = civil(y, m, d) * 24 + h;
        let day = |i: i64| { let q = h + i; let (mut dd, mut mm, mut yy) = (d + q / 24, m, y); while dd > month_days(yy, mm) { dd -= month_days(yy, mm); if mm == 12 { mm = 1; yy += 1; } else { mm += 1; } } (dd, q % 24) };
        for i in 0..n {
            let (dd, hh) = day(i);
            text.push_str(&format!("{dd:02}{hh:02} {:2} ", if free(i) { t.0.clone() } else { (1 + i % 9).to_string() }));
            for c in 0..i % 7 {
                text.push_str(&format!(" {} {} {:03}", 1 + (i + c) % 20, if free(i) && c == 1 { u.0.clone() } else { (3 + (i + 2 * c) % 20).to_string() }, (i * 7 + c * 50) % 360));
            }
            text.push('\n');
        }
        text.push_str("-------------------------------------\nHs : Total significant wave height\n");
        let mut coll = ForecastCBulletinWaveRecordCollection::from_data(&text);
        let out = coll.records();
        let r: Vec<_> = match out { Err(_) => { check(false, "a bulletin"); return; } Ok((_, r)) => r.collect() };
        check(r.len() == n as usize, "a record per row of a long bulletin");
        if r.len() != n as usize { return; }
        let (mut dates, mut heights, mut parts, mut dirs) = (true, true, true, true);
        for i in 0..n {
            let x = &r[i as usize];
            dates &= x.date.timestamp() == (start + i) * 3600;
            heights &= near(x.significant_wave_height.value.unwrap(), (if free(i) { t.1 } else { 1 + i % 9 }) as f64 * 0.3048, 1e-2);
            parts &= x.swell_components.len() == (i % 7) as usize;
            for (c, s) in x.swell_components.iter().enumerate() {
                let c = c as i64;
                parts &= near(s.wave_height.value.unwrap(), (1 + (i + c) % 20) as f64 * 0.3048, 1e-2) & holds(&s.period.value, if free(i) && c == 1 { u.1 } else { 3 + (i + 2 * c) % 20 }, 1.0, false);
                dirs &= match &s.direction.value { Some(q) => q.degrees as i64 == (i * 7 + c * 50) % 360, None => false };
            }
        }
        check(dates, "dates of a long bulletin");
        check(heights, "heights of a long bulletin");
        check(parts, "components of a long bulletin");
        check(dirs, "directions of a long bulletin");
        reach("long");
    }
    fn h_fc_bulletin() {
        let k = case(4);
        let (lat, lon) = (digits(2, 2, false, 1), digits(if k % 2 == 0 { 2 } else { 3 }, 2, false, 1));
        let (s, w) = (k & 1 == 1, k & 2 == 2);
        let (cd, ch) = (num(1, 0, false), num(if k < 2 { 1 } else { 2 }, 0, false));
        let hs = num(2, 0, false);
        let per = num(2, 0, false);
        let text = format!("Location : 44097      ({}{}  {}{})\nModel    : spectral resolution for points\nCycle    : 2022122{} {} UTC\n\nDDHH HS SS PP DDD SS PP DDD SS PP DDD\n-------------------------------------\n2921 {}  4 {} 111  1 08 176                   \n0107  4  4 14 113                             \n3002  4                                       \nxx\n", lat.0, if s { "S" } else { "N" }, lon.0, if w { "W" } else { "E" }, cd.0, ch.0, hs.0, per.0);
        let ok = ch.1 <= 23;
        let mut coll = ForecastCBulletinWaveRecordCollection::from_data(&text);
        let out = coll.records();
        match out {
            Err(_) => { check(!ok, "a bulletin with a cycle"); reach("no cycle"); }
            Ok((m, r)) => {
                check(ok, "no bulletin without a cycle");
                check((m.location.name == "44097") & near(m.location.latitude * 100.0, if s { -lat.1 } else { lat.1 } as f64, 1e-6) & near(m.location.longitude * 100.0, if w { -lon.1 } else { lon.1 } as f64, 1e-6), "place of a bulletin");
                check(m.model_run_date.timestamp() == civil(2022, 12, 20 + cd.1) * 86400 + ch.1 * 3600, "cycle of a bulletin");
                let r: Vec<_> = r.collect();
                check(r.len() == 3, "a record per row");
                check(r[0].date.timestamp() == civil(2022, 12, 29) * 86400 + 21 * 3600, "date of the first row");
                check(r[1].date.timestamp() == civil(2023, 1, 1) * 86400 + 7 * 3600, "a row of the next year");
                check(near(r[0].significant_wave_height.value.unwrap(), hs.1 as f64 * 0.3048, 1e-2) & (r[0].significant_wave_height.unit == Unit::Meters), "heights are metric");
                check((r[0].swell_components.len() == 2) & (r[1].swell_components.len() == 1) & (r[2].swell_components.len() == 0), "components of the rows");
                check(holds(&r[0].swell_components[0].period.value, per.1, 1.0, false), "period of a component");
                reach("bulletin");
            }
        }
    }
}
