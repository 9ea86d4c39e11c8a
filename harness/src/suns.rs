//! Sunrise and sunset.
use crate::irs::*;
use chrono::{DateTime, NaiveDate, Utc};
use surfrs::location::*;
use surfrs::solar::*;
use std::f64::consts::PI;

// days and the declination of the sun of an almanac
const DAYS: [((i32, u32, u32), f64); 6] = [((2022, 6, 21), 23.44), ((2022, 12, 21), -23.44), ((2024, 2, 29), -7.8), ((2023, 5, 5), 16.2), ((1999, 11, 30), -21.6), ((2030, 8, 10), 15.5)];

fn at(d: (i32, u32, u32), h: u32, m: u32) -> DateTime<Utc> {
    DateTime::from_naive_utc_and_offset(NaiveDate::from_ymd_opt(d.0, d.1, d.2).unwrap().and_hms_opt(h, m, 0).unwrap(), Utc)
}
fn loc(lat: f64, lon: f64) -> Location { Location::new(lat, lon, String::new()) }

/// seconds of daylight (textbook formula) at a latitude for a declination of the sun
fn daylight(lat: f64, dec: f64) -> f64 {
    let (l, d) = (lat * PI / 180.0, dec * PI / 180.0);
    let c = ((-0.833 * PI / 180.0).sin() - l.sin() * d.sin()) / (l.cos() * d.cos());
    c.acos() * 86400.0 / PI
}

harnesses! {
    fn h_sun_noon() {
        // sunrise before noon, sunset after it, at any place between the polar circles
        exact(true);
        let (d, dec) = DAYS[case(6)];
        let k = case(26);
        let (b, t) = (-65.0 + 5.0 * k as f64, -60.0 + 5.0 * k as f64);
        let lat = real(b, t);
        let lo = [-180.0, -90.0, 0.0, 90.0][case(4)];
        let lon = real(lo, lo + 90.0);
        let (h, m) = [(0, 0), (12, 0), (23, 59)][k % 3];
        let e = calculate_solar_events(&loc(lat, lon), &at(d, h, m));
        check(e.is_some(), "the sun rises and sets between the polar circles");
        let e = e.unwrap();
        let noon = at(d, 12, 0).timestamp() as f64 - lon * 240.0;
        let (a, z) = (e.sunrise.timestamp() as f64 - noon, e.sunset.timestamp() as f64 - noon);
        check(near(a + z, 0.0, 2.0 * 1100.0), "sunrise and sunset lie around the noon of the place");
        check((a < 0.0) & (z > 0.0) & (z - a < 86400.0), "the sun rises before noon and sets after it");
        let (p, q) = (daylight(b, dec), daylight(t, dec));
        check(within(z - a, p.min(q) - 480.0, p.max(q) + 480.0), "the day is as long as the latitude and the season make it");
        reach("sun");
    }
    fn h_sun_day() {
        // every moment of a day is of the same day
        let d = DAYS[case(6)].0;
        let (lat, lon) = [(41.6, -71.5), (-33.0, 151.2), (0.0, 0.0), (64.0, -179.9), (21.3, 202.1), (-54.8, 179.9)][case(6)];
        let s = int(0, 86399);
        let ns = int(0, 999_999_999);
        let t = DateTime::from_timestamp(at(d, 0, 0).timestamp() + s, ns as u32).unwrap();
        let (e, f) = (calculate_solar_events(&loc(lat, lon), &t).unwrap(), calculate_solar_events(&loc(lat, lon), &at(d, 12, 0)).unwrap());
        check((e.sunrise == f.sunrise) & (e.sunset == f.sunset), "the events of the day at any moment of it");
        let noon = at(d, 12, 0).timestamp() as f64 - (if lon > 180.0 { lon - 360.0 } else { lon }) * 240.0;
        check((((e.sunrise.timestamp() + e.sunset.timestamp()) as f64) / 2.0 - noon).abs() < 1100.0, "around the noon of the place");
        reach("moment");
    }
    fn h_sun_longitude() {
        // either way of writing a longitude is the same place; and places off the globe have no sun
        exact(true);
        let d = DAYS[case(6)].0;
        let lat = [-50.0, 0.0, 35.5, 64.0][case(4)];
        let lon = real(-179.99, -0.01);
        let (e, f) = (calculate_solar_events(&loc(lat, lon), &at(d, 6, 0)).unwrap(), calculate_solar_events(&loc(lat, lon + 360.0), &at(d, 6, 0)).unwrap());
        let gap = |a: DateTime<Utc>, b: DateTime<Utc>| a.timestamp() - b.timestamp();
        check((gap(e.sunrise, f.sunrise) <= 1) & (gap(e.sunrise, f.sunrise) >= -1) & (gap(e.sunset, f.sunset) <= 1) & (gap(e.sunset, f.sunset) >= -1), "either longitude convention");
        let (x, y) = match case(4) { 0 => (real(-500.0, -90.001), 10.0), 1 => (real(270.001, 500.0), 10.0), 2 => (10.0, real(540.001, 2000.0)), _ => (10.0, real(-2000.0, -180.001)) };
        check(calculate_solar_events(&loc(x, y), &at(d, 6, 0)).is_none(), "no sun off the globe");
        reach("longitude");
    }
    fn h_sun_polar() {
        // no sunrise where the sun stays up or down all day
        exact(true);
        let d = DAYS[case(2)].0;
        let south = case(2) == 1;
        let k = case(6) as f64;
        let lat = real(68.0 + 3.6 * k, 71.6 + 3.6 * k);
        let lon = real(-180.0, 180.0);
        let e = calculate_solar_events(&loc(if south { -lat } else { lat }, lon), &at(d, 6, 0));
        check(e.is_none(), "no events in the polar day and night");
        reach("polar");
    }
}
