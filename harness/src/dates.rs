//! Model run times.
use crate::irs::*;
use chrono::{DateTime, Utc};
use surfrs::tools::date::*;

/// first day (since 1970) of the windows explored: leap days, year ends, month ends, and the epoch
pub const WINDOWS: [i64; 8] = [19_722, 19_781, 20_087, 11_015, 10_956, 19_510, 0, 24_836];
pub fn any_time(days: i64) -> (i64, i64, DateTime<Utc>) {
    let w = WINDOWS[case(WINDOWS.len())];
    let day = w + split(int(0, days));
    let sec = int(0, 86_399);
    let nanos = int(0, 999_999_999);
    let t = day * 86_400 + sec;
    (t, nanos, DateTime::<Utc>::from_timestamp(t, nanos as u32).unwrap())
}

harnesses! {
    fn h_date_round() {
        let ms: [u32; 11] = [1, 2, 3, 4, 6, 12, 24, 5, 7, 8, 23];
        let m = ms[case(11)];
        let (t, _, d) = any_time(tier(3, 20));
        let r = round_to_nearest_multiple_hour(&d, m);
        let (rt, q) = (r.timestamp(), m as i64 * 3600);
        check(r.timestamp_subsec_nanos() == 0, "whole second");
        check((rt <= t) & (t - rt < q), "latest grid hour that is not in the future");
        check((rt - (t - t.rem_euclid(86_400))) % q == 0, "on the grid of the day");
        reach("rounded");
    }
    fn h_date_runs() {
        let k = case(3);
        let (t, _, d) = any_time(tier(6, 40));
        let (lag, q) = [(6, 6), (5, 6), (2, 1)][k];
        let r = match k { 0 => closest_gfs_model_stations_datetime(&d), 1 => closest_gfs_model_gridded_datetime(&d), _ => closest_hourly_model_datetime(&d) };
        let rt = r.timestamp();
        check(r.timestamp_subsec_nanos() == 0, "whole second");
        check(rt % (q * 3600) == 0, "a run starts on its cycle");
        check(rt <= t - lag * 3600, "the run is old enough to be published");
        check(t - lag * 3600 - rt < q * 3600, "no later run is published");
        reach("run");
    }
    fn h_date_list() {
        let (t, _, d) = any_time(tier(2, 10));
        let span = int(-90_000, tier(150_000, 400_000));
        let e = DateTime::<Utc>::from_timestamp(t + span, 0).unwrap();
        let v = gfs_model_fmrc_datetimes((d, e));
        let te = t + span;
        let first = t - t.rem_euclid(21_600);
        check((v.len() == 0) == (first > te), "empty exactly when the window ends before its first run");
        let mut ok = true;
        for (i, x) in v.iter().enumerate() { ok &= (x.timestamp() == first + i as i64 * 21_600) & (x.timestamp_subsec_nanos() == 0); }
        check(ok, "every run of the window in order");
        let n = v.len() as i64;
        if n > 0 {
            check((first + (n - 1) * 21_600 <= te) & (te < first + n * 21_600), "the last run is the last of the window");
            reach("list");
        } else { reach("empty"); }
    }
    fn h_date_list_long() {
        // long windows: a start in every six-hour cycle, an end anywhere in one
        let t = [1_709_164_799, 1_672_531_200, 951_782_400 + 43_201][case(3)];
        let n = [9, 40, 121, 500][case(4)];
        let d = DateTime::<Utc>::from_timestamp(t, 0).unwrap();
        let first = t - t % 21_600;
        let te = first + (n - 1) * 21_600 + int(0, 21_599);
        let v = gfs_model_fmrc_datetimes((d, DateTime::<Utc>::from_timestamp(te, 0).unwrap()));
        check(v.len() as i64 == n, "every run of a long window");
        let mut ok = true;
        for (i, x) in v.iter().enumerate() { ok &= x.timestamp() == first + i as i64 * 21_600; }
        check(ok, "every run of a long window in order");
        reach("long");
    }
}
