//! Stations, their readings' addresses and model runs.
use crate::irs::*;
use crate::records::{civil, digits, month_days, num, two};
use chrono::prelude::*;
use surfrs::buoy_station::*;
use surfrs::location::*;
use surfrs::model::*;
use surfrs::station::*;
use surfrs::tide_station::*;
use surfrs::units::*;
use surfrs::weather::*;
use surfrs::tools::dap::*;

fn point(f: &geojson::Feature) -> Vec<f64> { match &f.geometry.as_ref().unwrap().value { geojson::Value::Point(p) => p.clone(), _ => vec![] } }
fn two_digits(v: i64) -> String { unsafe { String::from_utf8_unchecked(vec![48 + (v / 10) as u8, 48 + (v % 10) as u8]) } }

harnesses! {
    fn h_st_tide_url() {
        let k = case(6);
        let (y, m) = [(2023, 2), (2024, 2), (2022, 12), (1999, 6), (2024, 10), (2001, 1)][k];
        let (d, h, mi) = (int(1, month_days(y, m)), int(0, 23), int(0, 59));
        let (d2, h2, mi2) = (int(1, 28), int(0, 23), int(0, 59));
        let at = |y: i64, m: i64, d: i64, h: i64, mi: i64| DateTime::from_timestamp((civil(y, m, 0) + d) * 86400 + h * 3600 + mi * 60, 0).unwrap();
        let (a, b) = (at(y, m, d, h, mi), at(2025, 3, d2, h2, mi2));
        let s = TideStation::new("8452660", &Location::new(41.505, -71.3267, "NEWPORT".into()), "RI");
        let (datum, dn) = [(TideDatum::MHHW, "MHHW"), (TideDatum::MHW, "MHW"), (TideDatum::MTL, "MTL"), (TideDatum::MSL, "MSL"), (TideDatum::MLW, "MLW"), (TideDatum::MLLW, "MLLW")][k].clone();
        let (iv, ivn) = [(DataInterval::Default, ""), (DataInterval::Hourly, "h"), (DataInterval::HiLo, "hilo")][k % 3].clone();
        let (u, un) = [(UnitSystem::Metric, "metric"), (UnitSystem::English, "english")][k / 3].clone();
        let url = s.tidal_data_url(&a, &b, &datum, &iv, &u);
        let want = format!("https://api.tidesandcurrents.noaa.gov/api/prod/datagetter?begin_date={y}{m:02}{}%20{}:{}&end_date=202503{}%20{}:{}&station=8452660&product=predictions&datum={dn}&interval={ivn}&units={un}&time_zone=gmt&application=web_services&format=json", two_digits(d), two_digits(h), two_digits(mi), two_digits(d2), two_digits(h2), two_digits(mi2));
        check(url == want, "the address of tide predictions");
        reach("address");
    }
    fn h_st_tides() {
        let k = case(4);
        let id = digits(2, 0, false, 1);
        let (la, lo) = (digits(2, 3, k % 2 == 1, 1), digits(2, 2, k < 2, 1));
        let text = format!("{{\"count\":2,\"units\":null,\"stations\":[{{\"state\":\"HI\",\"tidepredoffsets\":{{\"self\":\"x\"}},\"type\":\"S\",\"timemeridian\":null,\"reference_id\":\"TPT2777\",\"timezonecorr\":-10,\"id\":\"161{}77\",\"name\":\"Hilo\",\"lat\":{},\"lng\":{},\"affiliations\":\"\",\"products\":null}},{{\"id\":\"1614277\",\"name\":\"Kuhio\",\"lat\":19.73,\"lng\":-155.06,\"state\":\"XX\",\"reference_id\":\"\"}}],\"self\":null}}", id.0, la.0, lo.0);
        let s = TideStations::from_raw_data(&text);
        check(s.station_count == 2 && s.stations.len() == 2, "a station per entry");
        let a = &s.stations[0];
        check((a.state == "HI") & (a.reference_id == "TPT2777") & (a.name == "Hilo"), "state and name");
        check(near(a.latitude * 1000.0, la.1 as f64, 1e-6) & near(a.longitude * 100.0, lo.1 as f64, 1e-6), "place of a station");
        let f = a.as_feature();
        let p = point(&f);
        check(p.len() == 2 && (p[0] == a.longitude) & (p[1] == a.latitude), "longitude comes first on a map");
        let pr = f.properties.as_ref().unwrap();
        check(pr["name"].as_str() == Some("Hilo") && pr["state"].as_str() == Some("HI") && pr["id"].as_str() == Some(a.station_id.as_str()), "properties of a station");
        let l = a.location();
        check((l.latitude == a.latitude) & (l.longitude == a.longitude) & (l.name == "Hilo"), "location of a station");
        let want = ["1614277", "1611177", "1619977", "161427"][k];
        match s.find_station_by_id(want) {
            None => { check(k != 0 && (id.1 != [0, 11, 99, 0][k]), "a station is found by its id"); reach("none"); }
            Some(x) => {
                check(x.station_id == want, "a station is found by its id");
                check((x.name == "Hilo") == (id.1 == [42, 11, 99, 0][k]), "the first station of an id is found");
                reach("found");
            }
        }
    }
    fn h_st_weather() {
        let k = case(4);
        let (x, y) = (size(0, [9, 99, 340, 12][k]), size(0, [99, 9, 3, 140][k]));
        let (sx, sy) = (x.to_string(), y.to_string());
        let c = create_gridpoints_url("BOX", &x, &y);
        let f = create_forecast_url("BOX", &x, &y);
        let h = create_hourly_forecast_url("BOX", &x, &y);
        let want = format!("https://api.weather.gov/gridpoints/BOX/{sx},{sy}");
        check(c == want, "the address of a grid point");
        check(f == format!("{want}/forecast") && h == format!("{want}/forecast/hourly"), "the addresses of forecasts");
        check(create_points_url(&Location::new(41.5, -71.25, "x".into())) == "https://api.weather.gov/points/41.5,-71.25", "the address of a place");
        reach("addresses");
    }
    fn h_st_hours() {
        let k = case(4);
        let c = 3 * size(0, 80);
        let r = [ModelTimeOutputResolution::Hourly, ModelTimeOutputResolution::HybridHourlyThreeHourly(c), ModelTimeOutputResolution::ThreeHourly, ModelTimeOutputResolution::HybridThreeHourlySixHourly(c)][k].clone();
        let i = size(0, 400);
        let h = r.hour_for_index(i);
        let next = r.hour_for_index(i + 1);
        let (fine, coarse) = [(1, 1), (1, 3), (3, 3), (3, 6)][k];
        check(r.hour_for_index(0) == 0, "the first output is at the start");
        check(next - h == if (k % 2 == 0) | (h < c) { fine } else { coarse }, "steps between outputs");
        check(r.index_for_hour(h) == i, "the output of an hour");
        let x = size(0, 5);
        assume(h + x < next);
        check(r.index_for_hour(h + x) == i, "hours between outputs belong to the one before");
        reach("hours");
    }
    fn h_st_ranges() {
        let k = case(4);
        let c = 6;
        let r = [ModelTimeOutputResolution::Hourly, ModelTimeOutputResolution::HybridHourlyThreeHourly(c), ModelTimeOutputResolution::ThreeHourly, ModelTimeOutputResolution::HybridThreeHourlySixHourly(c)][k].clone();
        let a = split(int(0, 12)) as usize;
        let b = split(int(a as i64, a as i64 + 6)) as usize;
        let v = r.hours_for_index_range(a, b);
        check(v.len() == b - a + 1, "an hour per output");
        for (i, x) in v.iter().enumerate() { check(*x == r.hour_for_index(a + i), "hours of outputs"); }
        let w = r.hours_for_hour_range(a, b);
        for i in 0..w.len() { check(i == 0 || w[i] > w[i - 1], "hours ascend"); check(w[i] <= b, "hours of a range"); }
        check(w.len() >= 1 && w[0] <= a && r.hour_for_index(r.index_for_hour(b) + 1) > b && w[w.len() - 1] == r.hour_for_index(r.index_for_hour(b)), "a range has all its outputs");
        reach("ranges");
    }
    fn h_st_model_url() {
        let k = case(6);
        let (y, m) = [(2023, 2), (2024, 2), (2022, 12), (1999, 6), (2024, 10), (2001, 1)][k];
        let (d, h, mi) = (int(1, month_days(y, m)), int(0, 23), int(0, 59));
        let date = DateTime::from_timestamp((civil(y, m, 0) + d) * 86400 + h * 3600 + mi * 60, 0).unwrap();
        let out = [0, 5, 48, 120, 384, 99][k];
        let (src, root) = [(ModelDataSource::NODDAWS, "https://noaa-gfs-bdp-pds.s3.amazonaws.com"), (ModelDataSource::NODDGCP, "https://storage.googleapis.com/global-forecast-system"), (ModelDataSource::NOMADS, "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gfs/prod")][k % 3].clone();
        let (g, id) = match k { 0 => (GFSWaveModel::atlantic(), "atlocn.0p16"), 1 => (GFSWaveModel::west_coast(), "wcoast.0p16"), 2 => (GFSWaveModel::east_pacific(), "epacif.0p16"), 3 => (GFSWaveModel::global_16(), "global.0p16"), _ => (GFSWaveModel::global_25(), "global.0p25") };
        let run = g.closest_model_run_date(&date);
        let url = g.create_url(&src, out, Some(date));
        let (rd, rh) = (run.day() as i64, run.hour() as i64);
        let (ry, rm) = (run.year(), run.month());
        let want = format!("{root}/gfs.{ry}{rm:02}{}/{}/wave/gridded/gfswave.t{}z.{id}.f{out:03}.grib2", two_digits(rd), two_digits(rh), two_digits(rh));
        check(url == want, "the address of a model's output");
        let (ryt, rdt, rht) = (format!("{ry}{rm:02}"), two_digits(rd), two_digits(rh));
        if k % 3 != 1 {
            let groot = if k % 3 == 0 { "https://noaa-gefs-pds.s3.amazonaws.com" } else { "https://nomads.ncep.noaa.gov/pub/data/nccf/com/gefs/prod" };
            let (e, eid) = if k < 3 { (GEFSWaveModel::global_25_mean(), "mean.global.0p25") } else { (GEFSWaveModel::global_25_spread(), "spread.global.0p25") };
            check(e.create_url(&src, out, Some(date)) == format!("{groot}/gefs.{ryt}{rdt}/{rht}/wave/gridded/gefs.wave.t{rht}z.{eid}.f{out:03}.grib2"), "the address of an ensemble's output");
        }
        check(NWPSModel::boston().create_url(&ModelDataSource::NOMADS, out, Some(date)) == format!("https://nomads.ncep.noaa.gov/pub/data/nccf/com/nwps/prod/er.{ryt}{rdt}/box/{rht}/CG1/box_nwps_CG1_{ryt}{rdt}_{rht}00.grib2"), "the address of a nearshore model's output");
        let b = BuoyStation::new("44097".into(), 40.969, -71.127);
        let (bd, bh) = (two_digits(d), two_digits(h));
        let base = format!("{root}/gfs.{y}{m:02}{bd}/{bh}/wave/station");
        check(b.gfswave_bulletin_data_url(&src, &date) == format!("{base}/bulls.t{bh}z/gfswave.44097.cbull"), "the address of a bulletin");
        check(b.gfswave_spectral_data_url(&src, &date) == format!("{base}/bulls.t{bh}z/gfswave.44097.spec"), "the address of forecast spectra");
        reach("address");
    }
    fn h_st_buoys() {
        let k = case(4);
        let f: Vec<bool> = (0..4).map(|_| int(0, 1) == 1).collect();
        let yn = |b: bool| unsafe { String::from_utf8_unchecked(vec![110 + 11 * (b as u8)]) };
        let (la, lo) = (digits(2, 3, k % 2 == 1, 1), digits(2, 2, k < 2, 1));
        let text = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><stations created=\"2022-01-16T18:50:01UTC\" count=\"2\"><station id=\"13001\" lat=\"12\" lon=\"-23\" name=\"NE Extension\" owner=\"Prediction\" pgm=\"Inter\" type=\"buoy\" met=\"n\" currents=\"n\" waterquality=\"n\" dart=\"n\"/><station id=\"44097\" lat=\"{}\" lon=\"{}\" elev=\"0\" name=\"{}\" owner=\"CDIP\" pgm=\"IOOS\" type=\"buoy\" met=\"{}\" currents=\"{}\" waterquality=\"{}\" dart=\"{}\"/></stations>", la.0, lo.0, ["Block Island, RI (154)", "SP031 - 3801500", "4800923 - Penobscot Bay", "(old) East  Hatteras - 44014"][k], yn(f[0]), yn(f[1]), yn(f[2]), yn(f[3]));
        let s = BuoyStations::from_raw_data(&text);
        check(s.station_count == 2 && s.stations.len() == 2, "a station per entry");
        let b = match s.find_station("44097") { Some(b) => b, None => { check(false, "a station is found by its id"); return; } };
        check(near(b.latitude * 1000.0, la.1 as f64, 1e-6) & near(b.longitude * 100.0, lo.1 as f64, 1e-6), "place of a station");
        check((b.has_meteorological_data == f[0]) & (b.has_currents_data == f[1]) & (b.has_water_quality_data == f[2]) & (b.has_tsnuami_data == f[3]), "what a station measures");
        check(b.is_active() == (f[0] | f[1] | f[2] | f[3]), "a station that measures something is active");
        check(b.name() == ["Block Island, RI", "SP031", "Penobscot Bay", "East Hatteras"][k], "name of a station");
        let f = b.as_feature();
        let p = point(&f);
        check(p.len() == 2 && (p[0] == b.longitude) & (p[1] == b.latitude), "longitude comes first on a map");
        check(f.properties.as_ref().unwrap()["isActive"].as_bool() == Some(b.is_active()), "a station that measures something is active");
        reach("stations");
    }
    fn h_st_dap() {
        let k = case(3);
        let v: Vec<(usize, usize, usize)> = [(size(0, 12), size(1, 3), 5), (3, 2, size(0, 11))][..k].to_vec();
        let c = DapConstraint::new("wave_height".into(), v.clone());
        let want = format!("wave_height{}", v.iter().map(|r| format!("[{}:{}:{}]", r.0, r.1, r.2)).collect::<Vec<_>>().join(""));
        let s = c.to_string();
        check(s == want, "a constraint as text");
        match s.parse::<DapConstraint>() {
            Ok(d) => { check(d.var == "wave_height" && d.ranges == v, "a constraint reads back"); reach("constraint"); }
            Err(_) => check(false, "a constraint reads back"),
        }
        check(format_dods_url("u", &[c.clone(), DapConstraint::new("time".into(), vec![])]) == format!("u.dods?{want},time"), "an address with constraints");
    }
    fn h_st_many() {
        // long lists
        let k = case(2);
        let n = 40;
        let d = int(0, 9);
        let t = unsafe { String::from_utf8_unchecked(vec![48 + d as u8]) };
        let free = |i: usize| i == 3 || i == 38;
        let digit = |i: usize| if free(i) { t.clone() } else { (i % 10).to_string() };
        let place = |i: usize| (if i % 2 == 0 { -1.0 } else { 1.0 }) * (10.0 + i as f64 / 2.0) ;
        if k == 0 {
            let p: Vec<String> = (0..n).map(|i| format!("{{\"id\":\"80{i:02}{}\",\"name\":\"N{i}\",\"lat\":{:.1},\"lng\":{:.1},\"state\":\"S{i}\",\"reference_id\":\"\"}}", digit(i), place(i), -place(i) * 3.0)).collect();
            let s = TideStations::from_raw_data(&format!("{{\"count\":{n},\"stations\":[{}]}}", p.join(",")));
            check(s.stations.len() == n && s.station_count == n, "a station per entry");
            if s.stations.len() != n { return; }
            for i in 0..n {
                let a = &s.stations[i];
                check((a.name == format!("N{i}")) & (a.state == format!("S{i}")) & near(a.latitude, place(i), 1e-9) & near(a.longitude, -place(i) * 3.0, 1e-9), "stations of a long list");
                if !free(i) { check(match s.find_station_by_id(&format!("80{i:02}{}", i % 10)) { Some(x) => x.name == format!("N{i}"), None => false }, "a station of a long list is found"); }
            }
            check(match s.find_station_by_id("80384") { Some(x) => (x.name == "N38") & (d == 4), None => d != 4 }, "a station of a long list is found");
        } else {
            let p: Vec<String> = (0..n).map(|i| format!("<station id=\"80{i:02}{}\" lat=\"{:.1}\" lon=\"{:.1}\" name=\"N{i}\" owner=\"O\" pgm=\"P\" type=\"buoy\" met=\"{}\" currents=\"n\" waterquality=\"{}\" dart=\"n\"/>", digit(i), place(i), -place(i) * 3.0, if i % 3 == 0 { "y" } else { "n" }, if i % 4 == 1 { "y" } else { "n" })).collect();
            let s = BuoyStations::from_raw_data(&format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><stations created=\"2022-01-16T18:50:01UTC\" count=\"{n}\">{}</stations>", p.join("")));
            check(s.stations.len() == n && s.station_count == n, "a station per entry");
            if s.stations.len() != n { return; }
            for i in 0..n {
                let b = &s.stations[i];
                check(near(b.latitude, place(i), 1e-9) & near(b.longitude, -place(i) * 3.0, 1e-9) & (b.has_meteorological_data == (i % 3 == 0)) & (b.is_active() == (i % 3 == 0 || i % 4 == 1)), "stations of a long list");
                if !free(i) { check(match s.find_station(&format!("80{i:02}{}", i % 10)) { Some(x) => near(x.latitude, place(i), 1e-9), None => false }, "a station of a long list is found"); }
            }
            check(match s.find_station("80384") { Some(x) => near(x.latitude, place(38), 1e-9) & (d == 4), None => d != 4 }, "a station of a long list is found");
        }
        reach("long");
    }
}
