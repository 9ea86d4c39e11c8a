//! Model messages and spectral datasets, through stand-ins for the readers of GRIB and DODS files.
use crate::irs::*;
use chrono::{DateTime, Utc};
use gribberish::message::{LatLngProjection, Message};
use gribberish::templates::product::tables::FixedSurfaceType;
use surfrs::data::gfs_wave_grib_point_data_record::*;
use surfrs::data::swden_wave_data_record::*;
use surfrs::buoy_station::*;
use surfrs::data::latest_obs_data_record::*;
use surfrs::data::meteorological_data_record::*;
use surfrs::dimensional_data::*;
use surfrs::location::Location;
use surfrs::station::*;
use surfrs::model::*;
use surfrs::units::*;

fn at(t: i64) -> DateTime<Utc> { DateTime::from_timestamp(t, 0).unwrap() }
fn grid(lat: &[f64], lng: &[f64], data: Vec<f64>) -> Message {
    let (n, m) = (lat.len(), lng.len());
    let (s, e) = (lat[0].min(lat[n - 1]), lat[0].max(lat[n - 1]));
    Message {
        projector: LatLngProjection { lat: lat.to_vec(), lng: lng.to_vec(), start: (lat[0], lng[0]), end: (lat[n - 1], lng[m - 1]), bbox: (lng[0], s, lng[m - 1], e) },
        data, dims: (n, m), unit: "m".into(), date: at(1_700_000_000), abbrev: "HTSGW".into(), surface: (FixedSurfaceType::GroundOrWater, None),
    }
}
fn signed(x: f64) -> f64 { if x > 180.0 { x - 360.0 } else { x } }

harnesses! {
    fn h_md_tolerance() {
        // all cells within the tolerance of a place, missing ones left out
        exact(true);
        let k = case(3);
        let lng: &[f64] = [&[288.0, 289.0, 290.0, 291.0], &[-72.0, -71.0, -70.0, -69.0], &[10.0, 11.0, 12.0, 13.0]][k];
        let lat: &[f64] = [&[40.0, 41.0, 42.0], &[42.0, 41.0, 40.0], &[-3.0, -2.0, -1.0]][k];
        let missing = [12, 5, 6][case(3)];
        let data: Vec<f64> = (0..12).map(|i| if i == missing { f64::NAN } else { 100.0 + i as f64 }).collect();
        let tol = [0.3, 1.1][case(2)];
        let (s, n) = (lat[0].min(lat[2]), lat[0].max(lat[2]));
        let unsigned = case(2) == 1;
        let (y, x) = (real(s - 1.0, n + 1.0), real(signed(lng[0]) - 1.0, signed(lng[3]) + 1.0));
        let p = Location::new(y, if unsigned && k < 2 { x + 360.0 } else { x }, String::new());
        let r = GFSWaveModel::atlantic().query_location_tolerance(&p, &tol, &grid(lat, lng, data.clone()));
        // (not next to the edges)
        let off = |a: f64, b: f64| (a > b + 1e-6) | (a < b - 1e-6);
        assume(off(y, s) & off(y, n) & off(x, signed(lng[0])) & off(x, signed(lng[3])));
        for v in lat { assume(off(y, v + tol) & off(y, v - tol)); }
        for v in lng { assume(off(x, signed(*v) + tol) & off(x, signed(*v) - tol)); }
        let inside = (y >= s) & (y <= n) & (x >= signed(lng[0])) & (x <= signed(lng[3]));
        match r {
            Err(_) => { check(!inside, "a place on the grid has values"); reach("outside"); }
            Ok(v) => {
                check(inside, "a place off the grid has none");
                let mut i = 0;
                let mut ok = true;
                for c in 0..12 {
                    let near = (y - lat[c / 4] <= tol) & (lat[c / 4] - y <= tol) & (x - signed(lng[c % 4]) <= tol) & (signed(lng[c % 4]) - x <= tol);
                    if c != missing && split(near as i64) == 1 { ok &= i < v.len() && v[i] == 100.0 + c as f64; i += 1; }
                }
                check(ok & (i == v.len()), "the values of the cells within the tolerance");
                reach("inside");
            }
        }
    }
    fn h_md_point() {
        // the record of a place: summary, wind and components of the messages
        let k = case(4);
        let p = Location::new(41.0, -71.0, String::new());
        let cell = |name: &str, level: Option<f64>, v: f64| {
            let mut m = grid(&[40.5, 41.0, 41.5], &[288.5, 289.0, 289.5], vec![9.0, 9.0, 9.0, 9.0, v, 9.0, 9.0, 9.0, 9.0]);
            m.abbrev = name.into();
            if level.is_some() { m.surface = (FixedSurfaceType::OrderedSequence, level); }
            m
        };
        let (hs, tp) = (real(0.0, 20.0), real(1.0, 30.0));
        let dir = int(0, 359);
        let (ws, wd) = (real(0.0, 60.0), int(0, 359));
        let (h1, t1, h2) = (real(0.0, 10.0), real(1.0, 30.0), real(0.0, 10.0));
        let mut all = vec![cell("HTSGW", None, hs), cell("PERPW", None, tp), cell("DIRPW", None, dir as f64)];
        if k & 1 == 1 { all.push(cell("WIND", None, ws)); all.push(cell("WDIR", None, wd as f64)); }
        all.extend([cell("SWELL", Some(1.0), h1), cell("SWPER", Some(1.0), t1), cell("SWDIR", Some(1.0), 200.0)]);
        // the second component lacks its direction, the wind waves are missing or complete
        all.extend([cell("SWELL", Some(2.0), 3.0), cell("SWPER", Some(2.0), 4.0)]);
        all.extend([cell("WVHGT", None, h2), cell("WVPER", None, 5.0), cell("WVDIR", None, if k & 2 == 2 { f64::NAN } else { 45.0 })]);
        if k >= 2 { all.reverse(); }
        let m = GFSWaveModel::atlantic();
        let Ok(r) = GFSWaveGribPointDataRecord::from_messages(&m, &all, &p, 0.2) else { check(false, "a record of the messages"); return; };
        check(r.date == at(1_700_000_000), "date of the messages");
        check((r.wave_summary.wave_height.value == Some(hs)) & (r.wave_summary.period.value == Some(tp)) & (r.wave_summary.wave_height.unit == Unit::Meters), "height and period of the sea");
        check(r.wave_summary.direction.value.as_ref().map(|d| d.degrees as i64) == Some(dir), "direction of the sea");
        check(r.wind_speed.value == if k & 1 == 1 { Some(ws) } else { None }, "wind speed");
        check(r.wind_direction.value.as_ref().map(|d| d.degrees as i64) == if k & 1 == 1 { Some(wd) } else { None }, "wind direction");
        let c = &r.swell_components;
        let two = k & 2 == 0;
        check(c.len() == if two { 2 } else { 1 }, "components with height, period and direction");
        if c.len() == if two { 2 } else { 1 } {
            let mut swell = 0;
            for (i, s) in c.iter().enumerate() {
                let d = s.direction.value.as_ref().map_or(-1, |d| d.degrees);
                if d == 200 { swell += 1; check((s.wave_height.value == Some(h1)) & (s.period.value == Some(t1)), "a swell component"); }
                else { check((d == 45) & (s.wave_height.value == Some(h2)) & (s.period.value == Some(5.0)), "the wind waves"); }
                if i > 0 { check(c[0].wave_height.value >= s.wave_height.value, "the highest component first"); }
            }
            check(swell == 1, "one swell component");
        }
        for n in ["HTSGW", "PERPW", "DIRPW"] {
            let rest: Vec<Message> = all.iter().filter(|m| m.abbrev != n).cloned().collect();
            check(GFSWaveGribPointDataRecord::from_messages(&m, &rest, &p, 0.2).is_err(), "no record without the sea state");
        }
        reach("point");
    }
    fn h_md_swden() {
        // one record per time, the values of its frequencies
        let (nt, nk) = [(2, 3), (3, 2), (1, 4), (2, 1), (6, 46)][case(5)];
        let cut = case(2);
        let freq: Vec<f64> = (0..nk).map(|i| if i < 5 { real(0.01, 1.0) } else { 0.02 + 0.01 * i as f64 }).collect();
        let free_time = int(1_700_006_400, 1_700_092_799);
        let times: Vec<i64> = (0..nt).map(|t| if t + 1 == nt { free_time } else { 1_600_000_000 - 3600 * t as i64 }).collect();
        let n = nt * nk - cut;
        let free = real(0.0, 100.0);
        let mut vals = vec![];
        let mut vars = vec![];
        for (j, name) in ["spectral_wave_density", "mean_wave_dir", "principal_wave_dir", "wave_spectrum_r1", "wave_spectrum_r2"].iter().enumerate() {
            let v: Vec<f64> = (0..n).map(|i| if i % 2 == 0 { free + (10 * i + j) as f64 } else { (1000 * j + i) as f64 }).collect();
            vars.push(readap::Variable { name: (*name).into(), coords: vec![("time".into(), readap::DataArray::I64(times.clone())), ("frequency".into(), readap::DataArray::F64(freq.clone()))], data: v.clone() });
            vals.push(v);
        }
        vars.reverse();
        readap::register(vars);
        let c = SwdenWaveDataRecordCollection::from_data(&[]);
        let r: Vec<SwdenWaveDataRecord> = c.records().collect();
        check(r.len() == nt - cut, "one record per whole time");
        for (t, x) in r.iter().enumerate() {
            check(x.frequency.len() == nk, "frequencies of a record");
            check(x.date.timestamp() == times[t], "date of a record");
            let mut ok = true;
            for (j, v) in [&x.energy_spectra, &x.mean_wave_direction, &x.primary_wave_direction, &x.first_polar_coefficient, &x.second_polar_coefficient].iter().enumerate() {
                ok &= v.len() == nk;
                for i in 0..nk { if v.len() == nk { ok &= v[i] == vals[j][t * nk + i]; } }
            }
            for i in 0..nk { ok &= x.frequency[i] == freq[i]; }
            check(ok, "values of a record");
        }
        reach("dataset");
    }
    fn h_md_stdmet() {
        // observations of a dataset, each with its own way to say that a reading is missing
        const NAMES: [&str; 13] = ["wind_dir", "wind_spd", "gust", "wave_height", "dominant_wpd", "average_wpd", "mean_wave_dir", "air_pressure", "air_temperature", "sea_surface_temperature", "dewpt_temperature", "visibility", "water_level"];
        const MISSING: [f64; 13] = [999.0, 99.0, 99.0, 99.0, 99.0, 99.0, 999.0, 9999.0, 999.0, 999.0, 999.0, 99.0, 99.0];
        let k = case(13);
        let n = [2, 3, 1, 40][case(4)];
        let which = case(3);
        let free_time = int(1_700_006_400, 1_700_092_799);
        let times: Vec<i64> = (0..n).map(|t| if t + 1 == n { free_time } else { 1_600_000_000 + 600 * t as i64 }).collect();
        // variable k has a free, a missing or another variable's missing value at the last time
        let dir = k == 0 || k == 6;
        let odd = if dir { int(0, 360) as f64 } else { real(-60.0, 1100.0) };
        let value = |j: usize, t: usize| -> f64 {
            if j == k && t + 1 == n { match which { 0 => odd, 1 => MISSING[j], _ => if MISSING[j] == 99.0 { 98.0 } else { 99.0 } } }
            else if (j + t) % 5 == 4 { MISSING[j] } else { (10 * t + j) as f64 + 0.5 }
        };
        let mut vars = vec![];
        for (j, name) in NAMES.iter().enumerate() {
            vars.push(readap::Variable { name: (*name).into(), coords: vec![("time".into(), readap::DataArray::I64(times.clone())), ("latitude".into(), readap::DataArray::F64(vec![41.0])), ("longitude".into(), readap::DataArray::F64(vec![-71.0]))], data: (0..n).map(|t| value(j, t)).collect() });
        }
        if n == 2 { vars.reverse(); }
        readap::register(vars);
        let c = StdmetDataRecordCollection::from_data(&[]);
        let r: Vec<MeteorologicalDataRecord> = c.records().collect();
        check(r.len() == n, "one record per time");
        for (t, x) in r.iter().enumerate() {
            check(x.date.timestamp() == times[t], "date of a record");
            let want = |j: usize| {
                let v = value(j, t);
                (v, (v > MISSING[j] + 1e-3) | (v < MISSING[j] - 1e-3), v == MISSING[j])
            };
            let is = |d: &DimensionalData<f64>, j: usize, u: Unit| { let (v, present, missing) = want(j); (match d.value { Some(x) => !missing & (x == v), None => !present }) & (d.unit == u) };
            let heads = |d: &DimensionalData<Direction>, j: usize| { let (v, present, missing) = want(j); (match &d.value { Some(x) => { let e = x.degrees as i64 - v as i64; !missing & ((e == 0) | (e == 360) | (e == -360)) } None => !present }) & (d.unit == Unit::Degrees) };
            check(heads(&x.wind_direction, 0) & heads(&x.mean_wave_direction, 6), "directions of wind and waves");
            check(is(&x.wind_speed, 1, Unit::MetersPerSecond) & is(&x.wind_gust_speed, 2, Unit::MetersPerSecond), "wind and gusts");
            check(is(&x.wave_height, 3, Unit::Meters) & is(&x.dominant_wave_period, 4, Unit::Seconds) & is(&x.average_wave_period, 5, Unit::Seconds), "height and periods");
            check(is(&x.air_pressure, 7, Unit::HectaPascal) & x.air_pressure_tendency.value.is_none(), "pressure");
            check(is(&x.air_temperature, 8, Unit::Celsius) & is(&x.water_temperature, 9, Unit::Celsius) & is(&x.dewpoint_temperature, 10, Unit::Celsius), "temperatures");
            check(is(&x.visibility, 11, Unit::NauticalMiles) & is(&x.tide, 12, Unit::Feet), "visibility and water level");
        }
        reach("observations");
    }
    fn h_md_table() {
        // an observation as tables of readings and of texts
        let k = case(14);
        let w = int(10, 99);
        let dir = int(0, 359);
        let v = real(-50.0, 1100.0);
        let one = |j: usize, name: &str, u: Unit| DimensionalData { value: if j == k { None } else if j == (k + 1) % 14 { Some(v) } else { Some(j as f64 + 100.0) }, variable_name: name.into(), unit: u };
        let head = |j: usize, name: &str, d: i64| DimensionalData { value: if j == k { None } else { Some(Direction::from_degrees(d as i32)) }, variable_name: name.into(), unit: Unit::Degrees };
        let names = ["wind direction", "wind speed", "wind gust speed", "wave height", "dominant wave period", "average wave period", "mean wave direction", "air pressure", "air pressure tendency", "air temperature", "water temperature", "dewpoint temperature", "visibility", "tide"];
        let units = [Unit::Degrees, Unit::MetersPerSecond, Unit::MetersPerSecond, Unit::Meters, Unit::Seconds, Unit::Seconds, Unit::Degrees, Unit::HectaPascal, Unit::HectaPascal, Unit::Celsius, Unit::Celsius, Unit::Celsius, Unit::NauticalMiles, Unit::Feet];
        let f = |j: usize| one(j, names[j], units[j].clone());
        let m = MeteorologicalDataRecord { date: at(1_700_000_000 + w), wind_direction: head(0, names[0], dir), wind_speed: f(1), wind_gust_speed: f(2), wave_height: f(3), dominant_wave_period: f(4), average_wave_period: f(5), mean_wave_direction: head(6, names[6], 359 - dir), air_pressure: f(7), air_pressure_tendency: f(8), air_temperature: f(9), water_temperature: f(10), dewpoint_temperature: f(11), visibility: f(12), tide: f(13) };
        let t: std::collections::HashMap<String, DimensionalData<f64>> = m.clone().into();
        check(match t.get("date") { Some(d) => (d.value == Some((1_700_000_000 + w) as f64)) & (d.unit == Unit::Seconds), None => false }, "date of an observation in a table");
        for j in 0..14 {
            // (the tendency of the pressure is left out)
            if j == 8 { continue; }
            let want = match j { _ if j == k => None, 0 => Some(dir as f64), 6 => Some((359 - dir) as f64), _ => f(j).value };
            check(match t.get(names[j]) { Some(d) => (d.value == want) & (d.unit == units[j]), None => false }, "a reading in a table");
        }
        reach("table");
    }
    fn h_md_texts() {
        let k = case(14);
        let v = split(int(10, 40));
        let whole = |j: usize| if j == k { None } else if j == (k + 1) % 14 { Some(v) } else { Some(100 + j as i64) };
        let names = ["wind direction", "wind speed", "wind gust speed", "wave height", "dominant wave period", "average wave period", "mean wave direction", "air pressure", "air pressure tendency", "air temperature", "water temperature", "dewpoint temperature", "visibility", "tide"];
        let f = |j: usize| DimensionalData { value: whole(j).map(|x| x as f64), variable_name: names[j].into(), unit: Unit::Meters };
        let head = |j: usize| DimensionalData { value: if j == k { None } else { Some(Direction::from_degrees(30 + j as i32)) }, variable_name: names[j].into(), unit: Unit::Degrees };
        let m = MeteorologicalDataRecord { date: at(1_700_000_000), wind_direction: head(0), wind_speed: f(1), wind_gust_speed: f(2), wave_height: f(3), dominant_wave_period: f(4), average_wave_period: f(5), mean_wave_direction: head(6), air_pressure: f(7), air_pressure_tendency: f(8), air_temperature: f(9), water_temperature: f(10), dewpoint_temperature: f(11), visibility: f(12), tide: f(13) };
        let t: std::collections::HashMap<String, Option<String>> = m.clone().into();
        for j in 0..14 {
            if j == 8 { continue; }
            let want = match j { 0 => m.wind_direction.try_string(), 6 => m.mean_wave_direction.try_string(), _ => f(j).try_string() };
            check(match t.get(names[j]) { Some(d) => (*d == want) & (d.is_some() == (j != k)), None => false }, "a text in a table");
        }
        reach("texts");
    }
    fn h_md_map() {
        // the latest observations on the map of the stations
        let k = case(3);
        let (lat, lng) = (real(-80.0, 80.0), real(-180.0, 180.0));
        let (h, p, tide) = (real(0.0, 20.0), real(1.0, 30.0), real(-5.0, 5.0));
        let dir = int(0, 359);
        let none = |n: &str, u: Unit| DimensionalData { value: None, variable_name: n.into(), unit: u };
        let some = |v: f64, n: &str, u: Unit| DimensionalData { value: Some(v), variable_name: n.into(), unit: u };
        let obs = |id: &str, h: f64| LatestObsDataRecord { station_id: id.into(), latitude: 1.0, longitude: 2.0, date: at(1_700_000_000), wind_direction: DimensionalData { value: None, variable_name: "wind direction".into(), unit: Unit::Degrees }, wind_speed: none("wind speed", Unit::MetersPerSecond), wind_gust_speed: none("", Unit::MetersPerSecond), wave_height: some(h, "wave height", Unit::Meters), dominant_wave_period: if k == 1 { none("p", Unit::Seconds) } else { some(p, "p", Unit::Seconds) }, average_wave_period: none("", Unit::Seconds), mean_wave_direction: DimensionalData { value: if k == 2 { None } else { Some(Direction::from_degrees(dir as i32)) }, variable_name: "d".into(), unit: Unit::Degrees }, air_pressure: none("", Unit::HectaPascal), air_pressure_tendency: none("", Unit::HectaPascal), air_temperature: none("", Unit::Celsius), water_temperature: none("", Unit::Celsius), dewpoint_temperature: none("", Unit::Celsius), visibility: none("", Unit::NauticalMiles), tide: some(tide, "tide", Unit::Feet) };
        let stations = vec![BuoyStation::new("44097".into(), lat, lng), BuoyStation::new("44017".into(), 40.0, -72.0), BuoyStation::new("51201".into(), 21.0, -158.0)];
        let m = latest_obs_feature_collection(&stations, &vec![obs("51201", 2.5), obs("44097", h), obs("99999", 3.0)]);
        check(m.features.len() == 3, "a feature per station");
        if m.features.len() != 3 { return; }
        for (i, f) in m.features.iter().enumerate() {
            let g = match &f.geometry.as_ref().unwrap().value { geojson::Value::Point(p) => p.clone(), _ => vec![] };
            check(g.len() == 2 && (g[0] == stations[i].longitude) & (g[1] == stations[i].latitude), "a station at its own place");
            let o = f.property("latest_observations");
            check(o.is_some() == (i != 1), "observations of the stations that have any");
            if i == 1 { continue; }
            let Some(o) = o else { return; };
            check(o["wave_height"]["value"].as_f64() == Some(if i == 0 { h } else { 2.5 }), "wave height of a station");
            check(o["tide"]["value"].as_f64() == Some(tide), "tide of a station");
            check(o["dominant_wave_period"]["value"].as_f64() == if k == 1 { None } else { Some(p) }, "period of a station");
            check(o.get("dominant_wave_period").is_some() == (k != 1) && o.get("mean_wave_direction").is_some() == (k != 2), "missing readings are left out");
            for n in ["wind_direction", "wind_speed", "air_pressure", "water_temperature", "visibility", "station_id", "latitude", "longitude"] { check(o.get(n).is_none(), "missing readings are left out"); }
            if k != 2 { check(o["mean_wave_direction"]["value"]["degrees"].as_i64() == Some(dir), "direction of a station"); }
            check(o["date"].as_str().is_some(), "date of the observations");
        }
        reach("map");
    }
}
