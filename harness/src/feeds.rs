//! Index files, tide and weather feeds and the addresses they come from, with symbolic digits.
use crate::irs::*;
use crate::records::{civil, digits, holds, month_days, num, refs, two};
use chrono::prelude::*;
use surfrs::data::grib_index_record::*;
use surfrs::data::nws_weather_forecast_data_record::*;
use surfrs::data::parseable_data_record::*;
use surfrs::data::tidal_data_record::*;
use surfrs::units::*;

const MONTHS: [(i64, i64); 5] = [(2023, 2), (2024, 2), (2022, 12), (2024, 4), (1999, 0)];

harnesses! {
    fn h_fd_index() {
        let k = case(5);
        let (y, m) = MONTHS[k];
        let (day, hour) = (two(), two());
        let ok = (day.1 >= 1) & (day.1 <= month_days(y, m)) & (hour.1 <= 23);
        let i = digits([1, 2, 3, 4, 1][k], 0, false, 1);
        let o = digits([6, 9, 1, 12, 3][k], 0, false, 1);
        let row = vec![i.0.clone(), o.0.clone(), format!("d={y}{m:02}{}{}", day.0, hour.0), "REFD".to_string(), "2 hybrid level".to_string(), "34 hour fcst".to_string(), "".to_string()];
        match GribIndexRecord::from_data_row(None, &refs(&row[..if k % 2 == 0 { 7 } else { 6 }])) {
            Err(_) => { check(!ok, "a row with a date is a record"); reach("no such date"); }
            Ok(r) => {
                check(ok, "there are no records without a date");
                check((r.index as i64 == i.1) & (r.offset as i64 == o.1), "index and offset");
                check(r.reference_date.timestamp() == (civil(y, m, 0) + day.1) * 86400 + hour.1 * 3600, "reference date");
                check((r.var == "REFD") & (r.level == "2 hybrid level") & (r.valid == "34 hour fcst"), "variable, level and time");
                reach("row");
            }
        }
    }
    fn h_fd_index_text() {
        let k = case(3);
        let (day, a, b) = (two(), digits(2, 0, false, 1), digits(5, 0, false, 1));
        let c = num(1, 0, false);
        let odd = ["7:12:d=2023051512:TMP:surface\n", "x:12:d=2023051512:TMP:surface:anl:\n", ""][k];
        let text = format!("{}:{}:d=202302{}12:REFD:2 hybrid level:34 hour fcst:\n{odd}9:{}00:d=2023051506:UGRD: 10 m above ground :anl:\n", a.0, b.0, day.0, c.0);
        let ok = (day.1 >= 1) & (day.1 <= 28);
        let mut coll = GribIndexRecordCollection::from_data(&text);
        let r: Vec<GribIndexRecord> = coll.records().collect();
        check(r.len() >= 1 && r.len() <= 2 && (r.len() == 2) == ok, "every whole row is a record");
        let l = &r[r.len() - 1];
        check((l.index == 9) & (l.offset as i64 == c.1 * 100) & (l.var == "UGRD") & (l.level == "10 m above ground") & (l.valid == "anl") & (l.reference_date.timestamp() == civil(2023, 5, 15) * 86400 + 6 * 3600), "the other row");
        if r.len() == 2 {
            check((r[0].index as i64 == a.1) & (r[0].offset as i64 == b.1) & (r[0].reference_date.timestamp() == civil(2023, 2, day.1) * 86400 + 12 * 3600), "the first row");
            reach("two rows");
        } else { reach("one row"); }
    }
    fn h_fd_short() {
        let full = ["8", "2540945", "d=2023051512", "REFD", "2 hybrid level", "34 hour fcst"];
        for n in 0..6 { check(GribIndexRecord::from_data_row(None, &full[..n].to_vec()).is_err(), "a row that ends early is no record"); }
        let b = [int(32, 126), int(32, 126)];
        let t = unsafe { String::from_utf8_unchecked(vec![b[0] as u8, b[1] as u8]) };
        let digit = |c: i64| (c >= 48) & (c <= 57);
        let mut row = full.to_vec();
        row[1] = t.as_str();
        let r = GribIndexRecord::from_data_row(None, &row);
        check(r.is_ok() == (digit(b[1]) & (digit(b[0]) | (b[0] == 43))), "an offset is a number");
        if let Ok(r) = r { check(r.offset as i64 == if b[0] == 43 { b[1] - 48 } else { 10 * (b[0] - 48) + b[1] - 48 }, "value of an offset"); reach("offset"); }
    }
    fn h_fd_tide() {
        let k = case(5);
        let (y, m) = MONTHS[k];
        let (d, h, mi) = (two(), two(), two());
        let ok = (d.1 >= 1) & (d.1 <= month_days(y, m)) & (h.1 <= 23) & (mi.1 <= 59);
        let v = num(1, 3, k == 1 || k == 3);
        let second = num(2, 0, false);
        let q = if k < 3 { "\"" } else { "" };
        let kind = ["", ", \"type\":\"H\"", ",\"type\": \"L\"", ", \"type\":\"H\"", ""][k];
        let text = format!("{{\"predictions\" : [\n{{\"t\":\"{y}-{m:02}-{} {}:{}\", \"v\":{q}{}{q}{kind}}},{{\"t\":\"2023-01-02 21:06\", \"v\":\"0.1{}\", \"type\":\"L\"}}]}}", d.0, h.0, mi.0, v.0, second.0);
        match TidalDataRecordCollection::from_json(&text) {
            Err(_) => { check(!ok, "a prediction with a date is a record"); reach("no such date"); }
            Ok(c) => {
                check(ok, "there are no records without a date");
                check(c.records.len() == 2, "a record per prediction");
                let r = &c.records[0];
                check(r.date.timestamp() == (civil(y, m, 0) + d.1) * 86400 + h.1 * 3600 + mi.1 * 60, "time of a prediction");
                check(near(r.value * 1000.0, v.1 as f64, 1e-6), "height of a prediction");
                check(r.event == [None, Some(TidalEvent::High), Some(TidalEvent::Low), Some(TidalEvent::High), None][k], "high or low water");
                check((c.records[1].date.timestamp() == civil(2023, 1, 2) * 86400 + 21 * 3600 + 360) & near(c.records[1].value * 1000.0, 100.0 + second.1 as f64, 1e-6) & (c.records[1].event == Some(TidalEvent::Low)), "the next prediction");
                reach("predictions");
            }
        }
    }
    fn h_fd_tide_odd() {
        // anything else is an error
        let k = case(3);
        let b = if k == 0 { [int(35, 91), 32] } else { [int(43, 57), int(43, 57)] };
        let t = unsafe { String::from_utf8_unchecked(vec![b[0] as u8, b[1] as u8]) };
        let digit = |c: i64| (c >= 48) & (c <= 57);
        match k {
            0 => {
                let r = TidalDataRecordCollection::from_json(&format!("{{\"predictions\":[{{\"t\":\"2023-01-02 21:06\",\"v\":\"1.0\",\"type\":\"{}\"}}]}}", &t[..1]));
                check(r.is_ok() == ((b[0] == 72) | (b[0] == 76)), "only high and low water");
            }
            1 => {
                let r = TidalDataRecordCollection::from_json(&format!("{{\"predictions\":[{{\"t\":\"2023-01-02 21:06\",\"v\":\"{t}\"}}]}}"));
                let sign = (b[0] == 43) | (b[0] == 45);
                check(r.is_ok() == ((digit(b[0]) & (digit(b[1]) | (b[1] == 46))) | ((sign | (b[0] == 46)) & digit(b[1]))), "only numbers are heights");
            }
            _ => {
                for s in ["{\"predictions\":[{\"t\":\"2023-01-02 21:06\"}]}", "{\"predictions\":[{\"v\":\"1.0\"}]}", "{\"predictions\":[{\"t\":\"2023-01-02 21:06\",\"v\":true}]}", "{}", "[]", "{\"predictions\":[{\"t\":\"2023-01-02\",\"v\":\"1\"}]}"] { check(TidalDataRecordCollection::from_json(s).is_err(), "a prediction has a time and a height"); }
                check(TidalDataRecordCollection::from_json("{\"predictions\":[]}").map(|c| c.records.len() == 0).unwrap_or(false), "no predictions");
                reach("parts");
            }
        }
    }
    fn h_fd_nws() {
        let k = case(6);
        let (d, h, mi) = (two(), two(), two());
        let zone = [0, -5, 5, -4, 12, -10][k];
        let ok = (d.1 >= 1) & (d.1 <= 29) & (h.1 <= 23) & (mi.1 <= 59);
        let t = digits(2, 0, k % 2 == 1, 1);
        let (dew, hum, pop) = (digits(2, 2, k == 2, 1), digits(2, 0, false, 1), num(1, 0, false));
        let w = digits(2, 0, false, 1);
        let dirs = ["N", "SSW", "E", "NW", "WNW", "S"];
        let degs = [0, 202, 90, 315, 292, 180];
        let (tu, du) = (["F", "C", "F", "F", "K", "F"][k], ["wmoUnit:degC", "wmoUnit:degC", "wmoUnit:degC", "wmoUnit:degF", "wmoUnit:degC", "wmoUnit:degC"][k]);
        let wu = ["mph", "kt", "mph", "m/s", "mph", "mph"][k];
        let day = k % 2 == 0;
        let period = format!("{{\"number\": 1,\"name\":\"\",\"startTime\":\"2024-02-{}T{}:{}:00{}{:02}:00\",\"endTime\":\"2024-03-01T01:00:00-05:00\",\"isDaytime\":{day},\"temperature\":{},\"temperatureUnit\":\"{tu}\",\"temperatureTrend\":null,\"probabilityOfPrecipitation\":{{\"unitCode\":\"wmoUnit:percent\",\"value\":{}}},\"dewpoint\":{{\"unitCode\":\"{du}\",\"value\":{}}},\"relativeHumidity\":{{\"unitCode\":\"wmoUnit:percent\",\"value\":{}}},\"windSpeed\":\"{} {}{wu}\",\"windDirection\":\"{}\",\"icon\":\"i{k}\",\"shortForecast\":\"s{k}\",\"detailedForecast\":\"d{k}\"}}", d.0, h.0, mi.0, if zone < 0 { '-' } else { '+' }, (zone as i64).abs(), t.0, pop.0, dew.0, hum.0, w.0, if k == 2 { "to 45 " } else { "" }, dirs[k]);
        let more = if k == 3 { ",{\"number\":2,\"name\":\"Tonight\",\"startTime\":\"2024-03-01T18:00:00-05:00\",\"endTime\":\"2024-03-02T06:00:00-05:00\",\"isDaytime\":false,\"temperature\":41,\"temperatureUnit\":\"F\",\"temperatureTrend\":\"rising\",\"probabilityOfPrecipitation\":{\"unitCode\":\"wmoUnit:percent\",\"value\":7},\"dewpoint\":{\"unitCode\":\"wmoUnit:degC\",\"value\":3.5},\"relativeHumidity\":{\"unitCode\":\"wmoUnit:percent\",\"value\":88},\"windSpeed\":\"12 mph\",\"windDirection\":\"ESE\",\"icon\":\"a\",\"shortForecast\":\"b\",\"detailedForecast\":\"c\"}" } else { "" };
        let text = format!("{{\"type\":\"Feature\",\"geometry\":{{\"coordinates\":[[[1.5,2]]]}},\"properties\":{{\"units\":\"us\",\"forecastGenerator\":\"H\",\"generatedAt\":\"2024-09-14T18:15:07+00:00\",\"updateTime\":\"2024-09-14T16:53:19+00:00\",\"validTimes\":\"x\",\"elevation\":{{\"unitCode\":\"wmoUnit:m\",\"value\":0}},\"periods\":[{period}{more}]}}}}");
        match NwsWeatherForecastDataRecordCollection::from_json(&text) {
            Err(_) => { check(!ok, "a forecast with dates"); reach("no such date"); }
            Ok(c) => {
                check(ok, "no forecast without dates");
                let r = c.records();
                check(r.len() == if k == 3 { 2 } else { 1 }, "a record per period");
                if k == 3 {
                    let m = &r[1];
                    check((m.start_time.timestamp() == civil(2024, 3, 1) * 86400 + 23 * 3600) & (m.end_time.timestamp() == civil(2024, 3, 2) * 86400 + 11 * 3600) & !m.is_daytime & (m.temperature.value == Some(41.0)) & (m.dewpoint.value == Some(3.5)) & (m.humidity.value == Some(88.0)) & (m.wind_speed.value == Some(12.0)) & (m.short_forecast == "b"), "the next period");
                }
                let r = &r[0];
                check(r.start_time.timestamp() == (civil(2024, 2, 0) + d.1) * 86400 + h.1 * 3600 + mi.1 * 60 - zone * 3600, "start of a period");
                check((r.end_time.timestamp() == civil(2024, 3, 1) * 86400 + 6 * 3600) & (r.is_daytime == day), "end and day time of a period");
                check(holds(&r.temperature.value, t.1, 1.0, false) & (r.temperature.unit == [Unit::Fahrenheit, Unit::Celsius, Unit::Kelvin][if tu == "F" { 0 } else if tu == "C" { 1 } else { 2 }]), "temperature");
                check(holds(&r.dewpoint.value, dew.1, 100.0, false), "dew point");
                if du == "wmoUnit:degC" { check(r.dewpoint.unit == Unit::Celsius, "unit of the dew point"); }
                check(holds(&r.humidity.value, hum.1, 1.0, false) & (r.humidity.unit == Unit::Percent), "humidity");
                check(holds(&r.wind_speed.value, w.1, 1.0, false) & (r.wind_speed.unit == [Unit::MilesPerHour, Unit::Knots, Unit::MilesPerHour, Unit::MetersPerSecond, Unit::MilesPerHour, Unit::MilesPerHour][k]), "wind speed");
                check(match &r.wind_direction.value { Some(x) => near(x.degrees as f64, degs[k] as f64, 1.0), None => false } && r.wind_direction.unit == Unit::Degrees, "wind direction");
                check((r.icon == format!("i{k}")) & (r.short_forecast == format!("s{k}")) & (r.detailed_forecast == format!("d{k}")), "texts");
                reach("forecast");
            }
        }
    }
    fn h_fd_grid() {
        let (x, y) = (digits(3, 0, false, 1), digits(1 + case(3), 0, false, 1));
        let text = format!("{{\"@context\":[\"a\",{{\"b\":{{\"c\":1}}}}],\"id\":\"i\",\"type\":\"Feature\",\"properties\":{{\"@id\":\"u\",\"cwa\":\"BOX\",\"gridId\":\"BOX\",\"gridX\": {},\"gridY\":{},\"forecast\":\"f\"}}}}", x.0, y.0);
        match NwsGridPointData::from_json(&text) {
            Err(_) => check(false, "a grid point"),
            Ok(g) => { check((g.properties.grid_id == "BOX") & (g.properties.grid_x as i64 == x.1) & (g.properties.grid_y as i64 == y.1), "grid point"); reach("grid point"); }
        }
    }
    fn h_fd_long() {
        // many predictions, periods and rows
        let which = case(3);
        let d = int(0, 9);
        let t = unsafe { String::from_utf8_unchecked(vec![48 + d as u8]) };
        let free = |i: usize| i == 0 || i == 17 || i == 39;
        let n = 40;
        let digit = |i: usize| if free(i) { t.clone() } else { (i % 10).to_string() };
        let value = |i: usize| if free(i) { d } else { i as i64 % 10 };
        let when = |i: usize| (2020 + i as i64 % 9, 1 + i as i64 % 12, 1 + (i as i64 * 5) % 28, i as i64 % 24);
        let stamp = |i: usize| { let (y, m, d, h) = when(i); civil(y, m, d) * 86400 + h * 3600 };
        match which {
            0 => {
                let p: Vec<String> = (0..n).map(|i| { let (y, m, dd, h) = when(i); format!("{{\"t\":\"{y}-{m:02}-{dd:02} {h:02}:00\", \"v\":\"{}{}.{}\"{}}}", if i % 3 == 0 { "-" } else { "" }, 1 + i % 13, digit(i), [", \"type\":\"H\"", ", \"type\":\"L\"", ""][i % 3]) }).collect();
                let Ok(c) = TidalDataRecordCollection::from_json(&format!("{{\"predictions\":[{}]}}", p.join(","))) else { check(false, "predictions"); return; };
                check(c.records.len() == n, "a record per prediction");
                if c.records.len() != n { return; }
                let mut ok = true;
                for i in 0..n {
                    let r = &c.records[i];
                    ok &= (r.date.timestamp() == stamp(i)) & near(r.value * 10.0, (if i % 3 == 0 { -1.0 } else { 1.0 }) * (10 * (1 + i as i64 % 13) + value(i)) as f64, 1e-6) & (r.event == [Some(TidalEvent::High), Some(TidalEvent::Low), None][i % 3]);
                }
                check(ok, "the predictions in order");
            }
            1 => {
                let p: Vec<String> = (0..n).map(|i| { let (y, m, dd, h) = when(i); format!("{{\"number\":{i},\"name\":\"\",\"startTime\":\"{y}-{m:02}-{dd:02}T{h:02}:00:00+00:00\",\"endTime\":\"{y}-{m:02}-{dd:02}T{h:02}:30:00+00:00\",\"isDaytime\":{},\"temperature\":{}{},\"temperatureUnit\":\"F\",\"temperatureTrend\":null,\"probabilityOfPrecipitation\":{{\"unitCode\":\"wmoUnit:percent\",\"value\":{i}}},\"dewpoint\":{{\"unitCode\":\"wmoUnit:degC\",\"value\":{}{}.5}},\"relativeHumidity\":{{\"unitCode\":\"wmoUnit:percent\",\"value\":7{}}},\"windSpeed\":\"{}{} mph\",\"windDirection\":\"{}\",\"icon\":\"i{i}\",\"shortForecast\":\"s{i}\",\"detailedForecast\":\"d{i}\"}}", i % 4 < 2, ["6", "10", "-1"][i % 3], digit(i), ["1", "2", "-1"][i % 3], digit(i), digit(i), ["1", "", "4"][i % 3], digit(i), ["N", "ESE", "SW"][i % 3]) }).collect();
                let text = format!("{{\"type\":\"Feature\",\"geometry\":{{\"coordinates\":[[[1.5,2]]]}},\"properties\":{{\"units\":\"us\",\"forecastGenerator\":\"H\",\"generatedAt\":\"2024-09-14T18:15:07+00:00\",\"updateTime\":\"2024-09-14T16:53:19+00:00\",\"validTimes\":\"x\",\"elevation\":{{\"unitCode\":\"wmoUnit:m\",\"value\":0}},\"periods\":[{}]}}}}", p.join(","));
                let Ok(c) = NwsWeatherForecastDataRecordCollection::from_json(&text) else { check(false, "a forecast"); return; };
                let r = c.records();
                check(r.len() == n, "a record per period");
                if r.len() != n { return; }
                let (mut ok, mut texts) = (true, true);
                for i in 0..n {
                    let v = value(i) as f64;
                    ok &= (r[i].start_time.timestamp() == stamp(i)) & (r[i].end_time.timestamp() == stamp(i) + 1800) & (r[i].is_daytime == (i % 4 < 2)) & holds(&r[i].temperature.value, [60 + value(i), 100 + value(i), -10 - value(i)][i % 3], 1.0, false) & holds(&r[i].dewpoint.value, [105 + 10 * value(i), 205 + 10 * value(i), -105 - 10 * value(i)][i % 3], 10.0, false) & holds(&r[i].humidity.value, 70 + value(i), 1.0, false) & holds(&r[i].wind_speed.value, [10, 0, 40][i % 3] + value(i), 1.0, false);
                    ok &= match &r[i].wind_direction.value { Some(x) => near(x.degrees as f64, [0.0, 112.0, 225.0][i % 3], 1.0), None => false };
                    texts &= (r[i].icon == format!("i{i}")) & (r[i].short_forecast == format!("s{i}")) & (r[i].detailed_forecast == format!("d{i}"));
                }
                check(ok, "the periods in order");
                check(texts, "the texts of the periods in order");
            }
            _ => {
                let mut text = String::new();
                for i in 0..n { let (y, m, dd, h) = when(i); text.push_str(&format!("{}:1{}00:d={y}{m:02}{dd:02}{h:02}:V{i}:surface {i}:{i} hour fcst:\n", i + 1, digit(i))); if i == 20 { text.push_str("21:x:d=2023051512:TMP:surface:anl:\n\n"); } }
                let mut c = GribIndexRecordCollection::from_data(&text);
                let r: Vec<GribIndexRecord> = c.records().collect();
                check(r.len() == n, "every whole row is a record");
                if r.len() != n { return; }
                let mut ok = true;
                for i in 0..n { ok &= (r[i].index == i + 1) & (r[i].offset as i64 == 1000 + 100 * value(i)) & (r[i].reference_date.timestamp() == stamp(i)) & (r[i].var == format!("V{i}")) & (r[i].level == format!("surface {i}")) & (r[i].valid == format!("{i} hour fcst")); }
                check(ok, "the rows in order");
            }
        }
        reach("long");
    }
}
