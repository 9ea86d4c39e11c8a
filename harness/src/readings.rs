//! Readings as text and as JSON.
use crate::irs::*;
use crate::records::{holds, num};
use crate::units::UNITS;
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::*;
use surfrs::units::*;

fn label(u: &Unit) -> &'static str {
    use Unit::*;
    match u {
        Millimeters => " mm", Meters => " m", MetersPerSecond => " m/s", Celsius => " °C", Pascal => " pa", HectaPascal => " hpa", Inches => " in", Feet => " ft", MilesPerHour => " mph", Fahrenheit => " °F",
        InchesMercury => " in Hg", Knots => " kt", Kelvin => " K", MetersSquaredPerHertz => " m²/Hz", NauticalMiles => " nmi", Degrees => "", Seconds => " s", Percent => " %", KiloJoules => " kJ", Unknown => " ",
    }
}
const NAMES: [&str; 20] = ["Millimeters", "Meters", "MetersPerSecond", "Celsius", "Pascal", "HectaPascal", "Inches", "Feet", "MilesPerHour", "Fahrenheit", "InchesMercury", "Knots", "Kelvin", "MetersSquaredPerHertz", "NauticalMiles", "Degrees", "Seconds", "Percent", "KiloJoules", "Unknown"];
fn compass(d: i64) -> &'static str { ["n", "nne", "ne", "ene", "e", "ese", "se", "sse", "s", "ssw", "sw", "wsw", "w", "wnw", "nw", "nnw"][(((d * 2 + 22) / 45) % 16) as usize] }

harnesses! {
    fn h_re_text() {
        // a whole number in every unit
        let u = UNITS[case(20)].clone();
        let v = int(-120, 120);
        let d = DimensionalData { value: Some(v), variable_name: "x".into(), unit: u.clone() };
        let want = format!("{v}{}", label(&u));
        check(d.to_string() == want, "value and unit of a reading");
        check(d.try_string() == Some(want), "a present reading has a text");
        let l = label(&u);
        check(d.unit_label() == if u == Unit::Degrees { "°" } else { &l[1..] }, "label of the unit");
        let m = DimensionalData::<i64> { value: None, variable_name: "x".into(), unit: u };
        check((m.to_string() == "N/A") & m.try_string().is_none(), "a missing reading is not available");
        reach("text");
    }
    fn h_re_number() {
        // numbers read from text and printed with one decimal
        let k = case(4);
        let u = [Unit::Meters, Unit::Seconds, Unit::Degrees, Unit::Unknown][k].clone();
        let t = num(2, 1, k == 1);
        let d: DimensionalData<f64> = DimensionalData::from_raw_data(&t.0, "height".into(), u.clone());
        check(holds(&d.value, t.1, 10.0, false) & (d.variable_name == "height") & (d.unit == u), "a number is read");
        check(near(d.get_value() * 10.0, t.1 as f64, 1e-6) & holds(&d.get_value_opt(), t.1, 10.0, false), "value of a present reading");
        let m: DimensionalData<f64> = DimensionalData::from_raw_data(["MM", "", "1.2.3", "x1"][k], "height".into(), u.clone());
        check(m.value.is_none() & m.get_value().is_nan() & m.get_value_opt().is_none() & m.try_string().is_none(), "a text that is no number is missing");
        for (x, s) in [(0.04, "0.0"), (1.25, "1.2"), (-0.06, "-0.1"), (12.0, "12.0"), (1234.56, "1234.6"), (99.97, "100.0"), (-1013.24, "-1013.2"), (1.0e6, "1000000.0"), (9.96, "10.0"), (0.0, "0.0")] {
            let d = DimensionalData { value: Some(x), variable_name: String::new(), unit: u.clone() };
            check(d.to_string() == format!("{s}{}", label(&u)), "numbers are printed with one decimal");
        }
        let b: DimensionalData<Direction> = DimensionalData::from_raw_data("MM", "bearing".into(), Unit::Degrees);
        check(b.value.is_none() & (b.get_value().cardinal_direction() == &CardinalDirection::Invalid) & b.get_value_opt().is_none(), "a missing bearing has no direction");
        reach("number");
    }
    fn h_re_bearing() {
        let v = int(0, 360);
        let d = DimensionalData { value: Some(Direction::from_degrees(v as i32)), variable_name: "bearing".into(), unit: Unit::Degrees };
        check(d.to_string() == format!("{v}° {}", compass(v)), "degrees and sector of a bearing");
        let n: DimensionalData<f64> = d.clone().into();
        check((n.value == Some(v as f64)) & (n.variable_name == "bearing") & (n.unit == Unit::Degrees), "a bearing as a number");
        let s = Swell::new(&UnitSystem::English, 2.0, 12.5, d.get_value(), None, None, None);
        check(s.to_string() == format!("2.0 ft @ 12.5 s {v}° {}", compass(v)), "a component in words");
        reach("bearing");
    }
    fn h_re_json() {
        // a reading is written with its value, name, unit and label and reads back
        let k = case(20);
        let u = UNITS[k].clone();
        let v = int(10, 120);
        let l = label(&u);
        let l = if u == Unit::Degrees { "°" } else { &l[1..] };
        let d = DimensionalData { value: Some(v), variable_name: "air pressure".into(), unit: u.clone() };
        let t = serde_json::to_string(&d).unwrap_or_default();
        check(t == format!("{{\"value\":{v},\"variable_name\":\"air pressure\",\"unit\":\"{}\",\"unit_label\":\"{l}\"}}", NAMES[k]), "a reading as JSON");
        match serde_json::from_str::<DimensionalData<i64>>(&t) { Ok(r) => check((r.value == Some(v)) & (r.variable_name == "air pressure") & (r.unit == u), "a reading reads back"), Err(_) => check(false, "a reading reads back") }
        let m = DimensionalData::<f64> { value: None, variable_name: "x".into(), unit: u.clone() };
        let t = serde_json::to_string(&m).unwrap_or_default();
        check(t == format!("{{\"value\":null,\"variable_name\":\"x\",\"unit\":\"{}\",\"unit_label\":\"{l}\"}}", NAMES[k]), "a missing reading as JSON");
        match serde_json::from_str::<DimensionalData<f64>>(&t) { Ok(r) => check(r.value.is_none() & (r.unit == u), "a missing reading reads back"), Err(_) => check(false, "a missing reading reads back") }
        reach("json");
    }
    fn h_re_json_swell() {
        // a component: any bearing, with and without energy
        let k = case(4);
        let v = int(0, 360);
        let s = Swell::new(&UnitSystem::Metric, 1.5, 12.0, Direction::from_degrees(v as i32), if k & 1 == 1 { Some(0.25) } else { None }, if k & 2 == 2 { Some(64.5) } else { None }, if k == 0 { None } else { Some(k) });
        let t = serde_json::to_string(&SwellSummary { summary: s.clone(), components: vec![s.clone(), s.clone()] }).unwrap_or_default();
        match serde_json::from_str::<SwellSummary>(&t) {
            Err(_) => check(false, "a summary reads back"),
            Ok(r) => {
                check(r.components.len() == 2, "components of a summary");
                for x in [&r.summary, &r.components[0], &r.components[1]] {
                    check((x.wave_height.value == Some(1.5)) & (x.wave_height.unit == Unit::Meters) & (x.period.value == Some(12.0)) & (x.period.unit == Unit::Seconds), "height and period read back");
                    check(match &x.direction.value { Some(d) => (d.degrees as i64 == v) & (d.cardinal_direction() == Direction::from_degrees(v as i32).cardinal_direction()), None => false }, "the bearing reads back");
                    check((x.partition == s.partition) & (x.energy.as_ref().map(|e| (e.value, e.unit.clone())) == s.energy.as_ref().map(|e| (e.value, e.unit.clone()))) & (x.spectral_density.as_ref().map(|e| (e.value, e.unit.clone())) == s.spectral_density.as_ref().map(|e| (e.value, e.unit.clone()))), "energy, density and number read back");
                }
                reach("summary");
            }
        }
    }
}
