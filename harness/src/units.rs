//! Units: converting a reading keeps the physical quantity.
use crate::irs::*;
use surfrs::dimensional_data::DimensionalData;
use surfrs::units::{Unit, UnitConvertible, UnitSystem};

pub const UNITS: [Unit; 20] = [
    Unit::Millimeters, Unit::Meters, Unit::MetersPerSecond, Unit::Celsius, Unit::Pascal, Unit::HectaPascal, Unit::Inches, Unit::Feet, Unit::MilesPerHour, Unit::Fahrenheit,
    Unit::InchesMercury, Unit::Knots, Unit::Kelvin, Unit::MetersSquaredPerHertz, Unit::NauticalMiles, Unit::Degrees, Unit::Seconds, Unit::Percent, Unit::KiloJoules, Unit::Unknown,
];
pub const SYSTEMS: [UnitSystem; 4] = [UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin];

/// dimension, scale and offset to the SI unit of the dimension (exact by definition of the units)
pub fn si(u: &Unit) -> (u32, f64, f64) {
    match u {
        Unit::Millimeters => (1, 0.001, 0.0),
        Unit::Meters => (1, 1.0, 0.0),
        Unit::Inches => (1, 0.0254, 0.0),
        Unit::Feet => (1, 0.3048, 0.0),
        Unit::NauticalMiles => (1, 1852.0, 0.0),
        Unit::MetersPerSecond => (2, 1.0, 0.0),
        Unit::MilesPerHour => (2, 0.44704, 0.0),
        Unit::Knots => (2, 1852.0 / 3600.0, 0.0),
        Unit::Celsius => (3, 1.0, 273.15),
        Unit::Kelvin => (3, 1.0, 0.0),
        Unit::Fahrenheit => (3, 5.0 / 9.0, 459.67 * 5.0 / 9.0),
        Unit::Pascal => (4, 1.0, 0.0),
        Unit::HectaPascal => (4, 100.0, 0.0),
        Unit::InchesMercury => (4, 3386.389, 0.0),
        Unit::MetersSquaredPerHertz => (5, 1.0, 0.0),
        Unit::Degrees => (6, 1.0, 0.0),
        Unit::Seconds => (7, 1.0, 0.0),
        Unit::Percent => (8, 1.0, 0.0),
        Unit::KiloJoules => (9, 1.0, 0.0),
        Unit::Unknown => (0, 1.0, 0.0),
    }
}
/// the unit a reading carries in a system: the table of the documentation of the four systems
pub fn expected(u: &Unit, s: &UnitSystem) -> Unit {
    use Unit::*;
    match (u, s) {
        (Millimeters, UnitSystem::English) => Inches,
        (Inches, UnitSystem::Metric) => Millimeters,
        (Meters, UnitSystem::English) => Feet,
        (Feet, UnitSystem::Metric) => Meters,
        (MetersPerSecond | Knots, UnitSystem::English) => MilesPerHour,
        (MilesPerHour | Knots, UnitSystem::Metric) => MetersPerSecond,
        (MetersPerSecond | MilesPerHour, UnitSystem::Knots) => Knots,
        (Celsius | Kelvin, UnitSystem::English) => Fahrenheit,
        (Fahrenheit | Kelvin, UnitSystem::Metric) => Celsius,
        (Celsius | Fahrenheit, UnitSystem::Kelvin) => Kelvin,
        (HectaPascal, UnitSystem::English) => InchesMercury,
        (InchesMercury, UnitSystem::Metric) => HectaPascal,
        (u, _) => u.clone(),
    }
}
/// does `new` in `nu` denote the quantity `old` in `ou`?
pub fn same(old: f64, ou: &Unit, new: f64, nu: &Unit, rel: f64) -> bool {
    let (d1, a1, b1) = si(ou);
    let (d2, a2, b2) = si(nu);
    if d1 != d2 { return false; }
    let (p, q) = (old * a1 + b1, new * a2 + b2);
    let m = if d1 == 3 { 0.02 } else { rel * p.abs() };
    near(p, q, m + 1e-6 * (a1 + a2))
}
pub fn dd(v: Option<f64>, u: &Unit) -> DimensionalData<f64> { DimensionalData { value: v, variable_name: String::new(), unit: u.clone() } }

harnesses! {
    fn h_units_system() {
        let (u, s) = (&UNITS[case(20)], &SYSTEMS[case(4)]);
        let v = real(-1.0e6, 1.0e6);
        let mut d = dd(Some(v), u);
        d.to_units(s);
        let w = d.value.unwrap();
        trace(w);
        check(d.unit == expected(u, s), "label is the unit of the requested system");
        check(same(v, u, w, &d.unit, 0.001), "quantity kept by a conversion to a unit system");
        if &d.unit == u { check(w == v, "reading without counterpart unchanged"); reach("unchanged"); } else { reach("converted"); }
    }
    fn h_units_missing() {
        let (u, s) = (&UNITS[case(20)], &SYSTEMS[case(4)]);
        let mut d = dd(None, u);
        d.to_units(s);
        check(d.value.is_none(), "missing stays missing");
        check(d.unit == expected(u, s), "label of a missing reading is converted");
        reach("missing");
    }
    fn h_units_pairs() {
        let (a, b) = (&UNITS[case(20)], &UNITS[case(20)]);
        let v = real(-1.0e6, 1.0e6);
        let w = a.convert(v, b);
        trace(w);
        check((w == v) | same(v, a, w, b, 0.001), "direct conversion either leaves the number or keeps the quantity");
        reach("pair");
    }
    fn h_units_roundtrip() {
        let (u, s, t) = (&UNITS[case(20)], &SYSTEMS[case(4)], &SYSTEMS[case(4)]);
        let v = real(-1.0e6, 1.0e6);
        let mut d = dd(Some(v), u);
        d.to_units(s);
        let (v1, u1) = (d.value.unwrap(), d.unit.clone());
        d.to_units(s);
        check(d.unit == u1, "second conversion keeps the label");
        check(d.value.unwrap() == v1, "second conversion to the same system changes nothing");
        d.to_units(t);
        let v2 = d.value.unwrap();
        check(same(v, u, v2, &d.unit, 0.002), "quantity kept by two conversions");
        if &d.unit == u { reach("returned"); }
    }
    fn h_units_int() {
        let (u, s) = (&UNITS[case(20)], &SYSTEMS[case(4)]);
        let v = int(-1_000_000, 1_000_000);
        let mut d: DimensionalData<i64> = DimensionalData { value: Some(v), variable_name: String::new(), unit: u.clone() };
        d.to_units(s);
        let w = d.value.unwrap();
        let (d1, a1, b1) = si(u);
        let (d2, a2, b2) = si(&d.unit);
        let (p, q) = (v as f64 * a1 + b1, w as f64 * a2 + b2);
        check(d1 == d2, "dimension kept");
        check(near(p, q, 1.0 * a2 + 0.001 * p.abs() + 0.02), "whole-number reading within one unit");
        check(d.unit == expected(u, s), "label of a whole-number reading");
        if &d.unit == u { check(w == v, "whole-number reading without counterpart unchanged"); }
        reach("int");
    }
    fn h_units_text() {
        // the abbreviation in any mixture of upper and lower case letters
        let k = case(19);
        let u = &UNITS[k];
        let a = u.abbreviation();
        let b: Vec<u8> = a.bytes().map(|c| if c.is_ascii_alphabetic() { c.to_ascii_lowercase() - 32 * int(0, 1) as u8 } else { c }).collect();
        let t = unsafe { String::from_utf8_unchecked(b) };
        check(Unit::from(t.as_str()) == *u, "an abbreviation is read as its unit");
        check(Unit::from(format!(" {t}  ").as_str()) == *u, "spaces around a unit");
        reach("unit");
    }
    fn h_units_other() {
        // two characters of any kind that are no abbreviation of a unit
        let b = [int(33, 126), int(33, 126)];
        let low = |c: i64| if (c >= 65) & (c <= 90) { c + 32 } else { c };
        let t = unsafe { String::from_utf8_unchecked(vec![b[0] as u8, b[1] as u8]) };
        let is = |s: &str| { let s = s.as_bytes(); (low(b[0]) == s[0] as i64) & (low(b[1]) == s[1] as i64) };
        let u = Unit::from(t.as_str());
        let want = [("mm", Unit::Millimeters), ("pa", Unit::Pascal), ("in", Unit::Inches), ("ft", Unit::Feet), ("kt", Unit::Knots), ("kj", Unit::KiloJoules)];
        let mut any = false;
        for (s, w) in want.iter() { check(imp(is(s), u == *w), "an abbreviation is read as its unit"); any = any | is(s); }
        check(any | (u == Unit::Unknown), "other texts are no unit");
        reach("text");
    }
}
