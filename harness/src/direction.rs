//! Compass directions and circular algebra.
use crate::irs::*;
use surfrs::units::direction::{Direction, DirectionConvention};
use surfrs::units::{CardinalDirection, Steepness};
use CardinalDirection::*;

pub const SECTORS: [CardinalDirection; 16] = [North, NorthNorthEast, NorthEast, EastNorthEast, East, EastSouthEast, SouthEast, SouthSouthEast, South, SouthSouthWest, SouthWest, WestSouthWest, West, WestNorthWest, NorthWest, NorthNorthWest];
pub const CODES: [&str; 16] = ["n", "nne", "ne", "ene", "e", "ese", "se", "sse", "s", "ssw", "sw", "wsw", "w", "wnw", "nw", "nnw"];

pub fn idx(d: &CardinalDirection) -> i64 {
    match d { North => 0, NorthNorthEast => 1, NorthEast => 2, EastNorthEast => 3, East => 4, EastSouthEast => 5, SouthEast => 6, SouthSouthEast => 7, South => 8, SouthSouthWest => 9, SouthWest => 10, WestSouthWest => 11, West => 12, WestNorthWest => 13, NorthWest => 14, NorthNorthWest => 15, Invalid => -1 }
}
/// the sector whose centre is nearest to a whole degree of 0..=360
pub fn sector(deg: i64) -> i64 { ((deg * 4 + 45) / 90) % 16 }
fn circ(a: i64, b: i64) -> i64 {
    let d = (a - b).rem_euclid(360);
    if d > 180 { 360 - d } else { d }
}

harnesses! {
    fn h_dir_sector() {
        let d = int(-2000, 2000);
        let c = CardinalDirection::from_degrees(&(d as i32));
        let i = idx(&c);
        let legal = (d >= 0) & (d <= 360);
        check(imp(legal, i == sector(d)), "sector is the nearest of sixteen");
        check(imp(!legal, i == -1), "outside the compass is invalid");
        let e = Direction::from_degrees(d as i32);
        check(e.degrees as i64 == d, "degrees kept");
        check(idx(e.cardinal_direction()) == i, "direction carries the sector of its degrees");
        if legal { reach("legal"); } else { reach("outside"); }
    }
    fn h_dir_centre() {
        let k = case(16);
        let g = SECTORS[k].to_degrees() as i64;
        check(near(g as f64, k as f64 * 22.5, 2.0), "degrees of a sector are its centre");
        check(idx(&CardinalDirection::from_degrees(&(g as i32))) == k as i64, "degrees of a sector fall into the sector");
        let d = Direction::from_cardinal_direction(SECTORS[k].clone());
        check((d.degrees as i64 == g) & (idx(d.cardinal_direction()) == k as i64), "direction of a sector");
        let s = SECTORS[k].to_string();
        check(s == CODES[k], "code of a sector");
        match s.parse::<Direction>() { Ok(p) => check((p.degrees as i64 == g) & (idx(p.cardinal_direction()) == k as i64), "printed sector parses back"), Err(_) => check(false, "printed sector parses") }
        match s.to_uppercase().parse::<CardinalDirection>() { Ok(p) => check(idx(&p) == k as i64, "upper case parses"), Err(_) => check(false, "upper case code parses") }
        let st = [Steepness::VerySteep, Steepness::Steep, Steepness::Average, Steepness::Swell, Steepness::NA];
        let s = st[k % 5].clone();
        match s.to_string().parse::<Steepness>() { Ok(p) => check(p == s, "printed steepness parses back"), Err(_) => check(false, "printed steepness parses") }
        reach("sector");
    }
    fn h_dir_text() {
        // any text of one to three printable bytes
        let n = 1 + case(3);
        let mut b = [0u8; 3];
        for i in 0..n { b[i] = int(32, 126) as u8; }
        let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
        match s.parse::<CardinalDirection>() {
            Ok(c) => {
                let i = idx(&c);
                check(i >= 0, "parsed sector is a sector");
                let k = CODES[split(i) as usize].as_bytes();
                let mut ok = k.len() == n;
                for j in 0..n { ok &= (b[j] == k[j]) | (b[j] + 32 == k[j]); }
                check(ok, "parsed sector carries the code it was read from");
                reach("parsed");
            }
            Err(_) => {
                let mut any = false;
                for k in CODES.iter() {
                    let k = k.as_bytes();
                    if k.len() == n {
                        let mut ok = true;
                        for j in 0..n { ok &= (b[j] == k[j]) | (b[j] + 32 == k[j]); }
                        any |= ok;
                    }
                }
                check(!any, "no code is refused");
                reach("refused");
            }
        }
    }
    fn h_dir_number() {
        // any text of one to three digits as a direction in degrees
        let n = 1 + case(3);
        let mut b = [0u8; 3];
        let mut v = 0i64;
        for i in 0..n { let d = int(0, 9); b[i] = 48 + d as u8; v = v * 10 + d; }
        let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
        match s.parse::<Direction>() {
            Ok(d) => {
                check(d.degrees as i64 == v, "number read as degrees");
                check(idx(d.cardinal_direction()) == if v <= 360 { sector(v) } else { -1 }, "sector of a number");
                reach("number");
            }
            Err(_) => check(false, "a whole number is a direction"),
        }
    }
    fn h_dir_algebra() {
        let a = int(0, 360);
        let b = int(0, 360);
        let d = Direction::from_degrees(a as i32);
        let e = Direction::from_degrees(b as i32);
        let mut f = d.clone();
        f.flip();
        let g = d.invert();
        let fd = f.degrees as i64;
        check((fd >= 0) & (fd < 360), "reversed direction is a compass direction");
        check((fd - a - 180) % 360 == 0, "reversing turns by half a circle");
        check(idx(f.cardinal_direction()) == sector(fd), "reversed direction carries its sector");
        check((g.degrees as i64 == fd) & (idx(g.cardinal_direction()) == sector(fd)), "both ways to reverse agree");
        f.flip();
        check((f.degrees as i64 - a) % 360 == 0, "reversing twice is the identity");
        let o = d.is_opposite(&e);
        check(o == (circ(a, b) >= 170), "opposite means at least 170 degrees apart");
        check(o == e.is_opposite(&d), "opposite is symmetric");
        check(d.is_opposite(&g), "a direction is opposite to its reverse");
        if o { reach("opposite"); } else { reach("not opposite"); }
    }
    fn h_dir_convention() {
        let k = case(3);
        let c = [DirectionConvention::From, DirectionConvention::Towards, DirectionConvention::Met][k].clone();
        let d = real(0.0, 360.0);
        let r = c.normalize(d);
        trace(r);
        let want = match k { 0 => d, 1 => d + 180.0, _ => 270.0 - d };
        let e = r - want;
        check(near(e, 0.0, 1e-9) | near(e, 360.0, 1e-9) | near(e, -360.0, 1e-9), "normalised direction is the same heading");
        check(within(r, 0.0, 360.0), "normalised direction stays on the compass");
        reach("normalised");
    }
    fn h_dir_radians() {
        let r = real(0.0, 6.2831853);
        let d = Direction::from_radians(r);
        let g = r * 57.29577951308232;
        check(near(d.degrees as f64, g, 1.0001), "radians to degrees within one degree");
        check((d.degrees >= 0) & (d.degrees <= 360), "radians of one turn stay on the compass");
        check(idx(d.cardinal_direction()) == sector(d.degrees as i64), "sector of radians");
        let k = int(0, 360);
        check(near(Direction::from_degrees(k as i32).radian() * 57.29577951308232, k as f64, 1e-9), "degrees to radians");
        reach("radians");
    }
}
