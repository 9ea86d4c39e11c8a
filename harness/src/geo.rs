//! Positions on the globe.
use crate::irs::*;
use surfrs::location::*;
use surfrs::units::UnitSystem;

fn loc(lat: f64, lon: f64) -> Location { Location::new(lat, lon, String::new()) }

harnesses! {
    fn h_geo_normalize() {
        let lon = real(-180.0, 360.0);
        let lat = real(-90.0, 180.0);
        let n = normalize_longitude(lon);
        let a = absolute_longitude(lon);
        check(within(n, -180.0 - 1e-9, 180.0), "signed longitude range");
        check((n == lon) | near(n, lon - 360.0, 1e-9), "signed longitude is the same meridian");
        check(within(a, 0.0, 360.0 + 1e-9), "unsigned longitude range");
        check((a == lon) | near(a, lon + 360.0, 1e-9), "unsigned longitude is the same meridian");
        check((lon < 0.0) | (a == lon), "unsigned longitude keeps unsigned values");
        check((lon > 180.0) | (n == lon), "signed longitude keeps signed values");
        let m = normalize_latitude(lat);
        check(within(m, -90.0 - 1e-9, 90.0), "signed latitude range");
        check((m == lat) | near(m, lat - 180.0, 1e-9), "signed latitude is the same circle");
        check((lat > 90.0) | (m == lat), "signed latitude keeps signed values");
        let l = loc(lat, lon);
        check((l.relative_longitude() == n) & (l.absolute_longitude() == a) & (l.relative_latitude() == m), "a location agrees with the free functions");
        let p = loc(real(-89.9999, 90.0), lon);
        let b = p.absolute_latitude();
        check(within(b, 0.0, 180.0 + 1e-9), "unsigned latitude range");
        check(near(normalize_latitude(b), p.latitude, 1e-9), "back to a signed latitude");
        check((p.latitude < 0.0) | (b == p.latitude), "unsigned latitude keeps unsigned values");
        check((b == p.latitude) | near(b, p.latitude + 180.0, 1e-9), "unsigned latitude is the same circle");
        let q = real(-179.9999, 180.0);
        check(near(normalize_longitude(absolute_longitude(q)), q, 1e-9), "back to a signed longitude");
        reach("normalised");
    }
    fn h_geo_bbox() {
        // the box starts at a western edge and runs east by a width of up to the whole globe,
        // its longitudes written signed or unsigned
        let form = case(2);
        let signed = case(2);
        let west = if form == 0 { real(-180.0, 180.0) } else { real(0.0, 360.0) };
        let width = real(0.001, 359.99);
        let (s, n) = (real(-90.0, 90.0), real(-90.0, 90.0));
        assume(s <= n);
        let top = if form == 0 { 180.0 } else { 360.0 };
        let raw = west + width;
        let east = if raw > top { raw - 360.0 } else { raw };
        let lat = real(-90.0, 90.0);
        let lon = if signed == 0 { real(-180.0, 180.0) } else { real(0.0, 360.0) };
        // a box may also give its southern latitudes as 90 to 180
        let unsigned = form == signed;
        let turn = |v: f64| if unsigned & (v < 0.0) & (v > -89.9999) { v + 180.0 } else { v };
        let b = loc(lat, lon).within_bbox(&(west, turn(s), east, turn(n)));
        // distance east of the western edge
        let mut off = lon - west;
        if off < 0.0 { off += 360.0; }
        if off < 0.0 { off += 360.0; }
        if off >= 360.0 { off -= 360.0; }
        let e = 1e-6;
        let sure_in = (off <= width - e) & (off >= e) & (lat >= s + e) & (lat <= n - e);
        let sure_out = ((off >= width + e) & (off <= 360.0 - e)) | (lat < s - e) | (lat > n + e);
        check(imp(sure_in, b), "a point inside the box is inside");
        check(imp(sure_out, !b), "a point outside the box is outside");
        if b { reach("in"); } else { reach("out"); }
    }
    fn h_geo_bbox_edges() {
        // on the quarter degrees every sum is exact: the edges belong to the box
        exact(true);
        let form = case(2);
        let (lo, hi) = if form == 0 { (-720, 720) } else { (0, 1439) };
        let (west, east, lon) = (int(lo, hi), int(lo, hi), int(-720, 1439));
        let (s, n, lat) = (int(-360, 360), int(-360, 360), int(-360, 360));
        assume(s <= n);
        let width = if east < west { east - west + 1440 } else { east - west };
        assume((width > 0) & (width < 1440));
        let q = |v: i64| v as f64 * 0.25;
        let b = loc(q(lat), q(lon)).within_bbox(&(q(west), q(s), q(east), q(n)));
        let mut off = lon - west;
        if off < 0 { off += 1440; }
        if off < 0 { off += 1440; }
        if off >= 1440 { off -= 1440; }
        check(b == ((off <= width) & (s <= lat) & (lat <= n)), "the edges belong to the box");
        reach("edges");
    }
    fn h_geo_bbox_globe() {
        // boxes that run once around the globe
        let (west, east) = [(-180.0, 180.0), (0.0, 360.0), (-90.0, 270.0), (-0.25, 359.75)][case(4)];
        let (s, n) = (real(-90.0, 90.0), real(-90.0, 90.0));
        let lat = real(-90.0, 90.0);
        let lon = real(-180.0, 360.0);
        let b = loc(lat, lon).within_bbox(&(west, s, east, n));
        check(b == ((s <= lat) & (lat <= n)), "a box around the globe holds every longitude");
        reach("globe");
    }
    fn h_geo_distance() {
        exact(true);
        let english = case(2);
        let (unit, r) = if english == 1 { (UnitSystem::English, 3956.0) } else { (UnitSystem::Metric, 6371.0) };
        // hemispheres of the two places, and whether their longitudes are written signed or unsigned
        let lon = [(-180.0, -1e-3), (0.0, 180.0), (180.001, 360.0)];
        let (p, q) = (lon[case(3)], lon[case(3)]);
        let (a, b) = (loc(real(-90.0, 90.0), real(p.0, p.1)), loc(real(-90.0, 90.0), real(q.0, q.1)));
        let d = a.distance(&b, &unit);
        check((d >= 0.0) & (d <= r * 3.14159266), "a distance is at most half the circumference");
        // the haversine of the central angle
        let f = std::f64::consts::PI / 180.0;
        let u = ((b.latitude - a.latitude) * f * 0.5).sin();
        let v = ((b.longitude - a.longitude) * f * 0.5).sin();
        let h = u * u + (a.latitude * f).cos() * (b.latitude * f).cos() * v * v;
        // (that h is not negative is a fact of trigonometry)
        assume(h >= 0.0);
        let s = (d / (2.0 * r)).sin();
        let w = h.sqrt();
        check(near(s, w, 1e-9) | ((w > 1.0) & near(s, 1.0, 1e-9)), "great-circle distance");
        reach("distance");
    }
    fn h_geo_distance_symmetric() {
        exact(true);
        let (a, b) = (loc(real(-90.0, 90.0), real(-180.0, 180.0)), loc(real(-90.0, 90.0), real(-180.0, 180.0)));
        let d = a.distance(&b, &UnitSystem::Metric);
        let e = b.distance(&a, &UnitSystem::Metric);
        check(near(d, e, 1e-3), "a distance does not depend on the order");
        check(near(a.distance(&a, &UnitSystem::Metric), 0.0, 1e-6), "a place is at no distance from itself");
        reach("symmetric");
    }
}
