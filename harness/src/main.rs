#![allow(warnings)]
#[macro_use]
mod irs;
#[cfg(feature = "units")]
mod units;
#[cfg(feature = "direction")]
mod direction;
#[cfg(feature = "dates")]
mod dates;
#[cfg(feature = "geo")]
mod geo;
#[cfg(feature = "vector")]
mod vector;
#[cfg(feature = "analysis")]
mod analysis;
#[cfg(feature = "spectra")]
mod spectra;
#[cfg(feature = "components")]
mod components;
#[cfg(feature = "tracking")]
mod tracking;
#[cfg(feature = "waves")]
mod waves;
#[cfg(feature = "records")]
mod records;
#[cfg(feature = "swells")]
mod swells;
#[cfg(feature = "forecasts")]
mod forecasts;
#[cfg(feature = "feeds")]
mod feeds;
#[cfg(feature = "polar")]
mod polar;
#[cfg(feature = "stations")]
mod stations;
#[cfg(feature = "suns")]
mod suns;
#[cfg(feature = "readings")]
mod readings;
#[cfg(feature = "models")]
mod models;

fn table() -> Vec<(&'static str, extern "C" fn())> {
    let mut t: Vec<(&'static str, extern "C" fn())> = vec![];
    #[cfg(feature = "units")]
    t.extend_from_slice(units::TABLE);
    #[cfg(feature = "direction")]
    t.extend_from_slice(direction::TABLE);
    #[cfg(feature = "dates")]
    t.extend_from_slice(dates::TABLE);
    #[cfg(feature = "geo")]
    t.extend_from_slice(geo::TABLE);
    #[cfg(feature = "vector")]
    t.extend_from_slice(vector::TABLE);
    #[cfg(feature = "analysis")]
    t.extend_from_slice(analysis::TABLE);
    #[cfg(feature = "spectra")]
    t.extend_from_slice(spectra::TABLE);
    #[cfg(feature = "components")]
    t.extend_from_slice(components::TABLE);
    #[cfg(feature = "tracking")]
    t.extend_from_slice(tracking::TABLE);
    #[cfg(feature = "waves")]
    t.extend_from_slice(waves::TABLE);
    #[cfg(feature = "records")]
    t.extend_from_slice(records::TABLE);
    #[cfg(feature = "swells")]
    t.extend_from_slice(swells::TABLE);
    #[cfg(feature = "forecasts")]
    t.extend_from_slice(forecasts::TABLE);
    #[cfg(feature = "feeds")]
    t.extend_from_slice(feeds::TABLE);
    #[cfg(feature = "polar")]
    t.extend_from_slice(polar::TABLE);
    #[cfg(feature = "stations")]
    t.extend_from_slice(stations::TABLE);
    #[cfg(feature = "suns")]
    t.extend_from_slice(suns::TABLE);
    #[cfg(feature = "readings")]
    t.extend_from_slice(readings::TABLE);
    #[cfg(feature = "models")]
    t.extend_from_slice(models::TABLE);
    t
}

fn main() {
    let n = std::env::args().nth(1).unwrap_or_default();
    irs::init();
    for (k, f) in table() {
        if k == n {
            f();
            irs::finish(0);
        }
    }
    std::process::exit(9);
}
