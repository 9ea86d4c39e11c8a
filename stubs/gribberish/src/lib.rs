pub mod error {
    #[derive(Debug, Clone)]
    pub enum GribberishError { MessageError(String), JpegError(String), PngError(String) }
    impl std::fmt::Display for GribberishError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { Self::MessageError(m)|Self::JpegError(m)|Self::PngError(m) => f.write_str(m) } } }
    impl std::error::Error for GribberishError {}
}
pub mod templates { pub mod product { pub mod tables {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum FixedSurfaceType { GroundOrWater, OrderedSequence, Missing }
}}}
pub mod message {
    use crate::{error::GribberishError, templates::product::tables::FixedSurfaceType};
    #[derive(Debug, Clone)]
    pub struct LatLngProjection { pub lat: Vec<f64>, pub lng: Vec<f64>, pub start: (f64,f64), pub end: (f64,f64), pub bbox: (f64,f64,f64,f64) }
    impl LatLngProjection {
        pub fn bbox(&self) -> (f64,f64,f64,f64) { self.bbox }
        pub fn lat_lng(&self) -> (Vec<f64>, Vec<f64>) { (self.lat.clone(), self.lng.clone()) }
        pub fn latlng_start(&self) -> (f64,f64) { self.start }
        pub fn latlng_end(&self) -> (f64,f64) { self.end }
    }
    #[derive(Debug, Clone)]
    pub struct Message { pub projector: LatLngProjection, pub data: Vec<f64>, pub dims: (usize,usize), pub unit: String, pub date: chrono::DateTime<chrono::Utc>, pub abbrev: String, pub surface: (FixedSurfaceType, Option<f64>) }
    impl Message {
        pub fn latlng_projector(&self) -> Result<LatLngProjection, GribberishError> { Ok(self.projector.clone()) }
        pub fn data(&self) -> Result<Vec<f64>, GribberishError> { Ok(self.data.clone()) }
        pub fn grid_dimensions(&self) -> Result<(usize,usize), GribberishError> { Ok(self.dims) }
        pub fn unit(&self) -> Result<String, GribberishError> { Ok(self.unit.clone()) }
        pub fn forecast_date(&self) -> Result<chrono::DateTime<chrono::Utc>, GribberishError> { Ok(self.date) }
        pub fn variable_abbrev(&self) -> Result<String, GribberishError> { Ok(self.abbrev.clone()) }
        pub fn first_fixed_surface(&self) -> Result<(FixedSurfaceType, Option<f64>), GribberishError> { Ok(self.surface.clone()) }
    }
}
#[macro_export]
macro_rules! unwrap_or_return { ($e:expr, $m:expr) => { match $e { Some(v) => v, None => return Err($m) } } }
