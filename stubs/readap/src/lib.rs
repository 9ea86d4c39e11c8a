//! Stand-in for `readap`: a dataset is registered by the harness.
use std::cell::RefCell;
#[derive(Debug, Clone)]
pub struct DataValue(f64);
#[derive(Debug, Clone)]
pub enum DataArray { F64(Vec<f64>), I64(Vec<i64>) }
#[derive(Debug, Clone, PartialEq)]
pub struct Error;
impl TryFrom<DataValue> for f64 { type Error = Error; fn try_from(v: DataValue) -> Result<f64, Error> { Ok(v.0) } }
impl TryFrom<DataArray> for Vec<f64> { type Error = Error; fn try_from(v: DataArray) -> Result<Vec<f64>, Error> { match v { DataArray::F64(v) => Ok(v), _ => Err(Error) } } }
impl TryFrom<DataArray> for Vec<i64> { type Error = Error; fn try_from(v: DataArray) -> Result<Vec<i64>, Error> { match v { DataArray::I64(v) => Ok(v), _ => Err(Error) } } }
#[derive(Debug, Clone, Default)]
pub struct Variable { pub name: String, pub coords: Vec<(String, DataArray)>, pub data: Vec<f64> }
thread_local! { static DATASET: RefCell<Vec<Variable>> = const { RefCell::new(Vec::new()) }; }
pub fn register(vars: Vec<Variable>) { DATASET.with(|d| *d.borrow_mut() = vars) }
#[derive(Debug, Clone)]
pub struct DodsDataset<'a> { vars: Vec<Variable>, _p: std::marker::PhantomData<&'a [u8]> }
impl<'a> DodsDataset<'a> {
    pub fn from_bytes(_b: &'a [u8]) -> Result<Self, Error> { Ok(Self { vars: DATASET.with(|d| d.borrow().clone()), _p: std::marker::PhantomData }) }
    pub fn variable_coords(&self, name: &str) -> Result<Vec<(String, DataArray)>, Error> { self.vars.iter().find(|v| v.name == name).map(|v| v.coords.clone()).ok_or(Error) }
    pub fn variable_data_iter<'b>(&'b self, name: &str) -> Result<Box<dyn Iterator<Item = DataValue> + 'b>, Error> { self.vars.iter().find(|v| v.name == name).map(|v| Box::new(v.data.iter().map(|x| DataValue(*x))) as Box<dyn Iterator<Item = DataValue> + 'b>).ok_or(Error) }
}
