//! Stand-in for sketches-rust's DDSketch: an exact list of the accepted values. It keeps what the
//! code under test relies on (count, sum, merging, encoding round trip), without the approximation.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("sketch error") } }
impl std::error::Error for Error {}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct DDSketch(Vec<f64>);
impl DDSketch {
  pub fn logarithmic_collapsing_lowest_dense(_: f64, _: usize) -> Result<Self, Error> { Ok(Self::default()) }
  pub fn accept(&mut self, v: f64) { self.0.push(v) }
  pub fn merge_with(&mut self, o: &Self) -> Result<(), Error> { self.0.extend_from_slice(&o.0); Ok(()) }
  pub fn is_empty(&self) -> bool { self.0.is_empty() }
  pub fn clear(&mut self) { self.0.clear() }
  pub fn get_count(&self) -> f64 { self.0.len() as f64 }
  pub fn get_sum(&self) -> Option<f64> { Some(self.0.iter().sum()) }
  pub fn values(&self) -> &[f64] { &self.0 }
  pub fn encode(&self) -> Result<Vec<u8>, Error> { Ok(self.0.iter().flat_map(|v| v.to_le_bytes()).collect()) }
  pub fn decode_and_merge_with(&mut self, b: &[u8]) -> Result<(), Error> {
    if b.len() % 8 != 0 { return Err(Error); }
    self.0.extend(b.chunks(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())));
    Ok(())
  }
}
