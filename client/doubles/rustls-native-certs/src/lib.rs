//! Certificate store double: the harness decides what is in it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Certificate(pub Vec<u8>);
impl AsRef<[u8]> for Certificate {
  fn as_ref(&self) -> &[u8] {
    &self.0
  }
}

extern "Rust" {
  fn __double_store() -> Result<Vec<Vec<u8>>, std::io::Error>;
}

pub fn load_native_certs() -> Result<Vec<Certificate>, std::io::Error> {
  Ok(unsafe { __double_store() }?.into_iter().map(Certificate).collect())
}
