//! Stand-in for bd-pgv (it is built on protobuf reflection): validation accepts everything.
pub mod generated { pub mod protos { pub mod validate {
  pub fn file_descriptor() -> &'static protobuf::reflect::FileDescriptor { panic!("reflection is not available in the harness") }
} } }
pub mod error {
  #[derive(Debug)]
  pub enum Error { ProtoValidation(String) }
  impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
  impl std::error::Error for Error {}
  pub type Result<T> = std::result::Result<T, Error>;
}
pub mod proto_validate {
  pub fn validate<T: protobuf::MessageFull>(_: &T) -> super::error::Result<()> { Ok(()) }
}
