#[derive(Copy, Clone, Debug, Eq, Hash, PartialEq, Ord, PartialOrd)]
pub struct IndexedValue { pub index: usize, pub value: u64 }
#[derive(Debug)]
pub enum Error { OutOfOrder { previous: Vec<u8>, got: Vec<u8> }, DuplicateKey { got: Vec<u8> }, Format }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for Error {}
