//! itertools 0.14 is not in the offline cache; 0.15 is.
pub use itertools15::*;
