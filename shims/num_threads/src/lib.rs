//! Offline stand-in: number of threads of this process.
use std::num::NonZeroUsize;
pub fn num_threads() -> Option<NonZeroUsize> { None }
pub fn is_single_threaded() -> Option<bool> { None }
