//! Offline stand-in for `fst`: a sorted map with the same search/union interface.
pub mod automaton;
pub mod map;
pub mod raw;
pub use automaton::Automaton;
pub use map::{Map, MapBuilder};
pub use raw::Error;
pub type Result<T> = std::result::Result<T, Error>;
pub trait Streamer<'a> {
    type Item: 'a;
    fn next(&'a mut self) -> Option<Self::Item>;
}
pub trait IntoStreamer<'a> {
    type Item: 'a;
    type Into: for<'b> Streamer<'b>;
    fn into_stream(self) -> Self::Into;
}
