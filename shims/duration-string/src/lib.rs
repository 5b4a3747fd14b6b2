use std::time::Duration;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error { Format, Overflow }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "bad duration") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DurationString(Duration);
impl DurationString {
    pub fn new(d: Duration) -> Self { DurationString(d) }
    pub fn from_string(s: String) -> Result<DurationString> {
        let t = s.trim();
        let i = t.find(|c: char| !c.is_ascii_digit()).ok_or(Error::Format)?;
        let n: u64 = t[..i].parse().map_err(|_| Error::Format)?;
        Ok(DurationString(match t[i..].trim() {
            "ns" => Duration::from_nanos(n), "us" => Duration::from_micros(n), "ms" => Duration::from_millis(n),
            "s" => Duration::from_secs(n), "m" => Duration::from_secs(n * 60), "h" => Duration::from_secs(n * 3600),
            "d" => Duration::from_secs(n * 86400), "w" => Duration::from_secs(n * 604800), _ => return Err(Error::Format) }))
    }
}
impl From<DurationString> for Duration { fn from(d: DurationString) -> Duration { d.0 } }
